-------------------------------- MODULE Color -------------------------------
(***************************************************************************)
(* The color transforms.  Everything follows from the luma weights of the  *)
(* two ITU recommendations and the ranges of the samples; the fixed-point  *)
(* weights are derived here and not copied from the implementation.        *)
(***************************************************************************)
EXTENDS BigNat, Formats, TLC

\* ITU-R BT.601 and BT.709: luma weights as fractions of LumaUnit
Is601(cs) == cs \in {Bt601, Bt601FR}
IsFull(cs) == cs \in {Bt601FR, Bt709FR}
LumaUnit(cs) == IF Is601(cs) THEN 1000 ELSE 10000
Kr(cs) == IF Is601(cs) THEN 299 ELSE 2126
Kb(cs) == IF Is601(cs) THEN 114 ELSE 722
Kg(cs) == LumaUnit(cs) - Kr(cs) - Kb(cs)

\* Ranges of the samples, in units of 1/255
YRange(cs) == IF IsFull(cs) THEN 255 ELSE 219
CRange(cs) == IF IsFull(cs) THEN 255 ELSE 224
YMin(cs)   == IF IsFull(cs) THEN 0 ELSE 16
CMid == 128
Opaque == 255

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN <<1>> ELSE BigMul(Big(Head(s)), Product(Tail(s)))

\* The product of the numbers of num over that of den, to the nearest integer
Weight(num, den) == Small(RoundDiv(Product(num), Product(den)))

(***************************************************************************)
(* RGB to YUV: weights with 16 fractional bits.  Those of each chroma      *)
(* component sum to zero, and none exceeds 32767: where rounding would give*)
(* 32768, the weight that is closer to the next integer gives way.         *)
(***************************************************************************)
F16 == 65536

LumaR(cs) == Weight(<<F16, Kr(cs), YRange(cs)>>, <<LumaUnit(cs), 255>>)
LumaG(cs) == Weight(<<F16, Kg(cs), YRange(cs)>>, <<LumaUnit(cs), 255>>)
LumaB(cs) == Weight(<<F16, Kb(cs), YRange(cs)>>, <<LumaUnit(cs), 255>>)

\* Magnitudes of the (negative) weights of red and green in Cb, in 1/scale
CbDen(cs) == <<2, LumaUnit(cs) - Kb(cs), 255>>
CrDen(cs) == <<2, LumaUnit(cs) - Kr(cs), 255>>
CbRExact(cs, scale) == Weight(<<F16, Kr(cs), CRange(cs), scale>>, CbDen(cs))
CbGExact(cs, scale) == Weight(<<F16, Kg(cs), CRange(cs), scale>>, CbDen(cs))
CrGExact(cs, scale) == Weight(<<F16, Kg(cs), CRange(cs), scale>>, CrDen(cs))

MaxWeight == 32767
Excess(cs) == CbRExact(cs, 1) + CbGExact(cs, 1) - MaxWeight
\* How far (in thousandths) a magnitude is above the next lower candidate
Above(cs, f(_, _)) == f(cs, 1000) - 1000 * (f(cs, 1) - 1)
\* Excess is at most one; red gives way if that moves it less than green
RedGives(cs) == Excess(cs) > 0 /\ Above(cs, CbRExact) <= Above(cs, CbGExact)
GreenGives(cs) == Excess(cs) > 0 /\ ~RedGives(cs)

CbR(cs) == -(CbRExact(cs, 1) - (IF RedGives(cs) THEN Excess(cs) ELSE 0))
CbG(cs) == -(CbGExact(cs, 1) - (IF GreenGives(cs) THEN Excess(cs) ELSE 0))
CbB(cs) == -(CbR(cs) + CbG(cs))
CrR(cs) == CbB(cs)
CrG(cs) == -CrGExact(cs, 1)
CrB(cs) == -(CrR(cs) + CrG(cs))

\* Weight of an RGB channel in a YUV channel
FwdTable == TLCEval([cs \in YuvSpaces |-> TLCEval(
  [y |-> TLCEval([r |-> LumaR(cs), g |-> LumaG(cs), b |-> LumaB(cs)]),
   u |-> TLCEval([r |-> CbR(cs), g |-> CbG(cs), b |-> CbB(cs)]),
   v |-> TLCEval([r |-> CrR(cs), g |-> CrG(cs), b |-> CrB(cs)])])])

\* Offset, and rounding: luma to nearest, chroma to nearest with ties down.
\* n = 1 for one pixel, n = 4 for the mean of four.
FwdShift(n) == n * F16
FwdOffset(cs, c, n) ==
  IF c = "y" THEN YMin(cs) * FwdShift(n) + FwdShift(n) \div 2
             ELSE CMid * FwdShift(n) + FwdShift(n) \div 2 - 1

\* The sample of channel c for the sums r, g, b of n pixels
Fwd(cs, c, n, r, g, b) ==
  LET t == FwdTable[cs][c] IN
  (t.r * r + t.g * g + t.b * b + FwdOffset(cs, c, n)) \div FwdShift(n)

(***************************************************************************)
(* YUV to RGB: weights with 14 fractional bits, products truncated to 6,   *)
(* and a final rounding that is part of the offsets.                       *)
(***************************************************************************)
F14 == 16384

InvY(cs)  == Weight(<<F14, 255>>, <<YRange(cs)>>)
InvCrR(cs) == Weight(<<F14, 2, LumaUnit(cs) - Kr(cs), 255>>, <<LumaUnit(cs), CRange(cs)>>)
InvCbB(cs) == Weight(<<F14, 2, LumaUnit(cs) - Kb(cs), 255>>, <<LumaUnit(cs), CRange(cs)>>)
InvCrG(cs) == Weight(<<F14, 2, LumaUnit(cs) - Kr(cs), Kr(cs), 255>>,
                     <<LumaUnit(cs), Kg(cs), CRange(cs)>>)
InvCbG(cs) == Weight(<<F14, 2, LumaUnit(cs) - Kb(cs), Kb(cs), 255>>,
                     <<LumaUnit(cs), Kg(cs), CRange(cs)>>)
InvOffset(cs, w) == w * CMid + InvY(cs) * YMin(cs)
Half14 == F14 \div 2

\* Contribution of an input sample x of channel i to output channel o
InvWeights == TLCEval([cs \in YuvSpaces |-> TLCEval(
  [y |-> InvY(cs), crr |-> InvCrR(cs), crg |-> InvCrG(cs), cbg |-> InvCbG(cs), cbb |-> InvCbB(cs)])])

InvTerm(cs, o, i, x) ==
  LET t == InvWeights[cs] IN
  CASE i = "y"             -> (t.y * x) \div 256
    [] o = "r" /\ i = "v"  -> (t.crr * x) \div 256
    [] o = "g" /\ i = "v"  -> -((t.crg * x) \div 256)
    [] o = "g" /\ i = "u"  -> -((t.cbg * x) \div 256)
    [] o = "b" /\ i = "u"  -> (t.cbb * x) \div 256
    [] OTHER -> 0

InvConst(cs, o) ==
  LET t == InvWeights[cs] IN
  CASE o = "r" -> -((InvOffset(cs, t.crr) - Half14) \div 256)
    [] o = "g" -> ((t.crg + t.cbg) * CMid - t.y * YMin(cs) + Half14) \div 256
    [] o = "b" -> -((InvOffset(cs, t.cbb) - Half14) \div 256)

\* The sums for all samples
InvTable == TLCEval([cs \in YuvSpaces |-> TLCEval([o \in {"r", "g", "b"} |-> TLCEval(
  [y |-> TLCEval([x \in 0..255 |-> InvTerm(cs, o, "y", x)]),
   u |-> TLCEval([x \in 0..255 |-> InvTerm(cs, o, "u", x)]),
   v |-> TLCEval([x \in 0..255 |-> InvTerm(cs, o, "v", x)]),
   k |-> InvConst(cs, o)])])])

Saturate(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x

\* Before saturation, and after
InvRaw(cs, o, y, u, v) ==
  LET t == InvTable[cs][o] IN (t.y[y] + t.u[u] + t.v[v] + t.k) \div 64
Inv(cs, o, y, u, v) == Saturate(InvRaw(cs, o, y, u, v))
=============================================================================
