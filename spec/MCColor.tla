------------------------------- MODULE MCColor ------------------------------
(***************************************************************************)
(* What the color arithmetic promises, explored over a grid of colors: the *)
(* fixed-point definitions of Color against the real-valued formulas, the  *)
(* ranges, greys, black and white, the way there and back, and the 16-bit  *)
(* evaluation of vector units against the unbounded one.                   *)
(***************************************************************************)
EXTENDS Fidelity

CONSTANTS Spacing,    \* of the grid
          Centre      \* what the inverse subtracts from full-range chroma: 128

VARIABLES way, space, color
vars == <<way, space, color>>

Grid == {x \in 0..255 : x % Spacing = 0} \union {0, 1, 15, 16, 127, 128, 129, 235, 240, 254, 255}

Init ==
  /\ way \in {"there", "back"}
  /\ space \in YuvSpaces
  /\ color \in {<<x>> : x \in Grid}
\* (in two steps, so that TLC's workers share them)
Next == Len(color) = 1 /\ \E x, y \in Grid : color' = <<color[1], x, y>> /\ UNCHANGED <<way, space>>
Spec == Init /\ [][Next]_vars

There0 == Len(color) = 3 /\ way = "there"
Back0 == Len(color) = 3 /\ way = "back"
There(c) == <<Fwd(space, "y", 1, c[1], c[2], c[3]),
              Fwd(space, "u", 1, c[1], c[2], c[3]),
              Fwd(space, "v", 1, c[1], c[2], c[3])>>

\* A deliberate mistake, for what has to notice it
Shifted(x) == IF IsFull(space) THEN Saturate(x + (CMid - Centre)) ELSE x
Back(c) == LET u == Shifted(c[2])
               v == Shifted(c[3])
           IN  <<Inv(space, "r", c[1], u, v), Inv(space, "g", c[1], u, v), Inv(space, "b", c[1], u, v)>>

(***************************************************************************)
(* The weights.                                                            *)
(***************************************************************************)
WeightsOk ==
  \A cs \in YuvSpaces :
    LET f == FwdTable[cs] IN
    /\ f.u.r + f.u.g + f.u.b = 0
    /\ f.v.r + f.v.g + f.v.b = 0
    /\ f.u.b = f.v.r
    /\ \A c \in {"u", "v"} : \A i \in {"r", "g", "b"} : Abs(f[c][i]) <= MaxWeight
    \* luma takes white to white: the weights lose at most a bit each
    /\ Abs((f.y.r + f.y.g + f.y.b) - (F16 * YRange(cs)) \div 255) <= 2
    /\ \A i \in {"r", "g", "b"} : f.y[i] > 0
ASSUME WeightsOk

(***************************************************************************)
(* RGB to YUV.                                                             *)
(***************************************************************************)
InRange ==
  There0 =>
    LET t == There(color) IN
    InLumaRange(space, t[1]) /\ InChromaRange(space, t[2]) /\ InChromaRange(space, t[3])

Grey ==
  There0 =>
    LET t == There(color) IN LumaGrey(space, color, t[1]) /\ ChromaGrey(color, t[2], t[3])

\* more red, green or blue is never darker
Monotone ==
  There0 =>
    \A k \in 1..3 : color[k] < 255 => There([color EXCEPT ![k] = @ + 1])[1] >= There(color)[1]

\* the mean of four equal pixels is the pixel
Mean ==
  There0 =>
    \A c \in {"u", "v"} :
      Fwd(space, c, 4, 4 * color[1], 4 * color[2], 4 * color[3]) = Fwd(space, c, 1, color[1], color[2], color[3])

ThereNear ==
  There0 =>
    LET t == There(color) IN
    LumaNear(space, color, t[1]) /\ ChromaNear(space, 1, color, t[2], t[3])

(***************************************************************************)
(* YUV to RGB.                                                             *)
(***************************************************************************)
BackNear ==
  Back0 =>
    \A o \in {"r", "g", "b"} :
      BackNear20(Inverse20(space, o, color[1], color[2], color[3]),
                 InvRaw(space, o, color[1], color[2], color[3]) * F20, FALSE)

Neutral == Back0 => NeutralStays(color, Back(color))
Bytes == Back0 => \A k \in 1..3 : Back(color)[k] \in 0..255
ThereAndBack == There0 => Survives(space, color, Back(There(color)))

(***************************************************************************)
(* Vector units: products keep the upper 16 bits, sums are taken in 16     *)
(* bits, and only the last one of red and blue saturates.                  *)
(***************************************************************************)
Wrap16(x) == ((x + 32768) % 65536) - 32768
Sat16(x) == IF x < -32768 THEN -32768 ELSE IF x > 32767 THEN 32767 ELSE x
Upper(w, x) == Wrap16((w * x) \div 256)
Vector(o, y, u, v) ==
  LET t == InvWeights[space]
      l == Upper(t.y, y)
      k == InvConst(space, o)
      s == CASE o = "r" -> Wrap16(Upper(t.crr, v) + k)
             [] o = "b" -> Wrap16(Upper(t.cbb, u) + k)
             [] o = "g" -> Wrap16(k - Wrap16(Upper(t.cbg, u) + Upper(t.crg, v)))
      sum == IF o = "b" THEN Sat16(s + l) ELSE Wrap16(s + l)
  IN  Saturate(sum \div 64)
VectorAgrees ==
  Back0 =>
    \A o \in {"r", "g", "b"} :
      Vector(o, color[1], color[2], color[3]) = Inv(space, o, color[1], color[2], color[3])
\* ... and blue needs it: without saturation there are colors that wrap
Unsaturated(y, u) ==
  LET t == InvWeights[space] IN
  Saturate(Wrap16(Wrap16(Upper(t.cbb, u) + InvConst(space, "b")) + Upper(t.y, y)) \div 64)
WrapHarmless == Back0 => Unsaturated(color[1], color[2]) = Inv(space, "b", color[1], color[2], color[3])
=============================================================================
