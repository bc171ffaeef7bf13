------------------------------ MODULE Fidelity ------------------------------
(***************************************************************************)
(* What is promised about colors, whatever the arithmetic is: the real     *)
(* formulas of BT.601 and BT.709, in exact fractions, and what must be so  *)
(* of particular colors.  c is the color that was given, t what came of    *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Color

Abs(x) == IF x < 0 THEN -x ELSE x

\* within a unit of the formula, in units of 1/den
Near(got, num, den) == Abs(got * den - num) <= den

\* RGB to YUV: luma
LumaNear(cs, c, y) ==
  LET D == LumaUnit(cs)
      dy == D * 255
  IN  Near(y, YMin(cs) * dy + YRange(cs) * (Kr(cs) * c[1] + Kg(cs) * c[2] + Kb(cs) * c[3]), dy)

\* chroma of n pixels whose colors add up to c
ChromaNear(cs, n, c, u, v) ==
  LET D == LumaUnit(cs)
      r == c[1]
      g == c[2]
      b == c[3]
      du == 2 * (D - Kb(cs)) * 255
      dv == 2 * (D - Kr(cs)) * 255
      C == CRange(cs)
  \* (divided early, as numbers must stay small: less than 255 of 4 millions are lost)
  IN  /\ Near(u, CMid * du + C * (((D - Kb(cs)) * b - Kr(cs) * r - Kg(cs) * g) \div n), du)
      /\ Near(v, CMid * dv + C * (((D - Kr(cs)) * r - Kg(cs) * g - Kb(cs) * b) \div n), dv)

InLumaRange(cs, y) == y >= YMin(cs) /\ y <= YMin(cs) + YRange(cs)
InChromaRange(cs, x) == IF IsFull(cs) THEN x \in 0..255 ELSE x \in 16..240

IsGrey(c) == c[1] = c[2] /\ c[2] = c[3]
LumaGrey(cs, c, y) ==
  /\ (IsGrey(c) /\ c[1] = 0) => y = YMin(cs)
  /\ (IsGrey(c) /\ c[1] = 255) => y = YMin(cs) + YRange(cs)
ChromaGrey(c, u, v) == IsGrey(c) => u = CMid /\ v = CMid

\* YUV to RGB: the real formula in units of 2^-20
F20 == 1048576
Real20 == TLCEval([cs \in YuvSpaces |-> TLCEval(
  [y |-> Weight(<<F20, 255>>, <<YRange(cs)>>),
   rv |-> Weight(<<F20, 2, LumaUnit(cs) - Kr(cs), 255>>, <<LumaUnit(cs), CRange(cs)>>),
   bu |-> Weight(<<F20, 2, LumaUnit(cs) - Kb(cs), 255>>, <<LumaUnit(cs), CRange(cs)>>),
   gv |-> Weight(<<F20, 2, LumaUnit(cs) - Kr(cs), Kr(cs), 255>>, <<LumaUnit(cs), Kg(cs), CRange(cs)>>),
   gu |-> Weight(<<F20, 2, LumaUnit(cs) - Kb(cs), Kb(cs), 255>>, <<LumaUnit(cs), Kg(cs), CRange(cs)>>)])])
Inverse20(cs, o, y, u, v) ==
  LET t == Real20[cs]
      l == t.y * (y - YMin(cs))
  IN  CASE o = "r" -> l + t.rv * (v - CMid)
        [] o = "g" -> l - t.gv * (v - CMid) - t.gu * (u - CMid)
        [] o = "b" -> l + t.bu * (u - CMid)

\* (the weights above are off by half a unit of 2^-20 each, times 512 at most)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
BackNear20(real, got20, saturated) ==
  Abs(got20 - IF saturated THEN Clamp(real, 0, 255 * F20) ELSE real) <= F20 + 512

Channels == <<"r", "g", "b">>
RgbNear(cs, c, t) ==
  \A k \in 1..3 : BackNear20(Inverse20(cs, Channels[k], c[1], c[2], c[3]), t[k] * F20, TRUE)

NeutralStays(c, t) == (c[2] = CMid /\ c[3] = CMid) => IsGrey(t)

RoundTrip(cs) == IF IsFull(cs) THEN 1 ELSE 2
Survives(cs, c, t) == \A k \in 1..3 : Abs(t[k] - c[k]) <= RoundTrip(cs)
=============================================================================
