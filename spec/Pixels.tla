------------------------------- MODULE Pixels -------------------------------
(***************************************************************************)
(* The bytes a successful conversion leaves in its destination.  Images    *)
(* are small here, so the arithmetic is that of TLC.                       *)
(*                                                                         *)
(* A placed image is [pf, cs, np, strides, bufs]: strides has the actual   *)
(* stride of each plane (never 0), bufs the bytes of each buffer.          *)
(***************************************************************************)
EXTENDS Color

IAdd(a, b) == a + b
IMul(a, b) == a * b
IDec(a) == a - 1
ILeq(a, b) == a <= b
IHalf(a) == a \div 2
IOdd(a) == a % 2 = 1
ILit(n) == n

\* The formats and outcomes in TLC's arithmetic (for small numbers only)
Tiny == INSTANCE Api WITH NAdd <- IAdd, NMul <- IMul, NDec <- IDec, NLeq <- ILeq,
                         NHalf <- IHalf, NOdd <- IOdd, NLit <- ILit,
                         NMaxWord <- 2147483647

\* ... and for all numbers
BDec(a) == BigSub(a, <<1>>)
Full == INSTANCE Api WITH NAdd <- BigAdd, NMul <- BigMul, NDec <- BDec, NLeq <- BigLeq,
                           NHalf <- BigHalf, NOdd <- BigOdd, NLit <- Big,
                           NMaxWord <- MaxWord

(***************************************************************************)
(* Where a channel is: plane, areas above it in the plane, offset in the   *)
(* group of interleaved channels and size of the group, subsampling.       *)
(***************************************************************************)
WhereIs(pf, np, c) ==
  LET pa == PlaneAreas(pf, np)
      pos == CHOOSE x \in {<<p, n>> : p \in 1..Len(pa), n \in 1..3} :
               x[2] <= Len(pa[x[1]]) /\ \E k \in 1..Len(pa[x[1]][x[2]].chan) :
                                            pa[x[1]][x[2]].chan[k] = c
      a == pa[pos[1]][pos[2]]
  IN  [p |-> pos[1], n |-> pos[2],
       off |-> CHOOSE k \in 0..(Len(a.chan) - 1) : a.chan[k + 1] = c,
       step |-> Len(a.chan), sx |-> a.sx, sy |-> a.sy]

ChannelsOf(pf) == UNION {{Areas(pf)[i].chan[k] : k \in 1..Len(Areas(pf)[i].chan)} :
                         i \in 1..Len(Areas(pf))}

Where == TLCEval([pf \in PixelFormats |-> TLCEval([np \in PlaneCounts(pf) |->
           TLCEval([c \in ChannelsOf(pf) |-> TLCEval(WhereIs(pf, np, c))])])])

PlaneTable == TLCEval([pf \in PixelFormats |-> TLCEval([np \in PlaneCounts(pf) |->
                 TLCEval(PlaneAreas(pf, np))])])

\* The sample of channel c that covers pixel (x, y) of an image of height h
Sample(img, h, c, x, y) ==
  LET w   == Where[img.pf][img.np][c]
      row == Tiny!RowsBefore(PlaneTable[img.pf][img.np][w.p], h, w.n - 1)
             + (IF w.sy = 1 THEN y \div 2 ELSE y)
      col == (IF w.sx = 1 THEN x \div 2 ELSE x) * w.step + w.off
  IN  img.bufs[w.p][img.strides[w.p] * row + col + 1]

\* Channel c, at column i and row j of a destination area with subsampling sx, sy
Converted(src, h, cs, c, sx, sy, i, j) ==
  IF IsRgbFormat(src.pf) /\ ~IsRgbSpace(cs)
  THEN LET x0 == IF sx = 1 THEN 2 * i ELSE i
           y0 == IF sy = 1 THEN 2 * j ELSE j
           n  == (IF sx = 1 THEN 2 ELSE 1) * (IF sy = 1 THEN 2 ELSE 1)
           Sum(k) == Sample(src, h, k, x0, y0)
                     + (IF sx = 1 THEN Sample(src, h, k, x0 + 1, y0) ELSE 0)
                     + (IF sy = 1 THEN Sample(src, h, k, x0, y0 + 1) ELSE 0)
                     + (IF sx = 1 /\ sy = 1 THEN Sample(src, h, k, x0 + 1, y0 + 1) ELSE 0)
       IN  Fwd(cs, c, n, Sum("r"), Sum("g"), Sum("b"))
  ELSE IF c = "a" THEN Opaque
  ELSE IF IsRgbFormat(src.pf) THEN Sample(src, h, c, i, j)
  ELSE Inv(src.cs, c, Sample(src, h, "y", i, j), Sample(src, h, "u", i, j),
           Sample(src, h, "v", i, j))

\* What byte o (from 0) of a plane of the image is: a channel and its
\* position, or nothing
NoSample == [c |-> "", sx |-> 0, sy |-> 0, i |-> 0, j |-> 0]
RECURSIVE Locate(_, _, _, _, _)
Locate(areas, n, w, row, col) ==
  IF n > Len(areas[1]) THEN NoSample
  ELSE LET a    == areas[1][n]
           rows == Tiny!AreaRows(a, areas[2])
           step == Len(a.chan)
       IN  IF row >= rows THEN Locate(areas, n + 1, w, row - rows, col)
           ELSE IF col >= Tiny!AreaRow(a, w) THEN NoSample
           ELSE [c |-> a.chan[(col % step) + 1], sx |-> a.sx, sy |-> a.sy,
                 i |-> col \div step, j |-> row]

ByteRole(dst, w, h, p, o) ==
  Locate(<<PlaneTable[dst.pf][dst.np][p], h>>, 1, w,
         o \div dst.strides[p], o % dst.strides[p])

InImage(dst, w, h, p, o) == ByteRole(dst, w, h, p, o).c # ""

\* Plane p of the destination after the conversion, if its rows are apart
ConvertedPlane(src, dst, w, h, p) ==
  TLCEval([k \in 1..Len(dst.bufs[p]) |->
    LET at == ByteRole(dst, w, h, p, k - 1) IN
    IF at.c = "" THEN dst.bufs[p][k]
    ELSE Converted(src, h, dst.cs, at.c, at.sx, at.sy, at.i, at.j)])
=============================================================================
