------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Where the rows of an image are in its buffers.  The arithmetic is a     *)
(* parameter: TLC integers for the small instances that are model checked  *)
(* exhaustively, BigNat for the numbers real callers pass.                 *)
(***************************************************************************)
EXTENDS Formats

CONSTANTS NAdd(_, _), NMul(_, _), NDec(_), NLeq(_, _), NHalf(_), NOdd(_), NLit(_)

Zero == NLit(0)

\* The size of an area, in bytes per row and rows
AreaRow(a, w)  == NMul(NLit(Len(a.chan)), IF a.sx = 1 THEN NHalf(w) ELSE w)
AreaRows(a, h) == IF a.sy = 1 THEN NHalf(h) ELSE h

\* A stride of zero stands for tightly packed rows
Stride(areas, w, s) == IF s = Zero THEN AreaRow(areas[1], w) ELSE s

\* Rows of the first n areas of a plane
RECURSIVE RowsBefore(_, _, _)
RowsBefore(areas, h, n) ==
  IF n = 0 THEN Zero ELSE NAdd(RowsBefore(areas, h, n - 1), AreaRows(areas[n], h))

\* First byte of an area in its plane, and the byte after its last one.
\* Not for images without pixels.
AreaStart(areas, w, h, stride, n) == NMul(stride, RowsBefore(areas, h, n - 1))
AreaEnd(areas, w, h, stride, n) ==
  NAdd(AreaStart(areas, w, h, stride, n),
       NAdd(NMul(stride, NDec(AreaRows(areas[n], h))), AreaRow(areas[n], w)))

(***************************************************************************)
(* A buffer holds a plane if it reaches the last byte of the last row of   *)
(* each of its areas, and areas that share the buffer do not overlap.      *)
(***************************************************************************)
PlaneFits(areas, w, h, s, len) ==
  LET stride == Stride(areas, w, s) IN
  \A n \in 1..Len(areas) :
     NLeq(AreaEnd(areas, w, h, stride, n),
          IF n = Len(areas) THEN len ELSE AreaStart(areas, w, h, stride, n + 1))

\* The shortest buffer that holds the plane, where there is one
PlaneNeeds(areas, w, h, s) == AreaEnd(areas, w, h, Stride(areas, w, s), Len(areas))

\* What the size query reports: all the rows, each as long as the stride
PlaneSize(areas, w, h, s) == NMul(Stride(areas, w, s), RowsBefore(areas, h, Len(areas)))

\* No two rows of the plane share a byte
RowsApart(areas, w, h, s) ==
  \A n \in 1..Len(areas) : NLeq(AreaRow(areas[n], w), Stride(areas, w, s))
=============================================================================
