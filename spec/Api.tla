--------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The outcome of every call of the library, as a function of its          *)
(* arguments.                                                              *)
(*                                                                         *)
(* An image description is [pf, cs, np], with np a number.  One side of a  *)
(* conversion is a description plus                                        *)
(*   strides  the list of strides, where given says there is one,          *)
(*   lens     the lengths of its buffers.                                  *)
(***************************************************************************)
EXTENDS Layout

CONSTANTS NMaxWord

Ok == "ok"
InvalidValue == "invalid_value"
InvalidOperation == "invalid_operation"
NotEnoughData == "not_enough_data"
Outcomes == {Ok, InvalidValue, InvalidOperation, NotEnoughData}

\* The format can be stored in np planes
PlanesMatch(pf, np) == \E k \in PlaneCounts(pf) : np = NLit(k)
PlaneCount(pf, np) == CHOOSE k \in PlaneCounts(pf) : np = NLit(k)

SizeMatches(pf, w, h) == /\ EvenWidth(pf)  => ~NOdd(w)
                         /\ EvenHeight(pf) => ~NOdd(h)

SpaceMatches(pf, cs) == IsRgbFormat(pf) = IsRgbSpace(cs)

Describes(d, w, h) ==
  /\ SpaceMatches(d.pf, d.cs)
  /\ PlanesMatch(d.pf, d.np)
  /\ SizeMatches(d.pf, w, h)

StrideOf(d, p) == IF d.given THEN d.strides[p] ELSE Zero

\* The lists of one side have an entry for each plane, and the buffers hold
\* the planes
EnoughData(d, w, h) ==
  LET n  == PlaneCount(d.pf, d.np)
      pa == PlaneAreas(d.pf, n)
  IN  /\ d.given => Len(d.strides) >= n
      /\ Len(d.lens) >= n
      /\ \A p \in 1..n : PlaneFits(pa[p], w, h, StrideOf(d, p), d.lens[p])

\* Arguments that are written as [w, h, src, dst]
ConvertOutcome(r) ==
  IF ~Describes(r.src, r.w, r.h) \/ ~Describes(r.dst, r.w, r.h) THEN InvalidValue
  ELSE IF <<r.src.pf, r.dst.pf>> \notin Conversions THEN InvalidOperation
  ELSE IF r.w = Zero \/ r.h = Zero THEN Ok
  ELSE IF ~EnoughData(r.src, r.w, r.h) \/ ~EnoughData(r.dst, r.w, r.h) THEN NotEnoughData
  ELSE Ok

\* The rows of all destination planes are apart: only then the bytes written
\* do not depend on the order rows are computed in
DestinationApart(r) ==
  LET n  == PlaneCount(r.dst.pf, r.dst.np)
      pa == PlaneAreas(r.dst.pf, n)
  IN  \A p \in 1..n : RowsApart(pa[p], r.w, r.h, StrideOf(r.dst, p))

(***************************************************************************)
(* The size query: [w, h, pf, np, given, strides, slots], where slots is   *)
(* the number of entries of the array for the result.  The color space has *)
(* no influence.                                                           *)
(***************************************************************************)
SizesOf(q) ==
  LET n  == PlaneCount(q.pf, q.np)
      pa == PlaneAreas(q.pf, n)
  IN  [p \in 1..n |-> PlaneSize(pa[p], q.w, q.h, StrideOf(q, p))]

SizesOutcome(q) ==
  IF ~PlanesMatch(q.pf, q.np) \/ ~SizeMatches(q.pf, q.w, q.h) THEN InvalidValue
  ELSE LET n == PlaneCount(q.pf, q.np) IN
    IF (q.given /\ Len(q.strides) < n) \/ q.slots < n THEN NotEnoughData
    ELSE IF \E p \in 1..n : ~NLeq(SizesOf(q)[p], NMaxWord) THEN InvalidValue
    ELSE Ok

(***************************************************************************)
(* The C interface.  Enumerations are plain numbers, and arrays are        *)
(* pointers: nulls lists the null ones among                               *)
(*   "format", "sizes"                                    (size query)     *)
(*   "src_format", "dst_format", "src_buffers", "dst_buffers" (conversion) *)
(* nullPlanes are the null pointers among the planes.  The lengths of the  *)
(* arrays are unknown to the library, which trusts the caller for them.    *)
(***************************************************************************)
KnownFormat(pf) == pf \in PixelFormats
KnownSpace(cs)  == cs \in ColorSpaces

CSideRefused(d) ==
  \/ ~KnownFormat(d.pf)
  \/ ~KnownSpace(d.cs)
  \/ ~PlanesMatch(d.pf, d.np)
  \/ \E p \in 1..PlaneCount(d.pf, d.np) : p \in d.nullPlanes

CConvertOutcome(r) ==
  IF r.nulls # {} THEN InvalidValue
  ELSE IF CSideRefused(r.src) \/ CSideRefused(r.dst) THEN InvalidValue
  ELSE ConvertOutcome(r)

CSizesOutcome(q) ==
  IF q.nulls # {} THEN InvalidValue
  ELSE IF ~KnownFormat(q.pf) THEN InvalidValue
  ELSE SizesOutcome(q)
=============================================================================
