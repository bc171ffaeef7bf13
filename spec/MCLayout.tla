------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* What the plane arithmetic promises, for every plane of every format,    *)
(* and all small sizes, strides and lengths.  The bytes of an image are    *)
(* spelled out here one by one, and the formulas of Layout are compared    *)
(* with that.                                                              *)
(***************************************************************************)
EXTENDS Pixels

CONSTANTS MaxW, MaxH, MaxStride, Slack,
          Sloppy      \* a deliberate mistake: the last row is not looked at

VARIABLES pf, np, p, w, h, s, len
vars == <<pf, np, p, w, h, s, len>>

A == PlaneTable[pf][np][p]
Fits(l) == IF Sloppy THEN Tiny!PlaneFits(A, w, h - (IF EvenHeight(pf) THEN 2 ELSE 1), s, l) ELSE Tiny!PlaneFits(A, w, h, s, l)
Legal == Tiny!SizeMatches(pf, w, h)
NonEmpty == w > 0 /\ h > 0

Init ==
  /\ pf \in PixelFormats
  /\ np \in PlaneCounts(pf)
  /\ p \in 1..np
  /\ w \in 0..MaxW
  /\ h \in 0..MaxH
  /\ Legal
  /\ s = -1 /\ len = 0
Next ==
  /\ s = -1
  /\ s' \in 0..MaxStride
  /\ len' \in 0..(Tiny!PlaneNeeds(A, w, IF h = 0 THEN 2 ELSE h, s') + Slack)
  /\ UNCHANGED <<pf, np, p, w, h>>
Spec == Init /\ [][Next]_vars

On == s # -1
Stride == Tiny!Stride(A, w, s)

\* The places of area n: <<row, column, offset of the byte>>
Places(n) ==
  {<<j, i, (Tiny!RowsBefore(A, h, n - 1) + j) * Stride + i>> :
     j \in 0..(Tiny!AreaRows(A[n], h) - 1), i \in 0..(Tiny!AreaRow(A[n], w) - 1)}
All == UNION {{<<n>> \o x : x \in Places(n)} : n \in 1..Len(A)}
Offset(x) == x[4]
RangeEnd(n) == LET X == {y[3] : y \in Places(n)} IN CHOOSE x \in X : \A y \in X : y <= x
RangeStart(n) == Tiny!RowsBefore(A, h, n - 1) * Stride

\* A buffer fits exactly if it has all the bytes, and parts that share a
\* buffer have a range each
FitsBytes ==
  On /\ NonEmpty /\ ~Sloppy =>
    Fits(len) = /\ \A x \in All : Offset(x) < len
                /\ \A n \in 1..(Len(A) - 1) : RangeEnd(n) < RangeStart(n + 1)

\* C02: what fits holds every byte that the image consists of
FitsHolds == On /\ NonEmpty /\ Fits(len) => \A x \in All : Offset(x) >= 0 /\ Offset(x) < len

\* the boundary is sharp, and longer buffers are no worse
Sharp ==
  On /\ NonEmpty =>
    LET need == Tiny!PlaneNeeds(A, w, h, s) IN
    /\ Fits(len) => len >= need
    /\ Fits(len) => Fits(len + 1)
    /\ Fits(need) => ~Fits(need - 1)
    /\ Stride >= Tiny!AreaRow(A[1], w) => Fits(need)

\* C10: a buffer of the queried size fits, with the strides of the query
Suffices ==
  On /\ NonEmpty /\ (s = 0 \/ s >= Tiny!AreaRow(A[1], w)) => Fits(Tiny!PlaneSize(A, w, h, s))

\* C09: rows times stride; without a stride, exactly the bytes of the image
SizeExact ==
  On =>
    /\ Tiny!PlaneSize(A, w, h, s) = Stride * Tiny!RowsBefore(A, h, Len(A))
    /\ s = 0 => Tiny!PlaneSize(A, w, h, s) = Cardinality(All)

\* rows that are apart have no byte in common, and the other way around
Injective ==
  On /\ NonEmpty =>
    LET apart == Cardinality({Offset(x) : x \in All}) = Cardinality(All) IN
    /\ Tiny!RowsApart(A, w, h, s) => apart
    /\ ~Tiny!RowsApart(A, w, h, s) /\ Tiny!RowsBefore(A, h, Len(A)) > 1 => ~apart

\* a stride of zero is the packed row
ZeroIsPacked ==
  On /\ NonEmpty /\ s = 0 =>
    Fits(len) = Tiny!PlaneFits(A, w, h, Tiny!AreaRow(A[1], w), len)

\* all areas of a plane have the same row length: one stride makes sense
OneRowLength == \A n \in 1..Len(A) : Tiny!AreaRow(A[n], w) = Tiny!AreaRow(A[1], w)

\* the arithmetic of any size agrees
Agrees ==
  On =>
    /\ NonEmpty => Full!PlaneFits(A, Big(w), Big(h), Big(s), Big(len)) = Tiny!PlaneFits(A, w, h, s, len)
    /\ Full!PlaneSize(A, Big(w), Big(h), Big(s)) = Big(Tiny!PlaneSize(A, w, h, s))

\* one NV12 buffer is the two of them, one after the other
OneOrTwo ==
  On /\ pf = Nv12 /\ np = 1 /\ NonEmpty =>
    LET T == PlaneTable[Nv12][2] IN
    /\ Tiny!PlaneSize(A, w, h, s) = Tiny!PlaneSize(T[1], w, h, s) + Tiny!PlaneSize(T[2], w, h, s)
    /\ Stride >= w => Tiny!PlaneNeeds(A, w, h, s) = Tiny!PlaneSize(T[1], w, h, s) + Tiny!PlaneNeeds(T[2], w, h, s)
=============================================================================
