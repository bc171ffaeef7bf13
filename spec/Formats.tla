------------------------------- MODULE Formats ------------------------------
(***************************************************************************)
(* What the library publishes about images: pixel formats, color spaces,   *)
(* how each format splits into areas of interleaved channels, in how many  *)
(* planes it can be stored, and which conversions exist.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Pixel formats and color spaces are numbered as in the C header
Argb == 0    Bgra == 1    Bgr == 2    Rgba == 3    Rgb == 4
I444 == 5    I422 == 6    I420 == 7   Nv12 == 8
PixelFormats == Argb..Nv12
PfName == <<"argb", "bgra", "bgr", "rgba", "rgb", "i444", "i422", "i420", "nv12">>

CsRgb == 0   Bt601 == 1   Bt709 == 2   Bt601FR == 3   Bt709FR == 4
ColorSpaces == CsRgb..Bt709FR
YuvSpaces == Bt601..Bt709FR
CsName == <<"rgb", "bt601", "bt709", "bt601fr", "bt709fr">>

IsRgbFormat(pf) == pf \in {Argb, Bgra, Bgr, Rgba, Rgb}
IsRgbSpace(cs)  == cs = CsRgb

(***************************************************************************)
(* An area is a rectangle of samples: chan lists the channels interleaved  *)
(* in it, in byte order; sx, sy are the binary logarithms of the horizontal*)
(* and vertical subsampling.                                               *)
(***************************************************************************)
Area(chan, sx, sy) == [chan |-> chan, sx |-> sx, sy |-> sy]

AreasTable == <<
  <<Area(<<"a", "r", "g", "b">>, 0, 0)>>,
  <<Area(<<"b", "g", "r", "a">>, 0, 0)>>,
  <<Area(<<"b", "g", "r">>, 0, 0)>>,
  <<Area(<<"r", "g", "b", "a">>, 0, 0)>>,
  <<Area(<<"r", "g", "b">>, 0, 0)>>,
  <<Area(<<"y">>, 0, 0), Area(<<"u">>, 0, 0), Area(<<"v">>, 0, 0)>>,
  <<Area(<<"y">>, 0, 0), Area(<<"u">>, 1, 0), Area(<<"v">>, 1, 0)>>,
  <<Area(<<"y">>, 0, 0), Area(<<"u">>, 1, 1), Area(<<"v">>, 1, 1)>>,
  <<Area(<<"y">>, 0, 0), Area(<<"u", "v">>, 1, 1)>> >>

Areas(pf) == AreasTable[pf + 1]

\* The numbers of planes an image of the format can be stored in
PlaneCounts(pf) == {Len(Areas(pf))} \union (IF pf = Nv12 THEN {1} ELSE {})

\* For each plane, the areas it holds one below the other.  There is either
\* one plane per area, or one plane for all of them.
PlaneAreas(pf, np) ==
  IF np = Len(Areas(pf))
  THEN [p \in 1..np |-> <<Areas(pf)[p]>>]
  ELSE <<Areas(pf)>>

\* Subsampled formats do not describe images of odd size
EvenWidth(pf)  == \E i \in 1..Len(Areas(pf)) : Areas(pf)[i].sx = 1
EvenHeight(pf) == \E i \in 1..Len(Areas(pf)) : Areas(pf)[i].sy = 1

\* The published table of conversions
Conversions ==
  {<<s, d>> : s \in {Argb, Bgr, Bgra}, d \in {I420, I444, Nv12}}
  \union {<<Bgr, Rgb>>, <<Bgra, Rgb>>, <<Rgb, Bgra>>}
  \union {<<s, d>> : s \in {I420, I444}, d \in {Bgra, Rgba}}
  \union {<<Nv12, d>> : d \in {Bgra, Rgb, Rgba}}

\* Sanity of the tables themselves
FormatsOk ==
  /\ Len(AreasTable) = Cardinality(PixelFormats)
  /\ Len(PfName) = Cardinality(PixelFormats)
  /\ Len(CsName) = Cardinality(ColorSpaces)
  /\ \A pf \in PixelFormats :
       LET chans == [i \in 1..Len(Areas(pf)) |->
                      {Areas(pf)[i].chan[k] : k \in 1..Len(Areas(pf)[i].chan)}]
           all == UNION {chans[i] : i \in 1..Len(Areas(pf))}
       IN  /\ (IF IsRgbFormat(pf) THEN {"r", "g", "b"} ELSE {"y", "u", "v"}) \subseteq all
           /\ \A i, j \in 1..Len(Areas(pf)) : i # j => chans[i] \intersect chans[j] = {}
  /\ Cardinality(Conversions) = 19
=============================================================================
