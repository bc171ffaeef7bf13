------------------------------ MODULE MCConvert -----------------------------
(***************************************************************************)
(* What conversions of whole images promise, for every published           *)
(* conversion and small images: the frame (C03), that the layout (C16),    *)
(* alpha (C04, C07) and pixels elsewhere (C05) have no influence, and the  *)
(* way RGB goes there and back (C07).                                      *)
(***************************************************************************)
EXTENDS Pixels

CONSTANTS Seeds,       \* of image contents
          Pads,        \* bytes between rows
          Sizes,       \* of images
          Careless     \* a deliberate mistake: chroma rows use the luma stride

Sizes1 == {<<2, 2>>, <<3, 1>>}
Sizes2 == {<<2, 2>>, <<3, 1>>, <<4, 2>>, <<4, 4>>, <<1, 3>>}
Sizes3 == {<<4, 4>>}

VARIABLES conv, size, seed, pads, img, out
vars == <<conv, size, seed, pads, img, out>>

Spaces(s, d) ==
  IF IsRgbFormat(s) /\ IsRgbFormat(d) THEN {<<CsRgb, CsRgb>>}
  ELSE IF IsRgbFormat(s) THEN {<<CsRgb, c>> : c \in YuvSpaces}
  ELSE {<<c, CsRgb>> : c \in YuvSpaces}

AllConversions ==
  UNION {{[spf |-> x[1], scs |-> cs[1], snp |-> n, dpf |-> x[2], dcs |-> cs[2], dnp |-> m] :
            cs \in Spaces(x[1], x[2]), n \in PlaneCounts(x[1]), m \in PlaneCounts(x[2])} :
         x \in Conversions}

W == size[1]
H == size[2]
Byte(n, k) == (seed * 89 + n * 61 + k * 151 + (k * k * 7) \div 3) % 256
Dirt == 77

\* An image with the given pad after each row, and whether strides are given
Layout(pf, np, pad) ==
  LET pa == PlaneTable[pf][np] IN
  [p \in 1..np |-> Tiny!AreaRow(pa[p][1], W) + pad]
Blank(pf, cs, np, pad, extra) ==
  LET st == Layout(pf, np, pad) IN
  [pf |-> pf, cs |-> cs, np |-> np, strides |-> st,
   bufs |-> [p \in 1..np |-> [k \in 1..(Tiny!PlaneNeeds(PlaneTable[pf][np][p], W, H, st[p]) + extra) |-> Dirt]]]
\* ... whose samples are sample(channel, i, j)
Painted(b, sample(_, _, _)) ==
  [b EXCEPT !.bufs = [p \in 1..b.np |-> [k \in 1..Len(b.bufs[p]) |->
     LET at == ByteRole(b, W, H, p, k - 1) IN
     IF at.c = "" THEN Dirt ELSE sample(at.c, at.i, at.j)]]]
ChanNo(c) == CASE c = "r" -> 1 [] c = "g" -> 2 [] c = "b" -> 3 [] c = "a" -> 4
               [] c = "y" -> 5 [] c = "u" -> 6 [] c = "v" -> 7
Content(c, i, j) == Byte(ChanNo(c), i + 5 * j)

Source(pad) == Painted(Blank(conv.spf, conv.scs, conv.snp, pad, pad), Content)
Dest(pad) == Blank(conv.dpf, conv.dcs, conv.dnp, pad, pad)
Convert(s, d) == [d EXCEPT !.bufs = [p \in 1..d.np |-> ConvertedPlane(s, d, W, H, p)]]

\* All samples of an image, by channel and position
SamplesOf(b) ==
  [x \in UNION {{<<p, k>> : k \in {k \in 1..Len(b.bufs[p]) : ByteRole(b, W, H, p, k - 1).c # ""}} : p \in 1..b.np} |-> b.bufs[x[1]][x[2]]]
ByRole(b) ==
  LET R == UNION {{LET at == ByteRole(b, W, H, p, k - 1) IN <<at.c, at.i, at.j, b.bufs[p][k]>> :
                     k \in 1..Len(b.bufs[p])} : p \in 1..b.np}
  IN  {x \in R : x[1] # ""}

Init ==
  /\ conv \in AllConversions
  /\ size \in {z \in Sizes : Tiny!SizeMatches(conv.spf, z[1], z[2]) /\ Tiny!SizeMatches(conv.dpf, z[1], z[2])}
  /\ seed = 0 /\ pads = <<>> /\ img = <<>> /\ out = <<>>
Choose ==
  /\ pads = <<>>
  /\ seed' \in Seeds
  /\ pads' \in Pads \X Pads
  /\ UNCHANGED <<conv, size, img, out>>
Paint ==
  /\ pads # <<>> /\ img = <<>>
  /\ img' = TLCEval(Source(pads[1]))
  /\ UNCHANGED <<conv, size, seed, pads, out>>
Make ==
  /\ img # <<>> /\ out = <<>>
  /\ out' = TLCEval(Convert(img, Dest(pads[2])))
  /\ UNCHANGED <<conv, size, seed, pads, img>>
Next == Choose \/ Paint \/ Make
Spec == Init /\ [][Next]_vars
On == out # <<>>

(***************************************************************************)
(* The promises.                                                           *)
(***************************************************************************)
\* outside the image, nothing; inside, everything
Frame ==
  On => \A p \in 1..out.np : \A k \in 1..Len(out.bufs[p]) :
    /\ out.bufs[p][k] \in 0..255
    /\ ~InImage(out, W, H, p, k - 1) => out.bufs[p][k] = Dirt
Overwrites ==
  On => LET other == [Dest(pads[2]) EXCEPT !.bufs = [p \in 1..conv.dnp |-> [k \in 1..Len(out.bufs[p]) |-> 255 - Dirt]]]
        IN  ByRole(Convert(img, other)) = ByRole(out)

\* the layout
Lay(s) == IF Careless /\ pads[1] > 0
          THEN [s EXCEPT !.strides = [p \in 1..s.np |-> IF p > 1 THEN s.strides[1] ELSE @[p]]] ELSE s
LayoutFree == On /\ ~Careless => ByRole(Convert(Source(0), Dest(0))) = ByRole(out)
OneOrTwo ==
  On /\ Nv12 \in {conv.spf, conv.dpf} =>
    LET s2 == Painted(Blank(conv.spf, conv.scs, Len(Areas(conv.spf)), 0, 0), Content)
        d2 == Blank(conv.dpf, conv.dcs, Len(Areas(conv.dpf)), 0, 0)
    IN  ByRole(Convert(s2, d2)) = ByRole(out)

\* alpha: none of the source matters, that of the destination is opaque
Alpha ==
  On =>
    /\ \A x \in ByRole(out) : x[1] = "a" => x[4] = Opaque
    /\ LET Other(c, i, j) == IF c = "a" THEN 255 - Content(c, i, j) ELSE Content(c, i, j)
       IN  ByRole(Convert(Painted(img, Other), Dest(pads[2]))) = ByRole(out)

\* a sample depends on the pixels it covers, and on no others
Covers(x, c, d) ==
  LET w == Where[d.pf][d.np][x[1]] IN \* x = <<channel, i, j, value>>
  /\ (c[1] \div (IF w.sx = 1 THEN 2 ELSE 1)) = x[2]
  /\ (c[2] \div (IF w.sy = 1 THEN 2 ELSE 1)) = x[3]
Local ==
  On =>
    LET changed == <<W - 1, H - 1>>       \* the last pixel, with all that it shares samples with
        sw(c) == Where[conv.spf][conv.snp][c]
        Other(c, i, j) == IF i = changed[1] \div (IF sw(c).sx = 1 THEN 2 ELSE 1)
                             /\ j = changed[2] \div (IF sw(c).sy = 1 THEN 2 ELSE 1)
                          THEN (Content(c, i, j) + 101) % 256 ELSE Content(c, i, j)
        new == ByRole(Convert(Painted(img, Other), Dest(pads[2])))
        near == {<<xx, yy>> \in (0..(W - 1)) \X (0..(H - 1)) :
                   \/ xx \div 2 = changed[1] \div 2 /\ yy \div 2 = changed[2] \div 2}
        same == {x \in ByRole(out) : \A c \in near : ~Covers(x, c, out)}
    IN  same \subseteq new

\* the same at every position: a picture of one color has one color
Uniform ==
  On =>
    LET Flat(c, i, j) == Content(c, 0, 0)
        new == ByRole(Convert(Painted(img, Flat), Dest(pads[2])))
    IN  \A x, y \in new : x[1] = y[1] => x[4] = y[4]

\* there and back
BackConv == <<conv.dpf, conv.spf>>
ThereAndBack ==
  On /\ <<conv.spf, conv.dpf>> \in {<<Rgb, Bgra>>, <<Bgra, Rgb>>} =>
    LET d  == Blank(conv.spf, conv.scs, conv.snp, 0, 0)
        r  == ByRole([d EXCEPT !.bufs = [p \in 1..d.np |-> ConvertedPlane(out, d, W, H, p)]])
        was == ByRole(img)
    IN  \A x \in was : x[1] # "a" => x \in r

\* (a mistake that Uniform, for one, does not see but LayoutFree does)
CarelessSeen == On /\ Careless => ByRole(Convert(Lay(img), Dest(pads[2]))) = ByRole(out)
=============================================================================
