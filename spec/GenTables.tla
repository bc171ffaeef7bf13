------------------------------ MODULE GenTables -----------------------------
(***************************************************************************)
(* Writes what the conformance harness interprets: the formats, the        *)
(* published conversions with the recipe of each destination channel, and  *)
(* the tables of the color transforms.  The harness has no knowledge of    *)
(* its own about formats or colors.                                        *)
(***************************************************************************)
EXTENDS Pixels, Cpu, SequencesExt, Json, IOUtils

Spaces(s, d) ==
  IF IsRgbFormat(s) /\ IsRgbFormat(d) THEN {<<CsRgb, CsRgb>>}
  ELSE IF IsRgbFormat(s) THEN {<<CsRgb, c>> : c \in YuvSpaces}
  ELSE {<<c, CsRgb>> : c \in YuvSpaces}

AllConversions ==
  UNION {{<<x[1], cs[1], n, x[2], cs[2], m>> :
            cs \in Spaces(x[1], x[2]), n \in PlaneCounts(x[1]), m \in PlaneCounts(x[2])} :
         x \in Conversions}

LutName(cs, o, i) == CsName[cs + 1] \o "." \o o \o "." \o i

Inputs(s) == IF IsRgbFormat(s) THEN <<"r", "g", "b">> ELSE <<"y", "u", "v">>

\* How channel c of an area of the destination is computed
Recipe(s, scs, d, dcs, a, c) ==
  LET n == (IF a.sx = 1 THEN 2 ELSE 1) * (IF a.sy = 1 THEN 2 ELSE 1) IN
  IF IsRgbFormat(s) /\ ~IsRgbFormat(d)
  THEN [chan |-> c, kind |-> "sum", from |-> Inputs(s),
        tables |-> [k \in 1..3 |-> LutName(dcs, c, Inputs(s)[k])],
        k |-> FwdOffset(dcs, c, n), div |-> FwdShift(n), value |-> 0]
  ELSE IF c = "a"
  THEN [chan |-> c, kind |-> "const", from |-> <<>>, tables |-> <<>>, k |-> 0, div |-> 1,
        value |-> Opaque]
  ELSE IF IsRgbFormat(s)
  THEN [chan |-> c, kind |-> "copy", from |-> <<c>>, tables |-> <<>>, k |-> 0, div |-> 1,
        value |-> 0]
  ELSE [chan |-> c, kind |-> "sum", from |-> Inputs(s),
        tables |-> [k \in 1..3 |-> LutName(scs, c, Inputs(s)[k])],
        k |-> InvConst(scs, c), div |-> 64, value |-> 0]

Group(s, d) == IF ~IsRgbFormat(s) THEN "yuv2rgb" ELSE IF IsRgbFormat(d) THEN "rgb2rgb" ELSE "rgb2yuv"

ConversionRecord(x) ==
  [src |-> [pf |-> x[1], cs |-> x[2], np |-> x[3], planes |-> PlaneAreas(x[1], x[3])],
   dst |-> [pf |-> x[4], cs |-> x[5], np |-> x[6], planes |-> PlaneAreas(x[4], x[6])],
   group |-> Group(x[1], x[4]),
   even_w |-> EvenWidth(x[1]) \/ EvenWidth(x[4]),
   even_h |-> EvenHeight(x[1]) \/ EvenHeight(x[4]),
   recipes |-> FlattenSeq([i \in 1..Len(Areas(x[4])) |->
                 [k \in 1..Len(Areas(x[4])[i].chan) |->
                    Recipe(x[1], x[2], x[4], x[5], Areas(x[4])[i], Areas(x[4])[i].chan[k])]])]

Less(a, b) == \E i \in 1..6 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

FwdLut(cs, o, i) == [x \in 1..256 |-> FwdTable[cs][o][i] * (x - 1)]
InvLut(cs, o, i) == [x \in 1..256 |-> InvTerm(cs, o, i, x - 1)]

Luts ==
  {[name |-> LutName(cs, o, i), values |-> FwdLut(cs, o, i)] :
     cs \in YuvSpaces, o \in {"y", "u", "v"}, i \in {"r", "g", "b"}}
  \union
  {[name |-> LutName(cs, o, i), values |-> InvLut(cs, o, i)] :
     cs \in YuvSpaces, o \in {"r", "g", "b"}, i \in {"y", "u", "v"}}

(***************************************************************************)
(* The real-valued formulas: sums of terms  num/den * (x - off), plus a    *)
(* base; num and den are lists of factors.                                 *)
(***************************************************************************)
Term(i, num, den, off) == [in |-> i, num |-> num, den |-> den, off |-> off]
RealFwd(cs, c) ==
  LET D == LumaUnit(cs) IN
  IF c = "y"
  THEN [base |-> YMin(cs),
        terms |-> <<Term("r", <<Kr(cs), YRange(cs)>>, <<D, 255>>, 0),
                    Term("g", <<Kg(cs), YRange(cs)>>, <<D, 255>>, 0),
                    Term("b", <<Kb(cs), YRange(cs)>>, <<D, 255>>, 0)>>]
  ELSE LET K == IF c = "u" THEN Kb(cs) ELSE Kr(cs)
           Part(i, k) == IF (c = "u" /\ i = "b") \/ (c = "v" /\ i = "r")
                         THEN Term(i, <<CRange(cs)>>, <<2, 255>>, 0)
                         ELSE Term(i, <<-1, k, CRange(cs)>>, <<2, D - K, 255>>, 0)
       IN  [base |-> CMid,
            terms |-> <<Part("r", Kr(cs)), Part("g", Kg(cs)), Part("b", Kb(cs))>>]
RealInv(cs, c) ==
  LET D == LumaUnit(cs)
      Y == Term("y", <<255>>, <<YRange(cs)>>, YMin(cs))
      V(num, den) == Term("v", num \o <<255>>, den \o <<CRange(cs)>>, CMid)
      U(num, den) == Term("u", num \o <<255>>, den \o <<CRange(cs)>>, CMid)
  IN [base |-> 0,
      terms |-> CASE c = "r" -> <<Y, V(<<2, D - Kr(cs)>>, <<D>>)>>
                  [] c = "b" -> <<Y, U(<<2, D - Kb(cs)>>, <<D>>)>>
                  [] c = "g" -> <<Y, V(<<-2, D - Kr(cs), Kr(cs)>>, <<D, Kg(cs)>>),
                                     U(<<-2, D - Kb(cs), Kb(cs)>>, <<D, Kg(cs)>>)>>]

Reals ==
  {[cs |-> cs, chan |-> o, formula |-> IF o \in {"y", "u", "v"} THEN RealFwd(cs, o) ELSE RealInv(cs, o)] :
     cs \in YuvSpaces, o \in {"y", "u", "v", "r", "g", "b"}}

Ranges == {[cs |-> cs, full |-> IsFull(cs), y_min |-> YMin(cs), y_max |-> YMin(cs) + YRange(cs),
            c_min |-> IF IsFull(cs) THEN 0 ELSE CMid - 112,
            c_max |-> IF IsFull(cs) THEN 255 ELSE CMid + 112, mid |-> CMid,
            black |-> YMin(cs), white |-> YMin(cs) + YRange(cs),
            round_trip |-> IF IsFull(cs) THEN 1 ELSE 2] : cs \in YuvSpaces}

FormatRecord(pf) ==
  [pf |-> pf, name |-> PfName[pf + 1], rgb |-> IsRgbFormat(pf),
   plane_counts |-> SetToSortSeq(PlaneCounts(pf), <),
   layouts |-> [k \in 1..Cardinality(PlaneCounts(pf)) |->
                  PlaneAreas(pf, SetToSortSeq(PlaneCounts(pf), <)[k])],
   even_w |-> EvenWidth(pf), even_h |-> EvenHeight(pf)]

(***************************************************************************)
(* Which descriptions describe an image: format, color space, planes,      *)
(* width and height (even, odd).  No format is stored in more planes.      *)
(***************************************************************************)
ManyPlanes == 9
ASSUME \A pf \in PixelFormats : \A n \in PlaneCounts(pf) : n <= ManyPlanes
Described ==
  {x \in PixelFormats \X ColorSpaces \X (0..ManyPlanes) \X {2, 3} \X {2, 3} :
     Full!Describes([pf |-> x[1], cs |-> x[2], np |-> Big(x[3])], Big(x[4]), Big(x[5]))}

Out == [formats |-> [pf \in 1..Cardinality(PixelFormats) |-> FormatRecord(pf - 1)],
        spaces |-> CsName,
        conversions |-> LET s == SetToSortSeq(AllConversions, Less)
                        IN [i \in 1..Len(s) |-> ConversionRecord(s[i])],
        luts |-> SetToSeq(Luts),
        described |-> SetToSeq(Described),
        pairs |-> SetToSeq(Conversions),
        reals |-> SetToSeq(Reals),
        ranges |-> SetToSeq(Ranges),
        machines |-> SetToSeq({m @@ [description |-> Describe(m), manufacturer |-> Manufacturer(m),
                                     set |-> InstructionSet(m)] : m \in Machines})]

ASSUME FormatsOk
ASSUME JsonSerialize(IOEnv.OUT, Out)
ASSUME PrintT(<<"conversions", Cardinality(AllConversions)>>)

VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
