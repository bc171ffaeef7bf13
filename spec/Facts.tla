-------------------------------- MODULE Facts -------------------------------
(***************************************************************************)
(* Checks recorded facts, each for itself: what the library said about a   *)
(* machine, and what became of colors.  A line of FACTS is one of          *)
(*   [e |-> "machine", machine, text, again, images]                       *)
(*       the description, asked for twice, and a digest of images that     *)
(*       have been converted there                                         *)
(*   [e |-> "there", cs, from, to]   a color and its y, u, v               *)
(*   [e |-> "mean", cs, from, to]    four colors and their u, v            *)
(*   [e |-> "back", cs, from, to]    y, u, v and their color               *)
(*   [e |-> "round", cs, from, to]   a color, and itself after both        *)
(*   those of module Interfaces, and [e |-> "complete"] when all of them    *)
(*   have been recorded; errors as [e |-> "error", kind, text]              *)
(***************************************************************************)
EXTENDS Fidelity, Interfaces, Cpu, Json, IOUtils

FactList == TLCEval(ndJsonDeserialize(IOEnv.FACTS))

VARIABLES nextFact, fact

MachineOf(r) == [k \in {"vendor", "leaves", "sse2", "avx", "avx2", "xsave", "osxsave", "ymm"} |-> r[k]]
MachineOk(f) ==
  /\ MachineOf(f.machine) \in Machines
  /\ f.text = Describe(MachineOf(f.machine))
  /\ f.again = f.text
  /\ f.images = FactList[1].images

Added(s) == [k \in 1..3 |-> s[1][k] + s[2][k] + s[3][k] + s[4][k]]
ThereOk(cs, c, t) ==
  /\ LumaNear(cs, c, t[1]) /\ ChromaNear(cs, 1, c, t[2], t[3])
  /\ InLumaRange(cs, t[1]) /\ InChromaRange(cs, t[2]) /\ InChromaRange(cs, t[3])
  /\ LumaGrey(cs, c, t[1]) /\ ChromaGrey(c, t[2], t[3])
MeanOk(cs, s, t) ==
  /\ ChromaNear(cs, 4, Added(s), t[1], t[2])
  /\ InChromaRange(cs, t[1]) /\ InChromaRange(cs, t[2])
  /\ (\A k \in 1..4 : IsGrey(s[k])) => t = <<CMid, CMid>>
BackOk(cs, c, t) == RgbNear(cs, c, t) /\ NeutralStays(c, t)

\* Errors are told apart by what they say
ErrorOk(f) ==
  /\ f.kind \in {Errors[k] : k \in 1..Len(Errors)}
  /\ f.text # ""
  /\ \A k \in 1..Len(FactList) :
       FactList[k].e = "error" /\ FactList[k].kind # f.kind => FactList[k].text # f.text

Complete ==
  LET known == {FactList[k] : k \in 1..Len(FactList)} IN
  /\ Required \subseteq known
  /\ \A k \in 1..Len(Errors) : \E f \in known : f.e = "error" /\ f.kind = Errors[k]

FactOk(f) ==
  CASE f.e \in {"number", "layout", "shown", "header", "function"} -> f \in Required
    [] f.e = "error" -> ErrorOk(f)
    [] f.e = "complete" -> Complete
    [] f.e = "machine" -> MachineOk(f)
    [] f.e = "there" -> ThereOk(f.cs, f.from, f.to)
    [] f.e = "mean" -> MeanOk(f.cs, f.from, f.to)
    [] f.e = "back" -> BackOk(f.cs, f.from, f.to)
    [] f.e = "round" -> Survives(f.cs, f.from, f.to)

FInit == nextFact = 1 /\ fact = 0
FNext == nextFact <= Len(FactList) /\ fact' = nextFact /\ nextFact' = nextFact + 1

Go == (fact # 0 => FactOk(FactList[fact])) /\ TLCSet(1, nextFact)
Explained ==
  IF TLCGet(1) > Len(FactList) THEN PrintT(<<"EXPLAINED", Len(FactList)>>)
  ELSE /\ PrintT(<<"REJECTED", TLCGet(1)>>)
       /\ FALSE
=============================================================================
