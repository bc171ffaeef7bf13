-------------------------------- MODULE MCCpu -------------------------------
(***************************************************************************)
(* Finding out what the machine can do, question by question: the leaves   *)
(* of CPUID and the register that tells what the operating system saves.   *)
(* Leaves that do not exist answer anything; the register must not be      *)
(* asked for where the operating system has not enabled that.              *)
(***************************************************************************)
EXTENDS Cpu

CONSTANTS CheckLeaf,    \* looks at the number of the last leaf
          CheckOs,      \* asks what the operating system saves
          CheckEnabled  \* but only where it may be asked

VARIABLES m,       \* the machine
          pc,      \* what is asked next
          last, vendor, sse2, avx, avx2, osxsave, ymm,  \* what was answered
          fault, chosen
vars == <<m, pc, last, vendor, sse2, avx, avx2, osxsave, ymm, fault, chosen>>
known == <<last, vendor, sse2, avx, avx2, osxsave, ymm>>

Init ==
  /\ m \in Machines
  /\ pc = "leaf 0"
  /\ last = 0 /\ vendor = "" /\ sse2 = FALSE /\ avx = FALSE /\ avx2 = FALSE /\ osxsave = FALSE /\ ymm = FALSE
  /\ fault = FALSE /\ chosen = "none"

\* The answer of a leaf: anything, if there is none
Answers(leaf, real) == IF m.leaves >= leaf THEN {real} ELSE BOOLEAN

Choose(set) == chosen' = set /\ pc' = "done" /\ UNCHANGED <<m, known, fault>>

Leaf0 ==
  /\ pc = "leaf 0"
  /\ IF CheckLeaf /\ m.leaves < 1 THEN Choose("X86")
     ELSE /\ last' = m.leaves /\ vendor' = m.vendor
          /\ pc' = "leaf 1"
          /\ UNCHANGED <<m, sse2, avx, avx2, osxsave, ymm, fault, chosen>>

Leaf1 ==
  /\ pc = "leaf 1"
  /\ sse2' \in Answers(1, m.sse2)
  /\ avx' \in Answers(1, m.avx)
  /\ osxsave' \in Answers(1, m.osxsave)
  /\ pc' = "sse2"
  /\ UNCHANGED <<m, last, vendor, avx2, ymm, fault, chosen>>

\* on AMD there is nothing else to know
Sse2 ==
  /\ pc = "sse2"
  /\ IF ~sse2 THEN Choose("X86")
     ELSE IF vendor \in {"AuthenticAMD", "AMDisbetter!"} THEN Choose("Sse2")
     ELSE pc' = "leaf 7" /\ UNCHANGED <<m, known, fault, chosen>>

Leaf7 ==
  /\ pc = "leaf 7"
  /\ IF CheckLeaf /\ last < 7 THEN Choose("Sse2")
     ELSE /\ avx2' \in Answers(7, m.avx2)
          /\ pc' = "system"
          /\ UNCHANGED <<m, last, vendor, sse2, avx, osxsave, ymm, fault, chosen>>

System ==
  /\ pc = "system"
  /\ IF ~CheckOs THEN ymm' = TRUE /\ UNCHANGED fault
     ELSE IF CheckEnabled /\ ~osxsave THEN ymm' = FALSE /\ UNCHANGED fault
     ELSE ymm' = m.ymm /\ fault' = ~m.osxsave
  /\ pc' = "choose"
  /\ UNCHANGED <<m, last, vendor, sse2, avx, avx2, osxsave, chosen>>

Last ==
  /\ pc = "choose"
  /\ Choose(IF avx /\ avx2 /\ ymm THEN "Avx2" ELSE "Sse2")

Done == pc = "done" /\ UNCHANGED vars

Next == Leaf0 \/ Leaf1 \/ Sse2 \/ Leaf7 \/ System \/ Last \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoFault == ~fault
CanBeRun == pc = "done" => CanRun(m, chosen)
TheBest == pc = "done" => chosen = InstructionSet(m)
Ends == <>(pc = "done")
=============================================================================
