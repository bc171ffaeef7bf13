--------------------------------- MODULE Cpu --------------------------------
(***************************************************************************)
(* What the library finds out about the machine it runs on, and how it     *)
(* describes it.  A machine is what the CPUID instruction tells:           *)
(*   vendor    the twelve letters                                          *)
(*   leaves    the number of the last leaf there is                        *)
(*   sse2, avx, avx2                       what the processor has          *)
(*   xsave     it can save the wide registers                              *)
(*   osxsave   and the operating system makes use of that                  *)
(* and what the operating system says it saves:                            *)
(*   ymm       the registers of AVX are among that                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Vendors == {"GenuineIntel", "AuthenticAMD", "AMDisbetter!", "CentaurHauls", "HygonGenuine",
            "GenuineIntem", "genuineIntel", "AuthenticAMd", "KVMKVMKVM   ", "            "}
LastLeaves == {0, 1, 2, 6, 7, 13, 31}

\* (a processor with nothing else to tell is not asked for its maker)
Manufacturer(m) ==
  CASE m.leaves = 0 -> "Unknown"
    [] m.vendor = "GenuineIntel" -> "Intel"
    [] m.vendor \in {"AuthenticAMD", "AMDisbetter!"} -> "Amd"
    [] OTHER -> "Unknown"

\* What can be executed.  AVX2 is announced in leaf 7, and its registers are
\* only kept across a task switch where the operating system knows them.
HasSse2(m) == m.leaves >= 1 /\ m.sse2
HasAvx2(m) == m.leaves >= 7 /\ m.avx2 /\ m.avx /\ m.xsave /\ m.osxsave /\ m.ymm

\* The library prefers SSE2 on AMD, where AVX2 is slower
InstructionSet(m) ==
  IF HasSse2(m) /\ HasAvx2(m) /\ Manufacturer(m) # "Amd" THEN "Avx2"
  ELSE IF HasSse2(m) THEN "Sse2"
  ELSE "X86"

Describe(m) == "{cpu-manufacturer:" \o Manufacturer(m) \o ",instruction-set:" \o InstructionSet(m) \o "}"

\* Machines that make sense
Coherent(m) ==
  /\ m.avx2 => m.avx
  /\ m.avx => m.xsave /\ m.sse2
  /\ m.osxsave => m.xsave
  /\ m.ymm => m.osxsave
  /\ m.leaves = 0 => ~m.sse2 /\ ~m.xsave

Machines == {m \in [vendor : Vendors, leaves : LastLeaves, sse2 : BOOLEAN, avx : BOOLEAN,
                    avx2 : BOOLEAN, xsave : BOOLEAN, osxsave : BOOLEAN, ymm : BOOLEAN] : Coherent(m)}

(***************************************************************************)
(* What is promised.                                                       *)
(***************************************************************************)
CanRun(m, set) == CASE set = "Avx2" -> HasAvx2(m)
                    [] set = "Sse2" -> HasSse2(m)
                    [] set = "X86" -> TRUE
Rank(set) == CASE set = "X86" -> 0 [] set = "Sse2" -> 1 [] set = "Avx2" -> 2

\* never something that cannot be executed, and never less than the best but
\* for AMD
Runnable == \A m \in Machines : CanRun(m, InstructionSet(m))
Best == \A m \in Machines : \A s \in {"X86", "Sse2", "Avx2"} :
          CanRun(m, s) /\ Rank(s) > Rank(InstructionSet(m)) => s = "Avx2" /\ Manufacturer(m) = "Amd"
\* every description exists on some machine, but for AVX2 on AMD
AllDescribed ==
  {<<Manufacturer(m), InstructionSet(m)>> : m \in Machines} =
    ({"Intel", "Amd", "Unknown"} \X {"X86", "Sse2", "Avx2"}) \ {<<"Amd", "Avx2">>}

ASSUME Runnable
ASSUME Best
ASSUME AllDescribed
=============================================================================
