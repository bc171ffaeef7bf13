--------------------------------- MODULE Dcp --------------------------------
(***************************************************************************)
(* A process that uses the library: its memory, its threads and their      *)
(* calls, the context that the first call creates, and the C strings it    *)
(* owns.                                                                   *)
(*                                                                         *)
(* Calls (all numbers in BigNat):                                          *)
(*   [op |-> "convert", api, w, h, src, dst, nulls]                        *)
(*       a side is [pf, cs, np, given, strides, lens, bufs, nullPlanes]:   *)
(*       buffer p is the first lens[p] bytes of memory object bufs[p]      *)
(*   [op |-> "sizes", api, w, h, pf, cs, np, given, strides, slots, nulls] *)
(*   [op |-> "describe"]             the Rust description                  *)
(*   [op |-> "c_describe"]           the C description                     *)
(*   [op |-> "c_unref", handle]                                            *)
(***************************************************************************)
EXTENDS Pixels

CONSTANTS Threads,
          Description,    \* what describes the acceleration of this machine
          Handles         \* where C strings can be

VARIABLES ctx,       \* the context: "none", "busy" (being created), "ready"
          builder,   \* who creates it, while it is busy
          mem,       \* memory object -> its bytes
          calls,     \* thread -> its call, if any, and how far it is
          strings    \* live C strings: handle -> text

vars == <<ctx, builder, mem, calls, strings>>

NoCall == [op |-> "none"]
Nobody == "nobody"
Idle == [call |-> NoCall, phase |-> "idle", plane |-> 0, handle |-> Nobody, result |-> [out |-> "none"]]

(***************************************************************************)
(* What a call does, as a function of its arguments and of the memory.     *)
(***************************************************************************)
\* the side as an image in memory (small numbers only)
Placed(side, w, m) ==
  LET n  == Full!PlaneCount(side.pf, side.np)
      pa == PlaneTable[side.pf][n]
  IN  [pf |-> side.pf, cs |-> side.cs, np |-> n,
       strides |-> TLCEval([p \in 1..n |-> Small(Full!Stride(pa[p], w, Full!StrideOf(side, p)))]),
       bufs |-> TLCEval([p \in 1..n |-> SubSeq(m[side.bufs[p]], 1, Small(side.lens[p]))])]

Outcome(c) ==
  CASE c.op = "convert" -> IF c.api = "c" THEN Full!CConvertOutcome(c) ELSE Full!ConvertOutcome(c)
    [] c.op = "sizes"   -> IF c.api = "c" THEN Full!CSizesOutcome(c) ELSE Full!SizesOutcome(c)
    [] OTHER -> Full!Ok

Empty(c) == c.w = <<>> \/ c.h = <<>>
Converts(c) == c.op = "convert" /\ Outcome(c) = Full!Ok /\ ~Empty(c)

\* Plane p of the destination after the conversion, as the whole object
WrittenPlane(c, p, m) ==
  LET src == Placed(c.src, c.w, m)
      dst == Placed(c.dst, c.w, m)
      b   == c.dst.bufs[p]
  IN  ConvertedPlane(src, dst, Small(c.w), Small(c.h), p)
      \o SubSeq(m[b], Small(c.dst.lens[p]) + 1, Len(m[b]))

PlanesOf(c) == Full!PlaneCount(c.dst.pf, c.dst.np)

RECURSIVE AfterPlanes(_, _, _, _)
AfterPlanes(c, p, m, start) ==
  IF p = 0 THEN m
  ELSE LET before == AfterPlanes(c, p - 1, m, start)
       IN  [before EXCEPT ![c.dst.bufs[p]] = WrittenPlane(c, p, start)]

\* The memory after the call
After(c, m) == IF Converts(c) THEN AfterPlanes(c, PlanesOf(c), m, m) ELSE m

\* What the caller is told
Result(c) ==
  CASE c.op = "convert" -> [out |-> Outcome(c)]
    [] c.op = "sizes" -> IF Outcome(c) = Full!Ok THEN [out |-> Full!Ok, sizes |-> Full!SizesOf(c)]
                         ELSE [out |-> Outcome(c)]
    [] c.op \in {"describe", "c_describe"} -> [out |-> Full!Ok, text |-> Description]
    [] OTHER -> [out |-> Full!Ok]

(***************************************************************************)
(* Memory a call uses.  Callers do not let calls that run at the same time *)
(* write what another one uses.                                            *)
(***************************************************************************)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Reads(c)  == IF c.op = "convert" THEN SetOf(c.src.bufs) ELSE {}
Writes(c) == IF c.op = "convert" THEN SetOf(c.dst.bufs) ELSE {}
Busy == {t \in Threads : calls[t].phase # "idle"}
Compatible(c) ==
  /\ Reads(c) \intersect Writes(c) = {}
  /\ \A t \in Busy :
       /\ Writes(c) \intersect (Reads(calls[t].call) \union Writes(calls[t].call)) = {}
       /\ Reads(c) \intersect Writes(calls[t].call) = {}

\* only these need to know what the machine can do
NeedsContext(c) == Converts(c) \/ c.op \in {"describe", "c_describe"}

(***************************************************************************)
(* The transitions.                                                        *)
(***************************************************************************)
Init(m0) ==
  /\ ctx = "none"
  /\ builder = Nobody
  /\ mem = m0
  /\ calls = [t \in Threads |-> Idle]
  /\ strings = << >>

\* The owner of the memory writes to it
Fill(b, bytes) ==
  /\ \A t \in Busy : b \notin Reads(calls[t].call) \union Writes(calls[t].call)
  /\ mem' = [mem EXCEPT ![b] = bytes]
  /\ UNCHANGED <<ctx, builder, calls, strings>>

\* Strings that callers know about, as the call that made them is back
Owned == DOMAIN strings \ {calls[t].handle : t \in Threads}

Begin(t, c) ==
  /\ calls[t].phase = "idle"
  /\ Compatible(c)
  /\ c.op = "c_unref" => c.handle \in Owned
  /\ calls' = [calls EXCEPT ![t] = [Idle EXCEPT !.call = c, !.phase = "called"]]
  \* a string that is released is not the caller's any more
  /\ strings' = IF c.op = "c_unref"
                THEN [h \in DOMAIN strings \ {c.handle} |-> strings[h]] ELSE strings
  /\ UNCHANGED <<ctx, builder, mem>>

\* The first to need the context creates it ...
Build(t) ==
  /\ calls[t].phase = "called" /\ NeedsContext(calls[t].call)
  /\ ctx = "none"
  /\ ctx' = "busy"
  /\ builder' = t
  /\ UNCHANGED <<mem, calls, strings>>

Built(t) ==
  /\ ctx = "busy" /\ builder = t
  /\ ctx' = "ready"
  /\ builder' = Nobody
  /\ UNCHANGED <<mem, calls, strings>>

\* ... and everybody else waits for it
Start(t) ==
  /\ calls[t].phase = "called"
  /\ NeedsContext(calls[t].call) => ctx = "ready"
  /\ calls' = [calls EXCEPT ![t].phase = "running"]
  /\ UNCHANGED <<ctx, builder, mem, strings>>

\* One more plane is converted.  The rows of the source are read meanwhile.
Step(t) ==
  LET c == calls[t].call
      p == calls[t].plane + 1
  IN  /\ calls[t].phase = "running"
      /\ Converts(c) /\ p <= PlanesOf(c)
      /\ mem' = [mem EXCEPT ![c.dst.bufs[p]] = WrittenPlane(c, p, mem)]
      /\ calls' = [calls EXCEPT ![t].plane = p]
      /\ UNCHANGED <<ctx, builder, strings>>

\* A new C string is none of the live ones
NewString(t, h) == h \in Handles \ DOMAIN strings

Finish(t, h) ==
  LET c == calls[t].call IN
  /\ calls[t].phase = "running"
  /\ Converts(c) => calls[t].plane = PlanesOf(c)
  /\ calls' = [calls EXCEPT ![t].phase = "done", ![t].result = Result(c),
                            ![t].handle = IF c.op = "c_describe" THEN h ELSE Nobody]
  /\ IF c.op = "c_describe"
     THEN /\ NewString(t, h)
          /\ strings' = [k \in DOMAIN strings \union {h} |->
                           IF k = h THEN Description ELSE strings[k]]
     ELSE UNCHANGED strings
  /\ UNCHANGED <<ctx, builder, mem>>

End(t) ==
  /\ calls[t].phase = "done"
  /\ calls' = [calls EXCEPT ![t] = Idle]
  /\ UNCHANGED <<ctx, builder, mem, strings>>

Internal(t) == Build(t) \/ Built(t) \/ Start(t) \/ Step(t)
               \/ \E h \in IF calls[t].call.op = "c_describe" THEN Handles ELSE {Nobody} : Finish(t, h)
=============================================================================
