-------------------------------- MODULE MCDcp -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Dcp: a few threads that make all of a family  *)
(* of calls over shared memory, in every order and with every              *)
(* interleaving of their steps.                                            *)
(***************************************************************************)
EXTENDS Dcp

CONSTANTS MaxCalls      \* calls of each thread

VARIABLES made,         \* thread -> calls made so far
          seen,         \* thread -> the memory when the call began
          told,         \* the descriptions callers were given
          created       \* how often a context was created
mcvars == <<ctx, builder, mem, calls, strings, made, seen, told, created>>

B(n) == Big(n)
Side(pf, cs, np, given, strides, bufs, lens) ==
  [pf |-> pf, cs |-> cs, np |-> B(np), given |-> given,
   strides |-> [i \in 1..Len(strides) |-> B(strides[i])],
   lens |-> [i \in 1..Len(lens) |-> B(lens[i])], bufs |-> bufs, nullPlanes |-> {}]
Convert(w, h, src, dst) ==
  [op |-> "convert", api |-> "rust", w |-> B(w), h |-> B(h), src |-> src, dst |-> dst, nulls |-> {}]
Sizes(w, h, pf, np, slots) ==
  [op |-> "sizes", api |-> "rust", w |-> B(w), h |-> B(h), pf |-> pf, cs |-> CsRgb, np |-> B(np),
   given |-> FALSE, strides |-> <<>>, slots |-> slots, nulls |-> {}]

\* Memory: two RGB-like objects, one BGRA, and the planes of a YUV image
Memory0 ==
  [rgb |-> <<10, 200, 30, 40, 50, 60, 0, 0>>,
   bgra |-> <<1, 2, 3, 4, 5, 6, 7, 8, 250, 10, 11, 12, 13, 14, 15, 16>>,
   y |-> <<16, 235, 81, 145, 77>>,
   u |-> <<90>>,
   v |-> <<240>>,
   out |-> <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>]

Bgra1  == Side(Bgra, CsRgb, 1, FALSE, <<>>, <<"bgra">>, <<16>>)
Out1(pf) == Side(pf, CsRgb, 1, FALSE, <<>>, <<"out">>, <<17>>)
I420In == Side(I420, Bt601, 3, FALSE, <<>>, <<"y", "u", "v">>, <<5, 1, 1>>)
Rgb1   == Side(Rgb, CsRgb, 1, TRUE, <<8>>, <<"rgb">>, <<6>>)
Short  == Side(Rgb, CsRgb, 1, TRUE, <<8>>, <<"rgb">>, <<5>>)
CBgra  == Side(Bgra, CsRgb, 1, FALSE, <<>>, <<"out">>, <<17>>)

Conversions0 ==
  {Convert(2, 2, Bgra1, I420In),                       \* BGRA -> I420
   Convert(2, 2, I420In, Out1(Bgra)),                  \* and on to BGRA
   Convert(2, 2, I420In, Bgra1),                       \* and back where it came from
   Convert(2, 1, Rgb1, Out1(Bgra)),                    \* a padded row
   Convert(2, 1, Short, Out1(Bgra)),                   \* refused
   Convert(0, 2, Bgra1, I420In)}                       \* empty

CallSet == Conversions0
           \union {[op |-> "describe"]}
           \union {Sizes(2, 2, Nv12, 2, 2)}
           \union {[op |-> "c_describe"]}
           \union {[op |-> "c_unref", handle |-> h] : h \in Handles}

CONSTANT Calls      \* a subset of CallSet

\* the same outcomes, looked up
OutcomeTable == TLCEval([c \in CallSet |-> TLCEval(Result(c).out)])
NoteOutcome(c) == OutcomeTable[c]
ConvertsTable == TLCEval([c \in CallSet |-> c.op = "convert" /\ NoteOutcome(c) = Full!Ok /\ ~Empty(c)])
NoteConverts(c) == ConvertsTable[c]

\* Families of calls for the smaller configurations
Strings0 == {c \in CallSet : c.op \in {"describe", "c_describe", "c_unref"}}
Racing == {c \in CallSet : c.op = "describe"}
          \union {c \in Conversions0 : Converts(c) /\ c.h = B(2)}
RacingFew == {c \in CallSet : c.op = "describe"}
             \union {Convert(2, 1, Rgb1, Out1(Bgra)), Convert(2, 2, I420In, Bgra1)}
Single == {c \in CallSet : c.op \in {"convert", "describe", "sizes"}}

\* Mistakes that the properties must notice (see check.py): a context that is
\* created without checking again, a wait that is forgotten, a string that is
\* shared, a plane that is written too far
RacyBuild(t) ==
  /\ calls[t].phase = "called" /\ NeedsContext(calls[t].call)
  /\ ctx # "ready"
  /\ ctx' = "busy"
  /\ builder' = t
  /\ UNCHANGED <<mem, calls, strings>>
StuckBuilt(t) ==
  /\ ctx = "busy" /\ builder = t /\ \A u \in Threads \ {t} : calls[u].phase = "idle"
  /\ ctx' = "ready"
  /\ builder' = Nobody
  /\ UNCHANGED <<mem, calls, strings>>
GreedyStep(t) ==
  LET c == calls[t].call
      p == calls[t].plane + 1
      b == c.dst.bufs[p]
      new == WrittenPlane(c, p, mem)
  IN  /\ calls[t].phase = "running"
      /\ Converts(c) /\ p <= PlanesOf(c)
      /\ mem' = [mem EXCEPT ![b] = [new EXCEPT ![Len(new)] = 255 - @]]
      /\ calls' = [calls EXCEPT ![t].plane = p]
      /\ UNCHANGED <<ctx, builder, strings>>
LossyFinish(t, h) ==
  LET c == calls[t].call IN
  /\ calls[t].phase = "running"
  /\ Converts(c) => calls[t].plane = PlanesOf(c)
  /\ calls' = [calls EXCEPT ![t].phase = "done", ![t].result = Result(c)]
  /\ strings' = IF c.op = "c_describe" THEN [k \in {h} |-> Description] ELSE strings
  /\ UNCHANGED <<ctx, builder, mem>>

MCInit ==
  /\ Init(Memory0)
  /\ made = [t \in Threads |-> 0]
  /\ seen = [t \in Threads |-> Memory0]
  /\ told = {}
  /\ created = 0

MCBegin(t, c) ==
  /\ made[t] < MaxCalls
  /\ Begin(t, c)
  /\ c.op = "c_describe" =>
       Cardinality(DOMAIN strings) + Cardinality({u \in Busy : calls[u].call.op = "c_describe"
                                                             /\ calls[u].phase # "done"})
         < Cardinality(Handles)
  /\ made' = [made EXCEPT ![t] = @ + 1]
  /\ seen' = [seen EXCEPT ![t] = mem]
  /\ UNCHANGED <<told, created>>

MCInternal(t) ==
  /\ Internal(t)
  /\ created' = IF ctx = "none" /\ ctx' = "busy" THEN created + 1 ELSE created
  /\ UNCHANGED <<made, seen, told>>

MCEnd(t) ==
  /\ End(t)
  /\ told' = IF calls[t].call.op \in {"describe", "c_describe"}
             THEN told \union {calls[t].result.text} ELSE told
  /\ UNCHANGED <<made, seen, created>>

Terminating == (\A t \in Threads : calls[t].phase = "idle" /\ made[t] = MaxCalls) /\ UNCHANGED mcvars

MCNext == (\E t \in Threads : (\E c \in Calls : MCBegin(t, c)) \/ MCInternal(t) \/ MCEnd(t))
          \/ Terminating

MCSpec == MCInit /\ [][MCNext]_mcvars
          /\ \A t \in Threads : WF_mcvars(MCInternal(t)) /\ WF_mcvars(MCEnd(t))

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
TypeOK ==
  /\ ctx \in {"none", "busy", "ready"}
  /\ (ctx = "busy") = (builder # Nobody)
  /\ DOMAIN mem = DOMAIN Memory0
  /\ \A b \in DOMAIN mem : Len(mem[b]) = Len(Memory0[b])
                           /\ \A i \in 1..Len(mem[b]) : mem[b][i] \in 0..255
  /\ DOMAIN strings \subseteq Handles

\* C14: one context, ever; one description
OneContext == created <= 1 /\ (ctx = "none" <=> created = 0)
OneDescription == told \subseteq {Description}

\* C14, C15: whatever the others do meanwhile and did before, a call that is
\* done has the result, and its buffers the contents, of a call made alone at
\* the moment it began
Alone ==
  \A t \in Threads :
    calls[t].phase = "done" =>
      LET c == calls[t].call IN
      /\ calls[t].result = Result(c)
      /\ \A b \in Writes(c) : mem[b] = After(c, seen[t])[b]
      /\ \A b \in Reads(c) : mem[b] = seen[t][b]

\* C03: outside the image nothing is written, and memory no call may write
\* stays as it is
Framed ==
  \A t \in Threads :
    calls[t].phase \in {"running", "done"} /\ Writes(calls[t].call) # {} =>
      LET c == calls[t].call IN
      \A k \in 1..Len(c.dst.bufs) :
        LET b == c.dst.bufs[k] IN
        \A i \in 1..Len(mem[b]) :
          mem[b][i] # seen[t][b][i] =>
            /\ Converts(c)
            /\ i <= Small(c.dst.lens[k])
            /\ InImage(Placed(c.dst, c.w, mem), Small(c.w), Small(c.h), k, i - 1)
OnlyWriters ==
  [][\A b \in DOMAIN mem : mem[b] # mem'[b] =>
       \E t \in Threads : calls[t].phase = "running" /\ b \in Writes(calls[t].call)]_mcvars

\* C13: a live string reads as it was written
StringsLive == \A s \in DOMAIN strings : strings[s] = Description
StringsKept ==
  [][\A s \in DOMAIN strings : s \in DOMAIN strings' \/
       \E t \in Threads : calls'[t].phase = "called" /\ calls[t].phase = "idle"
                         /\ calls'[t].call.op = "c_unref" /\ calls'[t].call.handle = s]_mcvars

\* C14, C19: every call ends
EveryCallEnds == \A t \in Threads : (calls[t].phase = "called") ~> (calls[t].phase = "idle")
ContextStays == [][ctx = "ready" => ctx' = "ready"]_mcvars
=============================================================================
