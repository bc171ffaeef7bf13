------------------------------ MODULE DcpTrace ------------------------------
(***************************************************************************)
(* Checks that a history recorded from the real library is a behaviour of  *)
(* Dcp.  TRACE names the file; TRACE_HEAD one with the memory at the start *)
(* and the description of the machine.  Each line of the trace is an event:*)
(*   fill   b, bytes               the owner writes to an object           *)
(*   begin  t, call                thread t calls                          *)
(*   call   t, call, out, ...      both at once                            *)
(*   end    t, out, after          the call is back; after lists all       *)
(*                                 memory objects that differ from before  *)
(*          (sizes: array; describe, c_describe: text)                     *)
(*   read   handle, text           the contents of a C string              *)
(*                                                                         *)
(* Actions take the recorded effects over; whether these are right is a    *)
(* predicate of the state that follows, Verdict, and a behaviour does not  *)
(* go on from a state where it is false.  (TLC evaluates definitions anew  *)
(* wherever they are used inside of an action, but only once in a state.)  *)
(*                                                                         *)
(* The variables A_* say which of the guarantees are judged.  What is not judged is *)
(* taken over from the recording, so that one property's violation is not  *)
(* reported by the check of another.                                       *)
(***************************************************************************)
EXTENDS Recorded

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
\* One variable per aspect
Judged(a) == CASE a = "outcome" -> IOEnv.A_OUTCOME = "1"
               [] a = "c_refusal" -> IOEnv.A_C_REFUSAL = "1"
               [] a = "sizes" -> IOEnv.A_SIZES = "1"
               [] a = "values" -> IOEnv.A_VALUES = "1"
               [] a = "frame" -> IOEnv.A_FRAME = "1"
               [] a = "strings" -> IOEnv.A_STRINGS = "1"
               [] a = "returns" -> IOEnv.A_RETURNS = "1"
               [] a = "bounds" -> IOEnv.A_BOUNDS = "1"
               [] a = "suffice" -> IOEnv.A_SUFFICE = "1"

\* (in a file of its own, as constants of the configuration are evaluated anew
\* wherever they are used)
Head0 == JsonDeserialize(IOEnv.TRACE_HEAD)
TraceThreads == {Head0.threads[k] : k \in 1..Len(Head0.threads)}
TraceDescription == Head0.description
TraceHandles == {Head0.handles[k] : k \in 1..Len(Head0.handles)}

VARIABLES nextEvent,
          memAtBegin,   \* thread -> the memory when its call began
          granted,      \* what the last two size queries answered
          verdict       \* the call that has just come back, if any
tvars == <<ctx, builder, mem, calls, strings, nextEvent, memAtBegin, granted, verdict>>

E == Trace[nextEvent]

NoVerdict == [ev |-> 0]

\* Calls of the trace whose buffers are memory objects
HasMemory(c) == c.op = "convert" /\ c.dst.bufs # <<>>

TraceInit ==
  /\ nextEvent = 1
  /\ Init([b \in DOMAIN Head0.mem |-> Head0.mem[b]])
  /\ memAtBegin = [t \in Threads |-> << >>]
  /\ granted = << >>
  /\ verdict = NoVerdict

(***************************************************************************)
(* Verdicts on the end of a call: event v.ev is its end, v.c the call,     *)
(* v.m0 the memory when it began and v.m1 the memory when it ended.        *)
(***************************************************************************)
Returns == {Full!Ok, Full!InvalidValue, Full!InvalidOperation, Full!NotEnoughData}

\* What changed, by the recording
ChangeOf(e, b) == IF \E k \in 1..Len(e.after) : e.after[k].b = b
                  THEN (CHOOSE k \in 1..Len(e.after) : e.after[k].b = b) ELSE 0
Observed(e) == IF "after" \notin DOMAIN e THEN mem
               ELSE TLCEval([b \in DOMAIN mem |->
                      LET k == ChangeOf(e, b) IN IF k = 0 THEN mem[b] ELSE e.after[k].bytes])

OutcomeOk(e, c) == e.out \in Returns /\ e.out = Outcome(c)

\* C functions that are given nonsense say so
CRefused(c) ==
  /\ c.api = "c"
  /\ IF c.op = "convert" THEN c.nulls # {} \/ Full!CSideRefused(c.src) \/ Full!CSideRefused(c.dst)
     ELSE c.nulls # {} \/ ~Full!KnownFormat(c.pf) \/ ~Full!PlanesMatch(c.pf, c.np)
CRefusalOk(e, c) == CRefused(c) => e.out = Full!InvalidValue

SizesOk(e, c) ==
  /\ e.out = Outcome(c)
  /\ IF e.out = Full!Ok
     THEN LET s == Full!SizesOf(c) IN
          /\ Len(e.array) = Len(c.array)
          /\ \A k \in 1..Len(e.array) : e.array[k] = (IF k <= Len(s) THEN s[k] ELSE c.array[k])
     ELSE e.array = c.array

\* the frame of a call that says it was successful although it should not be
\* is not known
Legit(c) == Full!ConvertOutcome(c) = Full!Ok
RowsAreApart(c) == Full!DestinationApart(c)

\* nothing but the image changes
FrameOk(v, e, c) ==
  \A b \in DOMAIN v.m1 :
    ChangeOf(e, b) # 0 =>
      /\ e.out = Full!Ok
      /\ Legit(c) =>
           /\ ~Empty(c)
           /\ b \in Writes(c)
           /\ \A k \in 1..PlanesOf(c) : c.dst.bufs[k] = b =>
                LET dst == Placed(c.dst, c.w, v.m1)
                    was == v.m1[b]
                    is  == mem[b]
                    w   == Small(c.w)
                    h   == Small(c.h)
                    len == Small(c.dst.lens[k])
                IN  \A o \in 1..Len(was) :
                      is[o] # was[o] => o <= len /\ InImage(dst, w, h, k, o - 1)

\* what is accepted fits the buffers, what fits is not refused for its size,
\* and whatever is written is within the destination's buffers
BoundsOk(v, e, c) ==
  /\ (e.out = Full!Ok /\ ~Empty(c)) => Outcome(c) # Full!NotEnoughData
  /\ e.out = Full!NotEnoughData => Outcome(c) # Full!Ok
  /\ HasMemory(c) =>
       \A b \in DOMAIN v.m1 :
         ChangeOf(e, b) # 0 =>
           /\ e.out = Full!Ok
           /\ b \in Writes(c)
           /\ \A k \in 1..Len(c.dst.bufs) : c.dst.bufs[k] = b =>
                \A o \in 1..Len(v.m1[b]) : mem[b][o] # v.m1[b][o] => o <= Small(c.dst.lens[k])

\* the image is what it should be: all of it, or only the samples of the full
\* resolution, or only the subsampled ones
JudgedByte(role) ==
  /\ role.c # ""
  /\ CASE IOEnv.A_AREAS = "full" -> role.sx = 0
       [] IOEnv.A_AREAS = "sub"  -> role.sx = 1
       [] OTHER -> TRUE
ValuesOk(v, e, c) ==
  (e.out = Full!Ok /\ Legit(c) /\ ~Empty(c) /\ RowsAreApart(c)) =>
     LET src == Placed(c.src, c.w, v.m0)
         dst == Placed(c.dst, c.w, v.m1)
         w   == Small(c.w)
         h   == Small(c.h)
     IN  \A k \in 1..PlanesOf(c) :
           LET want == ConvertedPlane(src, dst, w, h, k)
               is   == mem[c.dst.bufs[k]]
           IN  \A o \in 1..Len(want) :
                 is[o] = want[o] \/ ~JudgedByte(ByteRole(dst, w, h, k, o - 1))

\* nothing is wrapped around: what was accepted can be counted
CountableSide(d, w, h) ==
  (Full!PlanesMatch(d.pf, d.np) /\ Full!SizeMatches(d.pf, w, h)) =>
    LET n  == Full!PlaneCount(d.pf, d.np)
        pa == PlaneTable[d.pf][n]
    IN  \A p \in 1..n : (d.given => p <= Len(d.strides)) =>
          BigLeq(Full!PlaneNeeds(pa[p], w, h, Full!StrideOf(d, p)), MaxWord)
ReturnsOk(e, c) ==
  /\ e.out \in Returns
  /\ (/\ c.op = "sizes" /\ e.out = Full!Ok /\ Full!PlanesMatch(c.pf, c.np)
      /\ c.given => Len(c.strides) >= Full!PlaneCount(c.pf, c.np)) =>
         \A p \in 1..Full!PlaneCount(c.pf, c.np) : BigLeq(Full!SizesOf(c)[p], MaxWord)
  /\ (c.op = "convert" /\ e.out = Full!Ok /\ ~Empty(c)) =>
       CountableSide(c.src, c.w, c.h) /\ CountableSide(c.dst, c.w, c.h)

(***************************************************************************)
(* What a size query answers is granted: buffers of that size, with the    *)
(* same strides, are large enough.  Only for rows that are apart.          *)
(***************************************************************************)
StridesOf(d, n) == [p \in 1..n |-> Full!StrideOf(d, p)]
Grant(c, array) == [pf |-> c.pf, np |-> c.np, w |-> c.w, h |-> c.h, d |-> c, sizes |-> array]
Apart(d, w, h) ==
  LET n  == Full!PlaneCount(d.pf, d.np)
      pa == PlaneTable[d.pf][n]
  IN  \A p \in 1..n : Full!RowsApart(pa[p], w, h, Full!StrideOf(d, p))
Granted(s, c) ==
  \E k \in 1..Len(granted) :
    LET g == granted[k]
        n == Full!PlaneCount(s.pf, s.np)
    IN  /\ g.pf = s.pf /\ g.np = s.np /\ g.w = c.w /\ g.h = c.h
        /\ s.given => Len(s.strides) >= n
        /\ g.d.given => Len(g.d.strides) >= n
        /\ StridesOf(s, n) = StridesOf(g.d, n)
        /\ Len(s.lens) >= n /\ Len(g.sizes) >= n
        /\ \A p \in 1..n : s.lens[p] = g.sizes[p]
        /\ Apart(s, c.w, c.h)
Worthwhile(d, w, h) == Full!PlanesMatch(d.pf, d.np) /\ Full!SizeMatches(d.pf, w, h)
SufficeOk(e, c) ==
  CASE c.op = "convert" ->
         (/\ Full!Describes(c.src, c.w, c.h) /\ Full!Describes(c.dst, c.w, c.h)
          /\ <<c.src.pf, c.dst.pf>> \in Conversions
          /\ Granted(c.src, c) /\ Granted(c.dst, c)) => e.out = Full!Ok
    [] c.op = "sizes" ->
         (/\ e.out = Full!Ok /\ ~Empty(c) /\ Worthwhile(c, c.w, c.h)
          /\ c.given => Len(c.strides) >= Full!PlaneCount(c.pf, c.np)
          /\ Len(e.array) >= Full!PlaneCount(c.pf, c.np)
          /\ Apart(c, c.w, c.h)) =>
            LET n == Full!PlaneCount(c.pf, c.np) IN
            \A p \in 1..n :
              Full!PlaneFits(PlaneTable[c.pf][n][p], c.w, c.h, Full!StrideOf(c, p), e.array[p])
    [] OTHER -> TRUE

StringOk(e, c) ==
  /\ c.op = "describe" => e.text = Description
  /\ c.op = "c_describe" => e.text = Description /\ e.handle \in Handles

EndOk(v, e, c) ==
  /\ (Judged("returns") /\ c.op \in {"convert", "sizes"}) => ReturnsOk(e, c)
  /\ (Judged("bounds") /\ c.op = "convert") => BoundsOk(v, e, c)
  /\ Judged("suffice") => SufficeOk(e, c)
  /\ (Judged("outcome") /\ c.op = "convert") => OutcomeOk(e, c)
  /\ (Judged("c_refusal") /\ c.op \in {"convert", "sizes"}) => CRefusalOk(e, c)
  /\ (Judged("sizes") /\ c.op = "sizes") => SizesOk(e, c)
  /\ (Judged("frame") /\ HasMemory(c)) => FrameOk(v, e, c)
  /\ (Judged("values") /\ HasMemory(c)) => ValuesOk(v, e, c)
  /\ Judged("strings") => StringOk(e, c)

Verdict == verdict.ev # 0 => EndOk(verdict, Trace[verdict.ev], verdict.c)

(***************************************************************************)
(* The recorded transitions.  Those inside the library are not recorded:   *)
(* they are taken when the call is back.                                   *)
(***************************************************************************)
TraceFill ==
  /\ E.e = "fill"
  /\ Fill(E.b, E.bytes)
  /\ nextEvent' = nextEvent + 1
  /\ verdict' = NoVerdict
  /\ UNCHANGED <<memAtBegin, granted>>

TraceBegin ==
  /\ E.e = "begin"
  /\ Begin(E.t, CallOf(E.call))
  /\ memAtBegin' = [memAtBegin EXCEPT ![E.t] = mem]
  /\ UNCHANGED granted
  /\ nextEvent' = nextEvent + 1
  /\ verdict' = NoVerdict

TraceInternal ==
  /\ E.e = "end"
  /\ (Build(E.t) \/ Built(E.t) \/ Start(E.t))
  /\ verdict' = NoVerdict
  /\ UNCHANGED <<nextEvent, memAtBegin, granted>>

\* Step and Finish, with the recorded effect
TraceFinish ==
  /\ E.e = "end"
  /\ calls[E.t].phase = "running"
  /\ mem' = Observed(E)
  /\ calls' = [calls EXCEPT ![E.t].phase = "done"]
  /\ IF calls[E.t].call.op = "c_describe"
     THEN /\ Judged("strings") => NewString(E.t, E.handle)
          /\ strings' = [h \in DOMAIN strings \union {E.handle} |->
                           IF h = E.handle THEN E.text ELSE strings[h]]
     ELSE UNCHANGED strings
  /\ verdict' = [ev |-> nextEvent, c |-> calls[E.t].call, m0 |-> memAtBegin[E.t], m1 |-> mem]
  /\ UNCHANGED <<ctx, builder, nextEvent, memAtBegin, granted>>

TraceEnd ==
  /\ E.e = "end"
  /\ End(E.t)
  /\ nextEvent' = nextEvent + 1
  /\ verdict' = NoVerdict
  /\ UNCHANGED <<memAtBegin, granted>>

\* A call nobody else interfered with: all of its steps
StringsAfter(c) ==
  CASE c.op = "c_describe" -> [h \in DOMAIN strings \union {E.handle} |->
                                IF h = E.handle THEN E.text ELSE strings[h]]
    [] c.op = "c_unref" -> [h \in DOMAIN strings \ {c.handle} |-> strings[h]]
    [] OTHER -> strings
TraceCall ==
  /\ E.e = "call"
  /\ calls[E.t].phase = "idle" /\ Busy = {}
  /\ \E c \in {CallOf(E.call)} :
     /\ Reads(c) \intersect Writes(c) = {}
     /\ c.op = "c_unref" => c.handle \in DOMAIN strings
     /\ (c.op = "c_describe" /\ Judged("strings")) => NewString(E.t, E.handle)
     /\ strings' = StringsAfter(c)
     /\ mem' = IF HasMemory(c) THEN Observed(E) ELSE mem
     /\ IF c.op \in {"describe", "c_describe"} THEN ctx' = "ready" ELSE UNCHANGED ctx
     /\ granted' = IF c.op = "sizes" /\ E.out = Full!Ok /\ c.slots > 0
                   THEN <<Grant(c, E.array)>> \o (IF granted = << >> THEN << >> ELSE <<granted[1]>>)
                   ELSE granted
     /\ verdict' = [ev |-> nextEvent, c |-> c, m0 |-> mem, m1 |-> mem]
  /\ nextEvent' = nextEvent + 1
  /\ UNCHANGED <<builder, calls, memAtBegin>>

\* Somebody looks at a C string
TraceRead ==
  /\ E.e = "read"
  /\ E.handle \in DOMAIN strings
  /\ Judged("strings") => E.text = strings[E.handle]
  /\ nextEvent' = nextEvent + 1
  /\ verdict' = NoVerdict
  /\ UNCHANGED <<vars, memAtBegin, granted>>

TraceNext ==
  /\ nextEvent <= Len(Trace)
  /\ TraceFill \/ TraceBegin \/ TraceInternal \/ TraceFinish \/ TraceEnd
     \/ TraceCall \/ TraceRead

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* The invariants of the design hold in recorded histories, too
TraceInv == (ctx = "busy") = (builder # Nobody)

\* A behaviour goes on where nothing is wrong
Go == Verdict /\ TLCSet(1, nextEvent)

\* The whole trace was explained.  Otherwise the event that was not is printed.
Explained ==
  IF TLCGet(1) > Len(Trace) THEN PrintT(<<"EXPLAINED", Len(Trace)>>)
  ELSE /\ PrintT(<<"REJECTED", TLCGet(1)>>)
       /\ FALSE
=============================================================================
