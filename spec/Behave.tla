-------------------------------- MODULE Behave ------------------------------
(***************************************************************************)
(* Writes behaviours of Dcp down, to be made by the real library: threads  *)
(* whose calls overlap, over shared memory, with all that each of them     *)
(* leaves behind.  For TLC's simulation mode.  Calls are drawn from all    *)
(* conversions, with sizes around those where vector units take over, and  *)
(* some of them are refused.                                               *)
(***************************************************************************)
EXTENDS Dcp, Json, IOUtils, SequencesExt

CONSTANTS MaxCalls,    \* in a behaviour
          Objects, ObjectSize

VARIABLES id, log, made
bvars == <<ctx, builder, mem, calls, strings, id, log, made>>

\* A number below n for each k, given one random number: what is drawn has to
\* stay the same wherever TLC evaluates it
Mix(r, k) == ((r % 30011) * (k * 797 + 13) + (r \div 30011) * (k * 31 + 7)) % 65521
Draw(r, k, n) == (Mix(r, k) \div 3) % n
Pick(r, k, s) == s[1 + Draw(r, k, Len(s))]

Spaces(s, d) ==
  IF IsRgbFormat(s) /\ IsRgbFormat(d) THEN {<<CsRgb, CsRgb>>}
  ELSE IF IsRgbFormat(s) THEN {<<CsRgb, c>> : c \in YuvSpaces}
  ELSE {<<c, CsRgb>> : c \in YuvSpaces}
AllConversions ==
  TLCEval(SetToSeq(UNION {{<<x[1], cs[1], n, x[2], cs[2], m>> :
            cs \in Spaces(x[1], x[2]), n \in PlaneCounts(x[1]), m \in PlaneCounts(x[2])} : x \in Conversions}))

\* The first byte is that of the object; objects that no running call uses
\* come in an order that depends on r
Used == UNION {Reads(calls[t].call) \union Writes(calls[t].call) : t \in Busy}
Written == UNION {Writes(calls[t].call) : t \in Busy}
Turn(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
First(s, n) == SubSeq(s, 1, IF n <= Len(s) THEN n ELSE Len(s))
ObjectSeq == TLCEval(SetToSeq(Objects))
Free(r) == SelectSeq(Turn(ObjectSeq, Draw(r, 1, Len(ObjectSeq))), LAMBDA b : b \notin Used)
Readable(r, not) == SelectSeq(Turn(ObjectSeq, Draw(r, 2, Len(ObjectSeq))), LAMBDA b : b \notin Written /\ b \notin not)

Widths == <<1, 2, 2, 3, 4, 5, 7, 8, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34>>
Heights == <<1, 2, 2, 2, 3, 4>>
PadsOf == <<0, 0, 1, 3, 7>>
Even(n, is) == IF is THEN n + (n % 2) ELSE n

\* One side of a conversion: strides and lengths of its planes
SideFrom(r, k, pf, cs, np, w, h, bufs, wrong) ==
  LET pa == PlaneTable[pf][np]
      given == Draw(r, k, 3) # 0
      st == TLCEval([p \in 1..np |->
              IF Draw(r, k + p, 4) = 0 THEN 0 ELSE Tiny!AreaRow(pa[p][1], w) + Pick(r, k + 3 + p, PadsOf)])
      short == Draw(r, k + 8, 12) = 0
      ln == TLCEval([p \in 1..np |->
              Tiny!PlaneNeeds(pa[p], w, h, IF given THEN st[p] ELSE 0)
              + (IF short /\ p = 1 THEN -1 ELSE Pick(r, k + 9 + p, <<0, 0, 0, 1, 5>>))])
  IN  [pf |-> pf, cs |-> IF wrong = 1 THEN (cs + 1) % 5 ELSE cs, np |-> Big(IF wrong = 2 THEN np + 1 ELSE np),
       given |-> given,
       strides |-> IF given THEN TLCEval([p \in 1..np |-> Big(st[p])]) ELSE <<>>,
       lens |-> TLCEval([p \in 1..np |-> Big(ln[p])]), bufs |-> bufs, nullPlanes |-> {}]
FitsObjects(s) == \A p \in 1..Len(s.lens) : BigLeq(s.lens[p], Big(ObjectSize))

ConvertFrom(r) ==
  LET x == Pick(r, 3, AllConversions)
      ew == EvenWidth(x[1]) \/ EvenWidth(x[4])
      eh == EvenHeight(x[1]) \/ EvenHeight(x[4])
      w == Even(Pick(r, 4, Widths), ew)
      h == Even(Pick(r, 5, Heights), eh)
      free == Free(r)
      db == First(free, x[6])
      sb == First(Readable(r, SetOf(db)), x[3])
      wrong == IF Draw(r, 6, 12) = 0 THEN 1 + Draw(r, 7, 2) ELSE 0
      short == \E k \in {10, 24} : Draw(r, k + 8, 12) = 0
  IN  [op |-> "convert", api |-> IF short \/ wrong = 2 \/ Draw(r, 50, 2) = 0 THEN "rust" ELSE "c", w |-> Big(IF Draw(r, 8, 25) = 0 THEN 0 ELSE w), h |-> Big(h),
       src |-> SideFrom(r, 10, x[1], x[2], x[3], w, h, sb, 0),
       dst |-> SideFrom(r, 24, x[4], x[5], x[6], w, h, db, wrong), nulls |-> {}]
Possible(c) ==
  /\ Len(c.src.bufs) = Len(c.src.lens) /\ Len(c.dst.bufs) = Len(c.dst.lens)
  /\ FitsObjects(c.src) /\ FitsObjects(c.dst)

SizesFrom(r) ==
  LET pf == Draw(r, 3, 9)
      n == Len(Areas(pf))
  IN  [op |-> "sizes", api |-> IF Draw(r, 50, 2) = 0 THEN "rust" ELSE "c", w |-> Big(Pick(r, 4, Widths)), h |-> Big(Pick(r, 5, Heights)),
       pf |-> pf, cs |-> Draw(r, 6, 5), np |-> Big(IF Draw(r, 7, 5) = 0 THEN Draw(r, 8, 5) ELSE n), given |-> FALSE,
       strides |-> <<>>, slots |-> 3, nulls |-> {}]

Releasable == Owned
CallFrom(r) ==
  LET k == Draw(r, 0, 14) IN
  CASE k = 0 -> [op |-> "describe"]
    [] k \in {1, 2} -> [op |-> "c_describe"]
    [] k = 3 -> IF Releasable = {} THEN [op |-> "c_describe"]
                ELSE [op |-> "c_unref", handle |-> Pick(r, 9, SetToSeq(Releasable))]
    [] k = 4 -> SizesFrom(r)
    [] OTHER -> LET c == ConvertFrom(r) IN IF Possible(c) THEN c ELSE [op |-> "describe"]

Memory0(r) == TLCEval([b \in Objects |-> TLCEval([k \in 1..ObjectSize |->
                CASE Draw(r, 40, 4) = 0 -> (Mix(r, k % 37) + k * k) % 256
                  [] Draw(r, 40, 4) = 1 -> IF (Mix(r + k, 3) % 7) < 3 THEN 255 ELSE 0
                  [] OTHER -> Mix(r + k * 31, k % 23) % 256])])

BInit ==
  /\ Init([b \in Objects |-> <<>>])
  /\ id = 0 /\ log = <<>> /\ made = 0

BStart ==
  /\ id = 0
  /\ \E r \in {RandomElement(1..900000000)} : id' = r /\ mem' = Memory0(r) /\ log' = <<[e |-> "mem", mem |-> mem']>>
  /\ UNCHANGED <<ctx, builder, calls, strings, made>>

\* more strings are not made than there is room for
StringRoom == Cardinality(DOMAIN strings) + Cardinality({u \in Busy : calls[u].call.op = "c_describe" /\ calls[u].phase # "done"})
                < Cardinality(Handles)
BBegin(t) ==
  /\ id # 0 /\ made < MaxCalls
  /\ \E r \in {RandomElement(1..900000000)} : \E c \in {CallFrom(r)} :
       /\ c.op = "c_describe" => StringRoom
       /\ Begin(t, c)
       /\ log' = Append(log, [e |-> "begin", t |-> t, call |-> c])
  /\ made' = made + 1
  /\ UNCHANGED id

BInternal(t) == id # 0 /\ Internal(t) /\ UNCHANGED <<id, made>>
                /\ log' = IF calls'[t].phase = "done" /\ calls[t].call.op = "c_describe"
                          THEN Append(log, [e |-> "string", t |-> t,
                                            handle |-> calls'[t].handle])
                          ELSE log

BEnd(t) ==
  /\ id # 0 /\ End(t) /\ UNCHANGED <<id, made>>
  /\ LET c == calls[t].call IN
     log' = Append(log, [e |-> "end", t |-> t, result |-> calls[t].result,
                         after |-> IF Writes(c) = {} THEN <<>>
                                   ELSE [k \in 1..Len(c.dst.bufs) |-> [b |-> c.dst.bufs[k], bytes |-> mem[c.dst.bufs[k]]]]])

\* Nobody waits before everything has been begun, mostly: more calls overlap
BNext ==
  \/ BStart
  \/ \E t \in Threads : BBegin(t)
  \/ \E t \in Threads : BInternal(t)
  \/ \E t \in Threads : BEnd(t)

Over == id # 0 /\ made = MaxCalls /\ Busy = {}
Write == Over => JsonSerialize(IOEnv.OUT \o ToString(id) \o ".json", [id |-> id, log |-> log])

\* the design's own invariants, on the way
BInv ==
  /\ (ctx = "busy") = (builder # Nobody)
  /\ \A t \in Threads : calls[t].phase = "done" => calls[t].result = Result(calls[t].call)
  /\ \A s \in DOMAIN strings : strings[s] = Description

BThreads == {"t1", "t2", "t3"}
BHandles == {"s1", "s2", "s3", "s4"}
BObjects == {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9"}
=============================================================================
