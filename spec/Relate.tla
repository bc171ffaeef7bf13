-------------------------------- MODULE Relate -------------------------------
(***************************************************************************)
(* Checks recorded pairs of calls: two instruction sets, two interfaces,   *)
(* two layouts, alone and among others.  Whether either result is right is *)
(* none of this module's business; the two must agree.                     *)
(*                                                                         *)
(* Each line of PAIRS is [kind, a, b]; a and b are                         *)
(*   call    as in histories                                               *)
(*   mem     memory object -> its bytes, when the call began               *)
(*   out     the outcome                                                   *)
(*   after   memory object -> its bytes, of those that changed             *)
(* and kind says what they have in common:                                 *)
(*   "call"    the same arguments and the same memory                      *)
(*   "args"    the same arguments and source bytes, other destination bytes*)
(*   "image"   the same image in another layout                            *)
(***************************************************************************)
EXTENDS Recorded

Pairs == TLCEval(ndJsonDeserialize(IOEnv.PAIRS))

VARIABLES nextPair, pair

Known(s, m) == \A k \in 1..Len(s.bufs) : s.bufs[k] \in DOMAIN m
Before(x) == x.mem
AfterOf(x) == [b \in DOMAIN x.mem |-> IF b \in DOMAIN x.after THEN x.after[b] ELSE x.mem[b]]

\* The image on one side: each channel, sample by sample
ImageOf(side, w, h, m) ==
  LET img == Placed(side, w, m)
      W   == Small(w)
      H   == Small(h)
      Of(c) == LET at == Where[img.pf][img.np][c] IN
               TLCEval([j \in 0..((IF at.sy = 1 THEN H \div 2 ELSE H) - 1) |->
                  [i \in 0..((IF at.sx = 1 THEN W \div 2 ELSE W) - 1) |->
                     Sample(img, H, c, IF at.sx = 1 THEN 2 * i ELSE i, IF at.sy = 1 THEN 2 * j ELSE j)]])
  IN  [c \in ChannelsOf(img.pf) |-> Of(c)]

\* Both calls ask for the same
SameRequest(a, b) ==
  /\ a.w = b.w /\ a.h = b.h
  /\ a.src.pf = b.src.pf /\ a.src.cs = b.src.cs
  /\ a.dst.pf = b.dst.pf /\ a.dst.cs = b.dst.cs
SameArguments(a, b) ==
  /\ SameRequest(a, b)
  /\ [a.src EXCEPT !.bufs = <<>>] = [b.src EXCEPT !.bufs = <<>>]
  /\ [a.dst EXCEPT !.bufs = <<>>] = [b.dst EXCEPT !.bufs = <<>>]
  /\ a.nulls = b.nulls
Bytes(s, m) == [k \in 1..Len(s.bufs) |-> m[s.bufs[k]]]

\* Images can be looked at
HasImages(c) == Full!ConvertOutcome(c) = Full!Ok /\ ~Empty(c)

\* The pair is what its kind says (otherwise the recording is worthless)
Proper(p, a, b) ==
  CASE p.kind = "call" -> /\ SameArguments(a, b)
                          /\ Bytes(a.src, p.a.mem) = Bytes(b.src, p.b.mem)
                          /\ Bytes(a.dst, p.a.mem) = Bytes(b.dst, p.b.mem)
    [] p.kind = "args" -> SameArguments(a, b) /\ Bytes(a.src, p.a.mem) = Bytes(b.src, p.b.mem)
    [] p.kind = "image" -> /\ SameRequest(a, b) /\ HasImages(a) /\ HasImages(b)
                           /\ ImageOf(a.src, a.w, a.h, p.a.mem) = ImageOf(b.src, b.w, b.h, p.b.mem)

\* What must be the same then
Agree(p, a, b) ==
  /\ p.a.out = p.b.out
  /\ p.kind = "call" => Bytes(a.dst, AfterOf(p.a)) = Bytes(b.dst, AfterOf(p.b))
  /\ (p.a.out = Full!Ok /\ HasImages(a) /\ HasImages(b)
      /\ Full!DestinationApart(a) /\ Full!DestinationApart(b)) =>
       ImageOf(a.dst, a.w, a.h, AfterOf(p.a)) = ImageOf(b.dst, b.w, b.h, AfterOf(p.b))

NoPair == 0
Init0 == nextPair = 1 /\ pair = NoPair
Next0 == nextPair <= Len(Pairs) /\ pair' = nextPair /\ nextPair' = nextPair + 1

IsProper == pair # NoPair => LET p == Pairs[pair] IN Proper(p, CallOf(p.a.call), CallOf(p.b.call))
Agreement == pair # NoPair => LET p == Pairs[pair] IN Agree(p, CallOf(p.a.call), CallOf(p.b.call))

Go == Agreement /\ TLCSet(1, nextPair)
Explained ==
  IF TLCGet(1) > Len(Pairs) THEN PrintT(<<"EXPLAINED", Len(Pairs)>>)
  ELSE /\ PrintT(<<"REJECTED", TLCGet(1)>>)
       /\ FALSE

\* (the process itself is of no interest here)
PairThreads == {}
PairHandles == {}
Quiet == UNCHANGED vars
PairInit == /\ Init0 /\ ctx = "none" /\ builder = Nobody /\ mem = << >> /\ calls = << >> /\ strings = << >>
PairNext == Next0 /\ Quiet
=============================================================================
