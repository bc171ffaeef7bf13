------------------------------ MODULE Recorded ------------------------------
(***************************************************************************)
(* How the harness writes down calls.                                      *)
(***************************************************************************)
EXTENDS Dcp, Json, IOUtils

\* JSON has lists where the specification has sets
AsSet(l) == {l[k] : k \in 1..Len(l)}
SideOf(s) == [pf |-> s.pf, cs |-> s.cs, np |-> s.np, given |-> s.given, strides |-> s.strides,
              lens |-> s.lens, bufs |-> s.bufs, nullPlanes |-> AsSet(s.nulls)]
CallOf(c) ==
  CASE c.op = "convert" -> [op |-> "convert", api |-> c.api, w |-> c.w, h |-> c.h,
                            src |-> SideOf(c.src), dst |-> SideOf(c.dst), nulls |-> AsSet(c.nulls)]
    [] c.op = "sizes" -> [op |-> "sizes", api |-> c.api, w |-> c.w, h |-> c.h, pf |-> c.pf,
                          cs |-> c.cs, np |-> c.np, given |-> c.given, strides |-> c.strides,
                          slots |-> Len(c.array), nulls |-> AsSet(c.nulls), array |-> c.array]
    [] c.op = "c_unref" -> [op |-> c.op, handle |-> c.handle]
    [] OTHER -> [op |-> c.op]
=============================================================================
