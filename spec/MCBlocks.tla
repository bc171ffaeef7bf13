------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* How an implementation may go through an image: rows fall into blocks of *)
(* Lanes pixels that a vector unit converts at once and a rest that is     *)
(* converted pixel by pixel, in any order.  The unit loads Reach bytes at  *)
(* a time, which may be more than its pixels have.                         *)
(*                                                                         *)
(* Promised, whatever the width, the padding and the length of the buffer: *)
(* every pixel is converted exactly once, so the result is that of the     *)
(* pixelwise conversion in any order (C08); and no load leaves the buffer  *)
(* (C02), which depends on which blocks the unit is given.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Depth,     \* bytes per pixel
          Lanes, Reach,
          MaxW, MaxH, MaxPad,
          Policy     \* "whole": every whole block goes to the unit
                     \* "room": only where its load stays inside the buffer
                     \* "row": only where its load stays inside the row

VARIABLES w, h, pad, len, done, out
vars == <<w, h, pad, len, done, out>>

Stride == w * Depth + pad
Starts == {x \in 0..w : x % Lanes = 0 /\ x + Lanes <= w}
Room(x, y) ==
  CASE Policy = "whole" -> TRUE
    [] Policy = "room"  -> y * Stride + x * Depth + Reach <= len
    [] Policy = "row"   -> x * Depth + Reach <= w * Depth
VectorBlocks == {<<x, y>> \in Starts \X (0..(h - 1)) : Room(x, y)}
\* the columns of a row that the unit does not convert
Rest(y) == {x \in 0..(w - 1) : <<x - (x % Lanes), y>> \notin VectorBlocks}
Tasks == {[y |-> b[2], from |-> b[1], n |-> Lanes, load |-> Reach] : b \in VectorBlocks}
         \union UNION {{[y |-> y, from |-> x, n |-> 1, load |-> Depth] : x \in Rest(y)} : y \in 0..(h - 1)}

Pixel(x, y) == 1 + x + y * w

Init ==
  /\ w \in 1..MaxW /\ h \in 1..MaxH /\ pad \in 0..MaxPad
  \* the last row may end with its last pixel, or have (some of) the padding
  /\ len \in {Stride * (h - 1) + w * Depth, Stride * h}
  /\ done = {}
  /\ out = [p \in (0..(w - 1)) \X (0..(h - 1)) |-> 0]
Do(t) ==
  /\ t \notin done
  /\ done' = done \union {t}
  /\ out' = [p \in DOMAIN out |->
       IF p[2] = t.y /\ p[1] >= t.from /\ p[1] < t.from + t.n THEN out[p] + Pixel(p[1], p[2]) ELSE out[p]]
  /\ UNCHANGED <<w, h, pad, len>>
Next == \E t \in Tasks : Do(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LoadsInside == \A t \in done : t.y * Stride + t.from * Depth + t.load <= len
Once == \A p \in DOMAIN out : out[p] \in {0, Pixel(p[1], p[2])}
Same == done = Tasks => \A p \in DOMAIN out : out[p] = Pixel(p[1], p[2])
Ends == <>[](done = Tasks)
=============================================================================
