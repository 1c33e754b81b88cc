-------------------------------- MODULE Res --------------------------------
(* What a problem that lives long holds: work vectors, which it keeps in a pool and lends again, *)
(* and objects and memory made and dropped by its operations.                                    *)
(*                                                                                               *)
(* An operation is a sequence of steps "take" (a work vector: from the pool, made when the pool  *)
(* has none), "give" (it back to the pool), "make", "drop" (an object). It never gives or drops  *)
(* what it has not got.                                                                          *)
EXTENDS Integers, Sequences

Steps == {"take", "give", "make", "drop"}
Count(op, x) == Len(SelectSeq(op, LAMBDA y : y = x))
Fair(op) == \A k \in 1..Len(op) : LET p == SubSeq(op, 1, k) IN Count(p, "give") <= Count(p, "take") /\ Count(p, "drop") <= Count(p, "make")
(* everything is given back and dropped *)
Clean(op) == Count(op, "take") = Count(op, "give") /\ Count(op, "make") = Count(op, "drop")

Nothing == [pool |-> 0, out |-> 0, live |-> 0]
Do(h, s) ==
  CASE s = "take" -> [h EXCEPT !.pool = IF @ = 0 THEN 0 ELSE @ - 1, !.out = @ + 1]
    [] s = "give" -> [h EXCEPT !.pool = @ + 1, !.out = @ - 1]
    [] s = "make" -> [h EXCEPT !.live = @ + 1]
    [] s = "drop" -> [h EXCEPT !.live = @ - 1]
Held(h) == h.pool + h.out + h.live

(* what is held at the same place of round after round of a cycle of operations: that something *)
(* is left behind shows as growth in every round after the second; caches fill once             *)
Settling == 2
Grows(u) == \A r \in Settling..(Len(u) - 1) : u[r + 1] > u[r]
Still(u) == \A r \in Settling..(Len(u) - 1) : u[r + 1] = u[r]
=============================================================================
