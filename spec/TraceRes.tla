------------------------------ MODULE TraceRes ------------------------------
(* Recorded usage of repeated cycles of operations against module Res. *)
EXTENDS Res, TraceBase

VARIABLES l, seen      \* seen: what was held, by measure and place, in the rounds so far
E == Trace[l]
Measures == {"obj", "mem", "cpp"}
(* the last round of a cycle: at no place may what is held have grown in every round *)
Leaking(u) == {<<m, k>> : m \in Measures, k \in 1..E.ops} \cap {<<m, k>> \in Measures \X (1..E.ops) : Grows(u[m][k])}
ResEv ==
  /\ E.ev = "res"
  /\ LET old == IF E.round = 1 THEN [m \in Measures |-> [k \in 1..E.ops |-> <<>>]] ELSE seen
         now == [m \in Measures |-> [k \in 1..E.ops |-> Append(old[m][k], E[m][k])]]
     IN \E u \in {TLCEval(now)} :
          /\ seen' = u
          /\ E.round = Len(u["obj"][1])
          /\ IF E.round < E.rounds THEN TRUE ELSE Is("held more after every round", l, Leaking(u), {})

Init == l = 1 /\ seen = <<>>
Next == l <= Len(Trace) /\ ((ResEv) \/ (EndOf(l) /\ UNCHANGED seen)) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
