------------------------------- MODULE LifeGen -------------------------------
(* Random histories of a particle problem, as scripts for the code
   (tlc -simulate): set up its right-hand side, solve it (k applications of the
   operator by the outer iteration), change the motions and forces imposed on
   the particles, move them, ask for velocities and forces. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
VARIABLES hist, ready, solved
Step(o, k) == /\ Len(hist) < LEN
              /\ hist' = Append(hist, [op |-> o, k |-> k])
Init == hist = <<>> /\ ready = FALSE /\ solved = FALSE
Rnd(S) == RandomElement({x + 0 * Len(hist) : x \in S})
Setup  == Step("setup", 0) /\ ready' = TRUE /\ UNCHANGED solved
Solve  == ready /\ Step("solve", Rnd(0..3)) /\ solved' = TRUE /\ UNCHANGED ready
Change == Step("change", 0) /\ UNCHANGED <<ready, solved>>
Move   == solved /\ Step("move", 0) /\ ready' = FALSE /\ solved' = FALSE
Velo   == solved /\ Step("velo", 0) /\ UNCHANGED <<ready, solved>>
Forces == Step("sforce", 0) /\ UNCHANGED <<ready, solved>>
Next == \/ Setup \/ Solve \/ Change \/ Move \/ Velo
        \/ Solve /\ Len(hist) >= 0
        \/ Forces
Spec == Init /\ [][Next]_<<hist, ready, solved>>
Emit == Len(hist) = LEN => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
