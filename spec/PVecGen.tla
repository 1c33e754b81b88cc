------------------------------- MODULE PVecGen -------------------------------
(* Random behaviours of the distributed fields, as scripts for the code
   (tlc -simulate).  Two fields; entries are named by a process number and a
   position, both taken modulo what the real partition has. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
VARIABLES hist, fresh
Kinds == {"fill", "fillg", "set", "inc", "setg", "incg", "add", "ins", "g2l"}
Step(op, p, r, k, f, v) ==
  /\ Len(hist) < LEN
  /\ hist' = Append(hist, [op |-> op, p |-> p, r |-> r, k |-> k, f |-> f, v |-> v])
Init == hist = <<>> /\ fresh = {}
(* a copy may only be used once it has been filled or refreshed *)
Rnd(S) == RandomElement({x + 0 * Len(hist) : x \in S})
Do(op) == \E p \in {Rnd(0..2) \div 2}, r \in {Rnd(0..11)}, k \in {Rnd(0..999)},
             f \in {Rnd(0..2)}, v \in {Rnd(-9..9)} :
            /\ op \in {"set", "inc", "add", "ins"} => p \in fresh
            /\ fresh' = IF op \in {"fill", "g2l"} THEN fresh \cup {p} ELSE fresh
            /\ Step(op, p, r, k, f, v)
Next == \/ \E op \in Kinds : Do(op)
        \/ Do("set") \/ Do("inc") \/ Do("setg")
Spec == Init /\ [][Next]_<<hist, fresh>>
Emit == Len(hist) = LEN => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
