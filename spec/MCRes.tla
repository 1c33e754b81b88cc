------------------------------- MODULE MCRes -------------------------------
(* All cycles of up to NOPS operations of up to LMAX steps, for ROUNDS rounds: what is held stays *)
(* the same after the first rounds where all operations are clean, and grows in every round at    *)
(* every place where one is not. (What the recorded usage of the code is judged by.)              *)
EXTENDS Res, TLC

CONSTANTS NOPS, LMAX, ROUNDS

Words == UNION {[1..n -> Steps] : n \in 0..LMAX}
Ops == {w \in Words : Fair(w)}
Cycles == UNION {[1..n -> Ops] : n \in 1..NOPS}

VARIABLES cyc, h, op, step, round, use
vars == <<cyc, h, op, step, round, use>>

Init == cyc = <<>> /\ h = Nothing /\ op = 1 /\ step = 0 /\ round = 0 /\ use = <<>>
Pick ==
  /\ round = 0
  /\ \E c \in Cycles : cyc' = c /\ use' = [k \in DOMAIN c |-> <<>>]
  /\ round' = 1
  /\ UNCHANGED <<h, op, step>>
Step ==
  /\ round > 0 /\ round <= ROUNDS
  /\ step < Len(cyc[op])
  /\ step' = step + 1
  /\ h' = Do(h, cyc[op][step + 1])
  /\ UNCHANGED <<cyc, op, round, use>>
(* the operation is over: what is held is noted *)
Over ==
  /\ round > 0 /\ round <= ROUNDS
  /\ step = Len(cyc[op])
  /\ use' = [use EXCEPT ![op] = Append(@, Held(h))]
  /\ step' = 0
  /\ IF op = Len(cyc) THEN op' = 1 /\ round' = round + 1 ELSE op' = op + 1 /\ round' = round
  /\ UNCHANGED <<cyc, h>>
Next == Pick \/ Step \/ Over
Spec == Init /\ [][Next]_vars

TypeOK == h.pool >= 0 /\ h.out >= 0 /\ h.live >= 0 /\ Held(h) >= 0
Tidy == \A k \in DOMAIN cyc : Clean(cyc[k])
(* between operations nothing is out, and nothing is live, exactly when the operations so far were clean *)
GivenBack == (step = 0 /\ Tidy) => (h.out = 0 /\ h.live = 0)
(* the pool never holds more than the largest need of one operation *)
Peak(w) == CHOOSE m \in 0..Len(w) : (\E k \in 0..Len(w) : m = Count(SubSeq(w, 1, k), "take") - Count(SubSeq(w, 1, k), "give"))
                                    /\ \A k \in 0..Len(w) : m >= Count(SubSeq(w, 1, k), "take") - Count(SubSeq(w, 1, k), "give")
PoolBounded == (step = 0 /\ Tidy) => \A k \in DOMAIN cyc : round > 1 => h.pool >= Peak(cyc[k])
PoolNeeded == Tidy => (h.pool + h.out = 0 \/ \E k \in DOMAIN cyc : h.pool + h.out <= Peak(cyc[k]))
Done == round = ROUNDS + 1
Judged == Done => \A k \in DOMAIN cyc : IF Tidy THEN Still(use[k]) ELSE Grows(use[k])
=============================================================================
