------------------------------- MODULE OptGen -------------------------------
(* Random histories of options, as scripts for the code (tlc -simulate). *)
EXTENDS Out, Json
CONSTANTS LEN
VARIABLE hist
Init == hist = <<>>
Rnd(S) == RandomElement({<<x, 0 * Len(hist)>> : x \in S})[1]
Value(k) == IF k \in {"mx", "my", "mz"} THEN Rnd(4..9)
            ELSE IF k \in {"Lx", "Ly", "Lz"} THEN Rnd(1..12) * 250
            ELSE IF k = "ksp" THEN Rnd(1..3) ELSE Rnd(0..1)
Step(op, k, v) == Len(hist) < LEN /\ hist' = Append(hist, [op |-> op, key |-> k, val |-> v])
GiveKeys == Keys(3) \cup {"ksp"}
Given == {hist[i].key : i \in {j \in DOMAIN hist : hist[j].op = "set"}}
Set == \E k \in {Rnd(GiveKeys)} : Step("set", k, Value(k))
Clear == Given # {} /\ \E k \in {Rnd(Given)} : Step("clear", k, 0)
Other == \E op \in {Rnd({"proc2", "proc3", "proc2", "new2", "new3", "make"})} : Step(op, "", 0)
Make == Step("make", "", 0)
Next == Set \/ Set \/ Set \/ Other \/ (IF Rnd(1..3) = 1 THEN Clear ELSE FALSE) \/ (IF Rnd(1..2) = 1 THEN Make ELSE FALSE)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = LEN => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
