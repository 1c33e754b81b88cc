------------------------------- MODULE RotGen -------------------------------
(* Random histories of rotations and their inverses, as scripts for the code
   (tlc -simulate); coordinates are multiples of M, so that every intermediate
   point has integer coordinates. *)
EXTENDS Geo, TLC, Json
CONSTANTS LEN, M
G3 == <<[n |-> <<0, 0, 1>>, m |-> 1, c |-> 0, s |-> 1, q |-> 1],
        [n |-> <<-1, 0, 0>>, m |-> 1, c |-> 3, s |-> 4, q |-> 5],
        [n |-> <<0, 1, 0>>, m |-> 1, c |-> -4, s |-> 3, q |-> 5],
        [n |-> <<0, 3, 4>>, m |-> 5, c |-> -1, s |-> 0, q |-> 1],
        [n |-> <<2, -1, 2>>, m |-> 3, c |-> 0, s |-> -1, q |-> 1],
        [n |-> <<0, 0, 1>>, m |-> 1, c |-> 3, s |-> -4, q |-> 5],
        [n |-> <<-1, 2, 2>>, m |-> 3, c |-> -1, s |-> 0, q |-> 1]>>
G2 == <<[n |-> <<0, 0, 1>>, m |-> 1, c |-> 0, s |-> 1, q |-> 1],
        [n |-> <<0, 0, 1>>, m |-> 1, c |-> 3, s |-> 4, q |-> 5],
        [n |-> <<0, 0, 1>>, m |-> 1, c |-> -4, s |-> 3, q |-> 5],
        [n |-> <<0, 0, 1>>, m |-> 1, c |-> -1, s |-> 0, q |-> 1],
        [n |-> <<0, 0, 1>>, m |-> 1, c |-> -4, s |-> -3, q |-> 5]>>
VARIABLES D, hist, back   \* back: what can be undone, last first
Gs == IF D = 3 THEN G3 ELSE G2
Need(b) == Prod([i \in 1..Len(b) |-> Den(Gs[Abs(b[i])])])
Init == D \in {2, 3} /\ hist = <<>> /\ back = <<>>
Turn(k) == /\ Len(hist) < LEN
           /\ M % (Need(back) * Den(Gs[Abs(k)])) = 0
           /\ hist' = Append(hist, k) /\ back' = <<k>> \o back /\ UNCHANGED D
Undo == /\ Len(hist) < LEN /\ back # <<>>
        /\ hist' = Append(hist, -Head(back)) /\ back' = Tail(back) /\ UNCHANGED D
Next == Undo \/ \E k \in 1..Len(Gs) : Turn(k) \/ Turn(-k)
Spec == Init /\ [][Next]_<<D, hist, back>>
Emit == Len(hist) = LEN => PrintT(<<"SCRIPT", ToJson([D |-> D, steps |-> hist, gens |-> Gs])>>)
=============================================================================
