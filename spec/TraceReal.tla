----------------------------- MODULE TraceReal -----------------------------
(* Recorded particle problems: each scene solved in several ways and after
   transformations; the first event of a scene is what the others follow. *)
EXTENDS Real, TraceBase

VARIABLE l
E == Trace[l]
Discs(v) == [i \in 1..(Len(v) \div 6) |-> SubSeq(v, 6 * i - 5, 6 * i)]
Scene(e) == [kind |-> e.kind, op |-> e.op, n |-> e.n, per |-> e.per, h |-> e.h, dp |-> e.dp,
             parts |-> Discs(e.parts), wall |-> e.wall, body |-> e.body, sing |-> e.sing]
Result(e) == [fld |-> e.fld, prs |-> e.prs, vel |-> e.vel, frc |-> e.frc, trq |-> e.trq]

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Top(_, _)
Top(s, k) == IF k = 0 THEN 0 ELSE LET m == Top(s, k - 1) IN IF Abs(s[k]) > m THEN Abs(s[k]) ELSE m
(* equal up to rounding and the tolerance of the inner solver *)
Close(what, got, want, big) ==
  IF Len(got) # Len(want) THEN Is(what \o ": length", l, Len(got), Len(want))
  ELSE LET tol == 20 + big \div 5000
           bad == {k \in 1..Len(got) : Abs(got[k] - want[k]) > tol}
       IN IF bad = {} THEN TRUE
          ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
               IN Is(what \o " at " \o ToString(k), l, got[k], want[k])

Follows(what, want) ==
  /\ Close(what \o ": fluid velocity", E.fld, want.fld, Top(want.fld, Len(want.fld)))
  /\ Close(what \o ": pressure", E.prs, want.prs, Top(want.prs, Len(want.prs)))
  /\ Close(what \o ": velocities of the discs", E.vel, want.vel, Top(want.vel, Len(want.vel)))
  /\ Close(what \o ": forces", E.frc, want.frc, Top(want.frc, Len(want.frc)))
  /\ Close(what \o ": torques", E.trq, want.trq, Top(want.trq, Len(want.trq)))

Base == CHOOSE j \in 1..l : Trace[j].ev = "real" /\ Trace[j].scene = E.scene
                            /\ \A i \in 1..(j - 1) : Trace[i].ev = "real" => Trace[i].scene # E.scene
Solved ==
  /\ E.ev = "real"
  /\ LET s == Scene(E)
         b == Trace[Base]
     IN /\ IF Rigid(s) THEN \E r \in {TLCEval(RigidAnswer(s))} : Follows("rigid motion", r) ELSE TRUE
        /\ IF Base = l THEN TRUE
           ELSE /\ Assert(Allowed(E.t, E.arg, Scene(b)) /\ Apply(E.t, E.arg, Scene(b)) = s, "not the scene announced")
                /\ \E r \in {TLCEval(Answer(E.t, E.arg, s, Result(b)))} : Follows(E.t, r)

Init == l = 1
Next == l <= Len(Trace) /\ (Solved \/ EndOf(l)) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
