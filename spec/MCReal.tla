------------------------------- MODULE MCReal -------------------------------
(* The transformations of scenes act as they should: what is done to a scene
   and undone gives the scene back, and the same for its answer; mirrors and
   turns commute as reflections of a rectangle do; every transformation keeps
   the discs inside the domain, and takes the known answer of a rigid motion
   to the known answer of the transformed scene.

   States are a scene with some answer; the actions are the transformations. *)
EXTENDS Real, TLC

CONSTANTS NS, PERS, HS, VELS, DEPTH

PersC == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
HsC == {<<1, 1>>, <<1, 2>>}
VelsC == {<<3, -5, 1>>}

VARIABLES s, r, undo, s0, r0, depth
vars == <<s, r, undo, s0, r0, depth>>
Nothing == [t |-> "none", g |-> <<>>]

Motions == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 2, 1>>, <<0, -1, -2>>}
Discs(q, v) ==      \* two discs near two corners, with motions v
  << <<20 * q.h[1], 20 * q.h[2], 8, v[1], v[2], v[3]>>,
     <<8 * Len2(q, 1) - 24 * q.h[1], 8 * Len2(q, 2) - 20 * q.h[2], 10, v[3], v[1], v[2]>> >>
NearDiscs(q, v) ==  \* two equal discs next to each other
  << <<20 * q.h[1], 20 * q.h[2], 8, v[1], v[2], v[3]>>, <<20 * q.h[1] + 14, 20 * q.h[2] + 10, 8, v[3], v[1], v[2]>> >>
(* an answer in which every value is different *)
SomeAnswer(q) ==
  [fld |-> [k \in 1..2 * NV(q, 1) * NV(q, 2) |-> k], prs |-> [k \in 1..NP(q, 1) * NP(q, 2) |-> 3 * k],
   vel |-> [k \in 1..2 * Len(q.parts) |-> k], frc |-> [k \in 1..2 * Len(q.parts) |-> k + 4], trq |-> [k \in 1..Len(q.parts) |-> k + 8]]
Moved(q, m) ==      \* everything moves as the walls do
  [q EXCEPT !.wall = m,
            !.parts = [i \in DOMAIN q.parts |->
               LET p == q.parts[i]
                   u == RigidAt(q, m, p[1], p[2])
               IN IF q.kind = "sem" THEN <<p[1], p[2], p[3], 0, 0, 2>> ELSE <<p[1], p[2], p[3], u[1], u[2], m[3]>>]]

Empty == [kind |-> "none"]
Init == s = Empty /\ r = Empty /\ s0 = Empty /\ r0 = Empty /\ undo = <<>> /\ depth = -1
Pick ==
  /\ depth = -1
  /\ \E kind \in {"sem", "dton"}, n \in NS \X NS, per \in PERS, h \in HS, m \in Motions, b \in {<<0, 0>>, <<2, -1>>}, v \in VELS, rigid, near, none \in BOOLEAN :
       LET q == [kind |-> kind, n |-> n, per |-> per, h |-> h, parts |-> <<>>, wall |-> m, body |-> b, sing |-> 0]
           f == IF none THEN q ELSE [q EXCEPT !.parts = IF near THEN NearDiscs(q, v) ELSE Discs(q, v), !.sing = IF near /\ kind = "dton" THEN 1 ELSE 0]
           k == IF rigid THEN Moved([f EXCEPT !.body = <<0, 0>>], m) ELSE f
       IN /\ (m[3] # 0 => per = <<0, 0>>)
          /\ (rigid => b = <<0, 0>> /\ v = CHOOSE x \in VELS : TRUE)
          /\ (none => ~near /\ v = CHOOSE x \in VELS : TRUE)
          /\ s' = k
          /\ r' = IF rigid THEN RigidAnswer(k) ELSE SomeAnswer(k)
          /\ s0' = s'
          /\ r0' = r'
  /\ undo' = <<>>
  /\ depth' = 0

Moves == {<<"mirx", <<>>>>, <<"miry", <<>>>>, <<"swap", <<>>>>, <<"scale", <<-1>>>>, <<"order", <<2, 1>>>>,
          <<"boost", <<1, -1, 0>>>>, <<"boost", <<0, 1, 2>>>>, <<"shift", <<2, 0>>>>, <<"shift", <<0, -2>>>>, <<"plain", <<>>>>, <<"kind", <<>>>>}
Inverse(t, g) == IF t \in {"boost", "shift"} THEN <<t, [i \in DOMAIN g |-> -g[i]]>> ELSE <<t, g>>
Do ==
  /\ depth >= 0 /\ depth < DEPTH
  /\ \E m \in Moves :
       /\ Allowed(m[1], m[2], s)
       /\ m[1] = "order" => Len(s.parts) = 2
       /\ s' = Apply(m[1], m[2], s)
       /\ r' = Answer(m[1], m[2], s', r)
       /\ undo' = <<Inverse(m[1], m[2])>> \o undo
  /\ depth' = depth + 1
  /\ UNCHANGED <<s0, r0>>
Next == Pick \/ Do
Spec == Init /\ [][Next]_vars

RECURSIVE Undo(_, _, _)
Undo(u, q, a) ==
  IF u = <<>> THEN <<q, a>>
  ELSE LET p == Apply(u[1][1], u[1][2], q)
       IN Undo(Tail(u), p, Answer(u[1][1], u[1][2], p, a))
Undone == depth >= 0 => Undo(undo, s, r) = <<s0, r0>>
KnownStaysKnown == (depth >= 0 /\ Rigid(s0)) => Rigid(s) /\ (r0 = RigidAnswer(s0) => r = RigidAnswer(s))
(* a rigid motion has no lubrication field, and having none or not stays *)
PlainStays == depth >= 0 => Plain(s) = Plain(s0) /\ ((Rigid(s) /\ s.kind = "dton") => Plain(s))
(* a rectangle's reflections *)
Two(a, b) == LET p == Apply(a, <<>>, s) IN <<Apply(b, <<>>, p), Answer(b, <<>>, Apply(b, <<>>, p), Answer(a, <<>>, p, r))>>
Reflections == depth >= 0 => /\ Two("mirx", "miry") = Two("miry", "mirx")
                             /\ Two("mirx", "swap") = Two("swap", "miry")
Sizes == depth >= 0 => Len(r.fld) = 2 * NV(s, 1) * NV(s, 2) /\ Len(r.prs) = NP(s, 1) * NP(s, 2)
Inside == depth >= 0 => \A i \in DOMAIN s.parts, d \in 1..2 : s.per[d] = 0 =>
             s.parts[i][d] > s.parts[i][3] /\ s.parts[i][d] < 8 * Len2(s, d) - s.parts[i][3]
=============================================================================
