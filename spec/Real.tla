-------------------------------- MODULE Real --------------------------------
(* Scenes of particle problems (2D) and what may be done to them without
   changing the physics.

   A scene is a rectangle of 2(n-1) fine cells of size h per direction, walls
   that move like a rigid body, a constant body force, and discs with a
   prescribed motion ("dton") or a prescribed force and density ("sem").
   Its answer (field, pressure, velocities, forces, torques) is a function of
   the scene: it does not depend on the number of processes, the way the
   operators are stored, or the inner solver; and what is done to the scene by
   the transformations below is done to the answer.

   A scene may ask (sing = 1, only "dton") that the lubrication field of close
   discs be taken out of what is discretised and put back afterwards.  The field
   is sampled on a lattice that starts in the low corner of each cell, and where it is
   cut off it is tied to the first disc of the pair only: then mirrors and
   another order do change the answer.

   Units: positions, radii, prescribed velocities and forces of discs in 1/8;
   walls, body force, angular velocities, densities and steps are integers;
   answers are integers in 1/A. *)
EXTENDS Integers, Sequences

A == 100000
Len2(s, d) == 2 * (s.n[d] - 1) * s.h[d]          \* length of the domain
Rev(q) == <<q[2], q[1]>>

(* grids: nodes per direction, of the velocities and of the pressure *)
NV(s, d) == 2 * (s.n[d] - 1) + 1 - s.per[d]
NP(s, d) == s.n[d] - s.per[d]

(* discs are <<cx, cy, r, a, b, w>>, w an angular velocity (dton) or a density *)
Spin(s, k, w) == IF s.kind = "dton" THEN k * w ELSE w

(* two discs closer than the unit of length whose centres approach each other or part *)
Sq(x) == x * x
Close2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) < Sq(p[3] + q[3] + 8)
Approach(p, q) == (p[1] - q[1]) * (p[4] - q[4]) + (p[2] - q[2]) * (p[5] - q[5])
Plain(s) == \A i, j \in DOMAIN s.parts : i < j /\ Close2(s.parts[i], s.parts[j]) => Approach(s.parts[i], s.parts[j]) = 0

(* velocity of the rigid motion m = <<a, b, w>> about the centre of the domain,
   at the point <<x, y>> (in 1/8): in 1/8 *)
RigidAt(s, m, x, y) == <<8 * m[1] - m[3] * (y - 4 * Len2(s, 2)), 8 * m[2] + m[3] * (x - 4 * Len2(s, 1))>>

-----------------------------------------------------------------------------
(* transformations of scenes: t a name, g its argument *)
Apply(t, g, s) ==
  CASE t = "same" -> s
    [] t = "mirx" -> [s EXCEPT !.wall = <<-s.wall[1], s.wall[2], -s.wall[3]>>, !.body = <<-s.body[1], s.body[2]>>,
                               !.parts = [i \in DOMAIN s.parts |-> LET p == s.parts[i] IN
                                  <<8 * Len2(s, 1) - p[1], p[2], p[3], -p[4], p[5], Spin(s, -1, p[6])>>]]
    [] t = "miry" -> [s EXCEPT !.wall = <<s.wall[1], -s.wall[2], -s.wall[3]>>, !.body = <<s.body[1], -s.body[2]>>,
                               !.parts = [i \in DOMAIN s.parts |-> LET p == s.parts[i] IN
                                  <<p[1], 8 * Len2(s, 2) - p[2], p[3], p[4], -p[5], Spin(s, -1, p[6])>>]]
    [] t = "swap" -> [s EXCEPT !.n = Rev(s.n), !.per = Rev(s.per), !.h = Rev(s.h),
                               !.wall = <<s.wall[2], s.wall[1], -s.wall[3]>>, !.body = Rev(s.body),
                               !.parts = [i \in DOMAIN s.parts |-> LET p == s.parts[i] IN
                                  <<p[2], p[1], p[3], p[5], p[4], Spin(s, -1, p[6])>>]]
    [] t = "scale" -> [s EXCEPT !.wall = [i \in 1..3 |-> g[1] * s.wall[i]], !.body = [i \in 1..2 |-> g[1] * s.body[i]],
                               !.parts = [i \in DOMAIN s.parts |-> LET p == s.parts[i] IN
                                  <<p[1], p[2], p[3], g[1] * p[4], g[1] * p[5], Spin(s, g[1], p[6])>>]]
    [] t = "order" -> [s EXCEPT !.parts = [i \in DOMAIN s.parts |-> s.parts[g[i]]]]
    (* a rigid motion added to everything *)
    [] t = "boost" -> [s EXCEPT !.wall = [i \in 1..3 |-> s.wall[i] + g[i]],
                               !.parts = IF s.kind = "sem" THEN s.parts ELSE [i \in DOMAIN s.parts |->
                                  LET p == s.parts[i]
                                      u == RigidAt(s, g, p[1], p[2])
                                  IN <<p[1], p[2], p[3], p[4] + u[1], p[5] + u[2], p[6] + g[3]>>]]
    (* a problem without discs is the same for both methods *)
    [] t = "kind" -> [s EXCEPT !.kind = IF s.kind = "sem" THEN "dton" ELSE "sem"]
    (* with or without the lubrication field: the same if there is none *)
    [] t = "plain" -> [s EXCEPT !.sing = 1 - s.sing]
    (* along periodic directions, by fine cells *)
    [] t = "shift" -> [s EXCEPT !.parts = [i \in DOMAIN s.parts |-> LET p == s.parts[i] IN
                                  <<p[1] + 8 * s.h[1] * g[1], p[2] + 8 * s.h[2] * g[2], p[3], p[4], p[5], p[6]>>]]

(* may it be done to this scene? *)
Allowed(t, g, s) ==
  CASE t = "boost" -> g[3] = 0 \/ s.per = <<0, 0>>
    [] t = "shift" -> \A d \in 1..2 : g[d] # 0 => s.per[d] = 1 /\ g[d] % 2 = 0
    [] t = "scale" -> g[1] # 0
    [] t = "kind" -> s.parts = <<>> /\ s.sing = 0
    [] t = "plain" -> s.kind = "dton" /\ Plain(s)
    [] t \in {"mirx", "miry", "order"} -> s.sing = 0 \/ Plain(s)
    [] t = "swap" -> s.sing = 0 \/ Plain(s) \/ s.h[1] = s.h[2]
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* answers: fields as sequences, x fastest, components together.  From(t, g, s, k, m, c)
   is the place in the old sequence of the value at place k (from 0) of the new
   one, of c components on a grid of m(d) nodes in direction d of the NEW scene s *)
Mir(i, m, per) == IF per = 1 THEN (m - i) % m ELSE m - 1 - i
Place(i, j, f, mx, c) == (i + mx * j) * c + f + 1
From(t, g, s, k, mx, my, c, unit) ==
  LET f == k % c
      i == (k \div c) % mx
      j == (k \div c) \div mx
  IN CASE t = "mirx" -> Place(Mir(i, mx, s.per[1]), j, f, mx, c)
       [] t = "miry" -> Place(i, Mir(j, my, s.per[2]), f, mx, c)
       [] t = "swap" -> Place(j, i, c - 1 - f, my, c)
       [] t = "shift" -> Place((i - g[1] \div unit) % mx, (j - g[2] \div unit) % my, f, mx, c)
       [] OTHER -> k + 1
Sign(t, f) == IF (t = "mirx" /\ f = 0) \/ (t = "miry" /\ f = 1) THEN -1 ELSE 1
Pseudo(t) == IF t \in {"mirx", "miry", "swap"} THEN -1 ELSE 1
Times(t, g) == IF t = "scale" THEN g[1] ELSE 1

(* per disc: c values each *)
PartVec(t, g, v) ==
  [k \in 1..Len(v) |->
     LET i == (k - 1) \div 2
         f == (k - 1) % 2
         src == IF t = "order" THEN g[i + 1] - 1 ELSE i
     IN Times(t, g) * Sign(t, f) * v[2 * src + (IF t = "swap" THEN 1 - f ELSE f) + 1]]
PartNum(t, g, v) == [k \in 1..Len(v) |-> Times(t, g) * Pseudo(t) * v[IF t = "order" THEN g[k] ELSE k]]

(* s is the new scene, r the answer of the old one *)
Answer(t, g, s, r) ==
  [fld |-> [k \in 1..Len(r.fld) |->
              LET q == k - 1
                  mx == NV(s, 1)
                  old == r.fld[From(t, g, s, q, mx, NV(s, 2), 2, 1)]
                  x == 8 * s.h[1] * ((q \div 2) % mx)
                  y == 8 * s.h[2] * ((q \div 2) \div mx)
              IN Times(t, g) * Sign(t, q % 2) * old
                   + (IF t = "boost" THEN (A \div 8) * RigidAt(s, g, x, y)[(q % 2) + 1] ELSE 0)],
   prs |-> [k \in 1..Len(r.prs) |-> Times(t, g) * r.prs[From(t, g, s, k - 1, NP(s, 1), NP(s, 2), 1, 2)]],
   vel |-> LET v == PartVec(t, g, r.vel)
           IN IF t # "boost" THEN v
              ELSE [k \in 1..Len(v) |->
                      LET p == s.parts[(k - 1) \div 2 + 1]
                      IN v[k] + (A \div 8) * RigidAt(s, g, p[1], p[2])[((k - 1) % 2) + 1]],
   frc |-> PartVec(t, g, r.frc),
   trq |-> PartNum(t, g, r.trq)]

-----------------------------------------------------------------------------
(* scenes whose answer is known: everything moves as one rigid body, or nothing
   pushes the discs in such a motion *)
Rigid(s) ==
  /\ s.body = <<0, 0>>
  /\ s.wall[3] = 0 \/ s.per = <<0, 0>>
  /\ \A i \in DOMAIN s.parts :
        LET p == s.parts[i]
        IN IF s.kind = "sem" THEN p[4] = 0 /\ p[5] = 0
           ELSE <<p[4], p[5]>> = RigidAt(s, s.wall, p[1], p[2]) /\ p[6] = s.wall[3]
RigidAnswer(s) ==
  [fld |-> [k \in 1..2 * NV(s, 1) * NV(s, 2) |->
              (A \div 8) * RigidAt(s, s.wall, 8 * s.h[1] * (((k - 1) \div 2) % NV(s, 1)),
                                              8 * s.h[2] * (((k - 1) \div 2) \div NV(s, 1)))[((k - 1) % 2) + 1]],
   prs |-> [k \in 1..NP(s, 1) * NP(s, 2) |-> 0],
   vel |-> [k \in 1..2 * Len(s.parts) |->
              (A \div 8) * RigidAt(s, s.wall, s.parts[(k - 1) \div 2 + 1][1], s.parts[(k - 1) \div 2 + 1][2])[((k - 1) % 2) + 1]],
   frc |-> [k \in 1..2 * Len(s.parts) |-> 0],
   trq |-> [k \in 1..Len(s.parts) |-> 0]]
=============================================================================
