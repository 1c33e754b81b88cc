------------------------------- MODULE MCPart -------------------------------
(* Design of the distributed particle methods, on every block partition of
   small grids, for a particle anywhere in the domain.  The processes, in any
   order, number their control nodes, keep their surface points, add their
   share of the spread density to the grid and their partial sums to the
   reductions; what comes out must be what module Part says of the whole. *)
EXTENDS Part, Mesh
CONSTANTS NMAX, RMAX, CSTEP, RADII, NSURF, STARS

VARIABLES st, npts, per, cuts, c, rad, sp, todo, nodes, kept, rhs, acc
vars == <<st, npts, per, cuts, c, rad, sp, todo, nodes, kept, rhs, acc>>
D == 2
h == <<1, 1>>
P == PGrid(D, npts, per, h)
G == VGrid(D, npts, per, h)
Cells(d) == 2 * (npts[d] - 1)
Blocks(d) == Cardinality(cuts[d]) + 1
NR == Blocks(1) * Blocks(2)
Start(d, b) == IF b = 0 THEN 0 ELSE CHOOSE p \in cuts[d] : Cardinality({q \in cuts[d] : q <= p}) = b
Stop(d, b) == IF b = Blocks(d) - 1 THEN P.n[d] ELSE Start(d, b + 1)
Blk(r) == [d \in 1..D |-> ((r-1) \div ProdTo([e \in 1..D |-> Blocks(e)], d-1)) % Blocks(d)]
PB(r) == Bx([d \in 1..D |-> Start(d, Blk(r)[d])], [d \in 1..D |-> Stop(d, Blk(r)[d])])
VB(r) == Refined(P, PB(r))
Mine(r) == CellBox(G, VB(r))

(* surface points: some of a fixed star around the centre *)
Star == <<<<-3, 1>>, <<2, 2>>, <<5, -2>>, <<0, -4>>, <<-6, 0>>, <<1, 6>>, <<-1, -7>>>>
Part == [k |-> 0, r2 |-> rad, c |-> c, s |-> [i \in 1..Len(sp) |-> [d \in 1..D |-> c[d] + Star[sp[i]][d]]],
         a |-> 2, vol |-> 1, cd |-> 1, ci |-> 1, v |-> <<1, 2>>, w |-> <<1>>, f |-> <<1, 1>>, rho |-> 1]
Field == [k \in 1..NNodes(G) * D |-> ((7 * k + (k \div 3)) % 11) - 5]
Val(q) == [f \in 1..D |-> ((q[1] * 3 + q[2] * 5 + f) % 7) - 3]
bc == [i \in 1..2*D*D |-> IF i \in {1, 2, 6} THEN 1 ELSE 0]     \* low side of direction 1, half of the low side of direction 2
NoBc == [i \in 1..2*D*D |-> 0]

Init == /\ st = "start" /\ npts = <<>> /\ per = <<>> /\ cuts = <<>> /\ c = <<>> /\ rad = 0 /\ sp = <<>>
        /\ todo = {} /\ nodes = <<>> /\ kept = {} /\ rhs = <<>> /\ acc = <<>>
PickGrid ==
  /\ st = "start" /\ st' = "grid"
  /\ npts' \in [1..D -> 2..NMAX]
  /\ per' \in {q \in [1..D -> {0, 1}] : \A d \in 1..D : q[d] = 1 => npts'[d] >= 3}
  /\ cuts' \in {q \in [1..D -> SUBSET (1..NMAX-1)] :
                  /\ \A d \in 1..D : \A x \in q[d] : x < npts'[d] - per'[d]
                  /\ (Cardinality(q[1]) + 1) * (Cardinality(q[2]) + 1) <= RMAX}
  /\ UNCHANGED <<c, rad, sp, todo, nodes, kept, rhs, acc>>
PickParticle ==
  /\ st = "grid" /\ st' = "run"
  /\ c' \in {<<x, y>> : x \in {CSTEP * i : i \in 0..(4 * Cells(1) - 1) \div CSTEP},
                        y \in {CSTEP * i : i \in 0..(4 * Cells(2) - 1) \div CSTEP}}
  /\ rad' \in RADII
  /\ \E i \in STARS : sp' = [k \in 1..NSURF |-> ((i + 2 * k) % Len(Star)) + 1]
  /\ todo' = 1..NR
  /\ nodes' = <<>> /\ kept' = {}
  /\ rhs' = [k \in 1..NNodes(G) * D |-> 0]
  /\ acc' = [cnt |-> 0, mean |-> <<0, 0>>, mom |-> 0, force |-> <<0, 0>>, torque |-> 0]
  /\ UNCHANGED <<npts, per, cuts>>
MyNodes(r) == {x \in Nodes(G, Part) : InBox(Mine(r), x)}
MySurf(r) == {q \in Sampled(Part, 1) : InBox(Mine(r), CellOf(q))}
Work(r) ==
  /\ st = "run" /\ r \in todo
  /\ todo' = todo \ {r}
  /\ nodes' = nodes \o SetToSeq(MyNodes(r))
  /\ kept' = kept \cup {<<r, q>> : q \in MySurf(r)}
  /\ rhs' = LET s == Spread(G, bc, <<MySurf(r)>>, LAMBDA i, q : Val(q))
            IN TLCEval([k \in DOMAIN rhs |-> rhs[k] + s[k]])
  /\ acc' = LET m == MeanN(G, Part, MySurf(r), Val)
                x == MomN(G, Part, MySurf(r), Val)
                fx(n) == At(G, Field, n, 1)
                fy(n) == At(G, Field, n, 2)
                tq(n) == Moment(D, Rad4(G, Part, [d \in 1..D |-> 4 * n[d]]), <<At(G, Field, n, 1), At(G, Field, n, 2)>>)[1]
            IN [cnt |-> acc.cnt + Cardinality(MySurf(r)),
                mean |-> <<acc.mean[1] + m[1], acc.mean[2] + m[2]>>,
                mom |-> acc.mom + x[1],
                force |-> <<acc.force[1] + SumOver(MyNodes(r), fx), acc.force[2] + SumOver(MyNodes(r), fy)>>,
                torque |-> acc.torque + SumOver(MyNodes(r), tq)]
  /\ UNCHANGED <<st, npts, per, cuts, c, rad, sp>>
Next == PickGrid \/ PickParticle \/ \E r \in todo : Work(r)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Run == st = "run"
Done == Run /\ todo = {}
Pts == Surf(G, Part, 1)
(* nobody numbers a node another process numbers; at the end all are numbered *)
NodesOnce == Run => /\ Cardinality({nodes[i] : i \in DOMAIN nodes}) = Len(nodes)
                    /\ \A i \in DOMAIN nodes : nodes[i] \in Nodes(G, Part)
                    /\ todo = {} => Len(nodes) = Cardinality(Nodes(G, Part))
SurfOnce == Run => /\ Cardinality({x[2] : x \in kept}) = Cardinality(kept)
                   /\ todo = {} => {x[2] : x \in kept} = Pts
(* what a process reads and writes lies in its ghosted box *)
Local == Run => \A x \in kept :
  LET b == Ghosted(G, VB(x[1]), 1)
      o == CellOf(x[2])
  IN \A d \in 1..D : b.lo[d] <= o[d] /\ o[d] + 1 < b.hi[d]
SpreadWhole == Done => rhs = Spread(G, bc, <<Pts>>, LAMBDA i, q : Val(q))
SumsWhole == Done =>
  /\ acc.cnt = Cardinality(Pts)
  /\ acc.mean = MeanN(G, Part, Pts, Val)
  /\ acc.mom = MomN(G, Part, Pts, Val)[1]
  /\ LET fx(n) == At(G, Field, n, 1) IN acc.force[1] = SumOver(Nodes(G, Part), fx)
  /\ LET tq(n) == Moment(D, Rad4(G, Part, [d \in 1..D |-> 4 * n[d]]), <<At(G, Field, n, 1), At(G, Field, n, 2)>>)[1]
     IN acc.torque = SumOver(Nodes(G, Part), tq)
(* interpolation: convex, exact for linear fields, and spreading its transpose *)
Fresh == Run /\ todo = 1..NR
Convex == Fresh => \A q \in Pts : LET C == Corners(G, q) IN
  /\ \A i \in DOMAIN C : C[i][2] > 0 /\ C[i][1] \in 1..NNodes(G)
  /\ SumSeq([i \in DOMAIN C |-> C[i][2]]) = 16
  /\ \A i \in DOMAIN C : Wt(G, q, Coord(G, C[i][1])) = C[i][2]
LinearExact == Fresh => \A q \in Pts :
  LET lin == [k \in 1..NNodes(G) * D |-> LET n == Node(G, k) IN 3 * n[1] - 2 * n[2] + Comp(G, k)]
  IN (\A d \in 1..D : per[d] = 1 => q[d] < 4 * (Cells(d) - 1)) =>
       Interp(G, lin, q) = [f \in 1..D |-> 4 * (3 * q[1] - 2 * q[2]) + 16 * f]
Adjoint == Fresh =>
  LET s == TLCEval(Spread(G, NoBc, <<Pts>>, LAMBDA i, q : Val(q)))
      t(q) == LET u == Interp(G, Field, q) IN u[1] * Val(q)[1] + u[2] * Val(q)[2]
  IN SumOver(Pts, t) = SumSeq([k \in DOMAIN s |-> s[k] * Field[k]])
(* the total force that is spread is the one of the density *)
Balance == Fresh =>
  LET s == TLCEval(Spread(G, NoBc, <<Pts>>, LAMBDA i, q : Val(q)))
  IN \A f \in 1..D : LET t(q) == Val(q)[f] IN
       SumSeq([k \in 1..NNodes(G) |-> s[(k-1) * D + f]]) = 16 * SumOver(Pts, t)
(* taking out the rigid part of a centred density leaves no mean *)
Centred == LET t(q) == Rad4(G, Part, q)[1]
               u(q) == Rad4(G, Part, q)[2] IN SumOver(Pts, t) = 0 /\ SumOver(Pts, u) = 0
NoMean == Fresh /\ Pts # {} /\ Centred =>
  \A f \in 1..D : LET t(q) == Layer(G, Part, Pts, Val, q)[f] IN SumOver(Pts, t) = 0
=============================================================================
