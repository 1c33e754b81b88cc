----------------------------- MODULE TraceSolve -----------------------------
(* Solutions of the Stokes problem class and operators of its multigrid
   hierarchy, against module FE. *)
EXTENDS FE, TraceBase

VARIABLE l
E == Trace[l]
V == VGrid(E.D, E.n, E.per, E.h)
P == PGrid(E.D, E.n, E.per, E.h)

(* quadratic solutions of the harness (coefficients q = a b s c d t e al be),
   which the discretisation represents exactly *)
ExactU(q, c, f) == IF f = 1 THEN q[1] * c[1] + q[2] * c[2] + q[3] * c[2] * c[2] + q[4]
                   ELSE q[5] * c[1] - ((q[1] * E.h[2]) \div E.h[1]) * c[2] + q[6] * c[1] * c[1] + q[7]
ExactP(q, c) == 2 * (q[8] * c[1] + q[9] * c[2])      \* per coarse step, relative to the first node

Solve ==
  /\ E.ev = "solve"
  /\ Is("converged", l, E.conv, 1)
  /\ Is("residual", l, E.small, 1)
  /\ IF E.mode = "rand"
     THEN /\ Same("velocity", l, E.v, E.x)
          /\ Same("pressure", l, E.pr, [k \in 1..NNodes(P) |-> E.p[k] - E.p[1]])
     ELSE /\ Same("velocity", l, E.v, [k \in 1..NNodes(V)*2 |-> ExactU(E.q, Node(V, k), Comp(V, k))])
          /\ Same("pressure", l, E.pr, [k \in 1..NNodes(P) |-> ExactP(E.q, Coord(P, k))])

(* level `depth` below the finest: grid coarsened `depth` times, step doubled
   each time, same form, same boundary conditions *)
RECURSIVE Coarsen(_, _, _)
Coarsen(n, p, k) == IF k = 0 THEN n ELSE Coarsen(IF p = 1 THEN n \div 2 ELSE (n - 1) \div 2 + 1, p, k - 1)
LevelGrid(d) == [D |-> 2, n |-> [i \in 1..2 |-> Coarsen(V.n[i], E.per[i], d)], per |-> E.per,
                 h |-> [i \in 1..2 |-> E.h[i] * Pow(2, d)]]
MgLevel ==
  /\ E.ev = "mglevel"
  /\ LET G == LevelGrid(E.depth)
     IN /\ Same("level grid", l, E.nv, G.n)
        /\ Same("level operator", l, E.y, BlockOp(E.op, G, 2, E.bc, E.x))
        /\ Same("level diagonal", l, E.d, DiagOp("lap", G, 2))
(* as many levels as halve the smallest direction down to 8 nodes or fewer *)
RECURSIVE Levels(_)
Levels(i) == IF i > 8 THEN 1 + Levels(i \div 2) ELSE 1
Mg == E.ev = "mg" /\ Is("levels", l, E.levels, Levels(IF V.n[1] < V.n[2] THEN V.n[1] ELSE V.n[2]))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (Solve \/ MgLevel \/ Mg \/ EndOf(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
