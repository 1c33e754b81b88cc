------------------------------ MODULE TraceMesh ------------------------------
(* Recorded meshes, visited cells, element nodes and weights of the real code. *)
EXTENDS Mesh, TraceBase

VARIABLE l
E == Trace[l]
Half(s, D, k) == [d \in 1..D |-> s[(k-1)*D + d]]
ToBox(s, D) == Bx(Half(s, D, 1), Half(s, D, 2))
Boxes(ss, D) == [i \in 1..Len(ss) |-> ToBox(ss[i], D)]
Ok(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE

GV == IF E.lap = 1 THEN PGrid(E.D, E.n, E.per, E.n) ELSE VGrid(E.D, E.n, E.per, E.n)
GP == PGrid(E.D, E.n, E.per, E.n)
Gr(k) == IF k = 1 THEN GV ELSE GP
Dof(k) == IF k = 1 /\ E.lap = 0 THEN E.D ELSE 1

Entry(k) ==
  LET G == Gr(k)
      T == E.ents[k]
      own == Boxes(T.own, E.D)
      gho == Boxes(T.gho, E.D)
  IN /\ Same("number of points", l, T.n, G.n)
     /\ Same("periodicity", l, T.per, E.per)
     /\ Is("components", l, <<T.dof, T.gdof>>, <<Dof(k), Dof(k)>>)
     /\ Is("one ghost layer at least, corners included", l, <<T.sw >= 1, T.box>>, <<TRUE, 1>>)
     /\ Ok("the owned boxes do not partition the grid", IsPartition(G, own))
     /\ \A r \in 1..E.np :
          /\ Is("cells of a process", l, ToBox(T.cb[r], E.D), CellBox(G, own[r]))
          /\ Is("nodes of a process", l, ToBox(T.ob[r], E.D), own[r])
          /\ Same("global sizes", l, T.gb[r], G.n)
          /\ Same("boundary types", l, T.bt[r], E.per)
          /\ Is("local size", l, T.loc[r], <<Dof(k) * Size(own[r])>>)
          /\ Is("total size", l, T.tot[r], <<Dof(k) * NNodes(G)>>)
          /\ Ok("a node of a process's cell is not at hand",
                NonEmpty(ToBox(T.cb[r], E.D)) => CellNodesIn(ToBox(T.cb[r], E.D), gho[r]))
MeshEv ==
  /\ E.ev = "mesh"
  /\ Is("fields", l, Len(E.ents), 2 - E.lap)
  /\ \A k \in 1..Len(E.ents) : Entry(k)
  /\ E.lap = 0 =>
       \A r \in 1..E.np :
         /\ Is("the velocity nodes of a process refine its pressure nodes", l,
               ToBox(E.ents[1].own[r], E.D), Refined(GP, ToBox(E.ents[2].own[r], E.D)))
         /\ Ok("a velocity node of a process's pressure cell is not at hand",
               NonEmpty(ToBox(E.ents[2].cb[r], E.D)) =>
                 SubNodesIn(ToBox(E.ents[2].cb[r], E.D), ToBox(E.ents[1].gho[r], E.D)))
  /\ \A r \in 1..E.np :
       /\ Is("local size", l, E.loc[r], <<SumSeq([k \in 1..Len(E.ents) |-> E.ents[k].loc[r][1]])>>)
       /\ Is("total size", l, E.tot[r], <<SumSeq([k \in 1..Len(E.ents) |-> E.ents[k].tot[r][1]])>>)

Pts(s, D) == [k \in 1..(Len(s) \div D) |-> [d \in 1..D |-> s[(k-1)*D + d]]]
Lex(a, b) == \E d \in DOMAIN a : a[d] < b[d] /\ \A e \in DOMAIN a : e > d => a[e] = b[e]

CellsEv ==
  /\ E.ev = "cells"
  /\ LET G == Gr(E.ent + 1)
         vis == [r \in 1..E.np |-> Pts(E.vis[r], E.D)]
         nC == Pow(2, E.D)
         nS == Pow(3, E.D)
     IN /\ Is("number of cells visited", l, SumSeq([r \in 1..E.np |-> Len(vis[r])]), CellCount(G))
        /\ Ok("some cell is visited twice or does not exist",
              LET S == UNION {{vis[r][k] : k \in DOMAIN vis[r]} : r \in 1..E.np}
              IN Cardinality(S) = CellCount(G) /\ \A c \in S : IsCell(G, c))
        /\ \A r \in 1..E.np :
             /\ Ok("order of the visit", \A k \in 1..Len(vis[r])-1 : Lex(vis[r][k], vis[r][k+1]))
             /\ LET nod == Pts(E.nodes[r], E.D)
                IN /\ Is("element nodes per cell", l, Len(nod), nC * Len(vis[r]))
                   /\ \A k \in DOMAIN vis[r] :
                        Is("nodes of a cell", l, {nod[(k-1)*nC + i] : i \in 1..nC},
                           {[d \in 1..E.D |-> vis[r][k][d] + o[d]] : o \in [1..E.D -> {0, 1}]})
             /\ (E.lap = 0 /\ E.ent = 1) =>
                  LET nod == Pts(E.sub[r], E.D)
                  IN /\ Is("refined element nodes per cell", l, Len(nod), nS * Len(vis[r]))
                     /\ \A k \in DOMAIN vis[r] :
                          Is("refined nodes of a cell", l, {nod[(k-1)*nS + i] : i \in 1..nS},
                             {[d \in 1..E.D |-> 2 * vis[r][k][d] + o[d]] : o \in [1..E.D -> {0, 1, 2}]})

LIdx(g, p, ndof, f) == f + ndof * ((p[2] - g.lo[2]) * (g.hi[1] - g.lo[1]) + p[1] - g.lo[1])
IndicesEv ==
  /\ E.ev = "indices"
  /\ \A r \in 1..Len(E.gho) :
       LET g == ToBox(E.gho[r], 2)
           el == Pts(E.el[r], 2)
           sub == Pts(E.sub[r], 2)
       IN /\ Same("local index of element nodes", l, E.ix[r], [k \in 1..Len(el) |-> LIdx(g, el[k], E.ndof, E.dof)])
          /\ E.ent = 0 =>
               /\ Same("local indices of both components", l, E.tx[r],
                       [k \in 1..2*Len(el) |->
                          LET c == (k-1) \div 8
                              i == (k-1) % 8
                          IN LIdx(g, el[4*c + (i % 4) + 1], E.ndof, i \div 4)])
               /\ Same("local indices of the refined element", l, E.sx[r],
                       [k \in 1..2*Len(sub) |->
                          LET c == (k-1) \div 18
                              i == (k-1) % 18
                          IN LIdx(g, sub[9*c + (i % 9) + 1], E.ndof, i \div 9)])

BoxEv ==
  /\ E.ev = "box"
  /\ LET b == Bx(E.lo, E.hi)
         s == BoxSeq(b)
     IN Same("cells of the box, in order", l, Pts(E.vis, E.D), s)

(* x in quarters of the unit; weights times 4^D prod h, gradients (times the
   volume of the cell) times 4^(D-1) *)
Hat(o, x, h) == IF o = 0 THEN 4 * h - x ELSE x
DHat(o) == IF o = 0 THEN -1 ELSE 1
WeightsEv ==
  /\ E.ev = "weights"
  /\ LET el == Pts(E.el, E.D)
         off(i) == [d \in 1..E.D |-> el[i][d] - E.at[d]]
     IN /\ Same("weights", l, E.w,
                [i \in 1..Len(el) |-> Prod([d \in 1..E.D |-> Hat(off(i)[d], E.x[d], E.h[d])])])
        /\ Same("gradients of the weights", l, E.g,
                [k \in 1..Len(el)*E.D |->
                   LET i == ((k-1) \div E.D) + 1
                       e == ((k-1) % E.D) + 1
                   IN Prod([d \in 1..E.D |-> IF d = e THEN DHat(off(i)[d]) ELSE Hat(off(i)[d], E.x[d], E.h[d])])])
        (* they sum to one and reproduce the point *)
        /\ Is("sum of weights", l, SumSeq(E.w), Prod([d \in 1..E.D |-> 4 * E.h[d]]))
        /\ \A e \in 1..E.D :
             Is("reproduces linear functions", l,
                4 * E.h[e] * SumSeq([i \in 1..Len(el) |-> E.w[i] * off(i)[e]]),
                E.x[e] * Prod([d \in 1..E.D |-> 4 * E.h[d]]))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (MeshEv \/ CellsEv \/ IndicesEv \/ BoxEv \/ WeightsEv \/ EndOf(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
