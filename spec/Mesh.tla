-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The distributed meshes.  A pressure grid P is cut in blocks, one per     *)
(* process; the velocity grid V is its refinement, cut so that a process    *)
(* owns the fine nodes refining its coarse ones.  Boxes are half open,      *)
(* [lo, hi) in every direction.                                             *)
(***************************************************************************)
EXTENDS FE

Bx(lo, hi) == [lo |-> lo, hi |-> hi]
InBox(b, c) == \A d \in DOMAIN c : b.lo[d] <= c[d] /\ c[d] < b.hi[d]
Max0(x) == IF x < 0 THEN 0 ELSE x
Ext(b, d) == Max0(b.hi[d] - b.lo[d])
Size(b) == Prod([d \in DOMAIN b.lo |-> Ext(b, d)])
(* the points of a box in the order of iteration: direction 1 fastest *)
BoxSeq(b) == [k \in 1..Size(b) |->
                [d \in DOMAIN b.lo |->
                   b.lo[d] + (((k-1) \div ProdTo([e \in DOMAIN b.lo |-> Ext(b, e)], d-1)) % Ext(b, d))]]

(* cells a process is responsible for: the low corner is its own *)
LastCut(G, b, d) == IF G.per[d] = 0 /\ b.hi[d] = G.n[d] THEN 1 ELSE 0
CellBox(G, b) == Bx(b.lo, [d \in 1..G.D |-> b.hi[d] - LastCut(G, b, d)])
(* fine nodes refining the coarse nodes of b *)
Refined(P, b) == Bx([d \in 1..P.D |-> 2 * b.lo[d]],
                    [d \in 1..P.D |-> 2 * b.hi[d] - LastCut(P, b, d)])

(* a sequence of boxes is a partition of the nodes of G *)
IsPartition(G, bs) ==
  /\ \A i \in DOMAIN bs : \A d \in 1..G.D : 0 <= bs[i].lo[d] /\ bs[i].hi[d] <= G.n[d]
  /\ \A k \in 1..NNodes(G) : Cardinality({i \in DOMAIN bs : InBox(bs[i], Coord(G, k))}) = 1

(* all cells with the low corner in a box *)
CellNodesIn(b, g) == \A d \in DOMAIN b.lo : Ext(b, d) > 0 => g.lo[d] <= b.lo[d] /\ b.hi[d] + 1 <= g.hi[d]
SubNodesIn(b, g) == \A d \in DOMAIN b.lo : Ext(b, d) > 0 => g.lo[d] <= 2 * b.lo[d] /\ 2 * b.hi[d] + 1 <= g.hi[d]
NonEmpty(b) == \A d \in DOMAIN b.lo : Ext(b, d) > 0

CellCount(G) == Prod([d \in 1..G.D |-> G.n[d] - 1 + G.per[d]])
IsCell(G, c) == \A d \in 1..G.D : 0 <= c[d] /\ c[d] < G.n[d] - 1 + G.per[d]

(* owned box grown by the ghost layer of width w *)
Ghosted(G, b, w) == Bx([d \in 1..G.D |-> IF G.per[d] = 1 \/ b.lo[d] - w >= 0 THEN b.lo[d] - w ELSE 0],
                       [d \in 1..G.D |-> IF G.per[d] = 1 \/ b.hi[d] + w <= G.n[d] THEN b.hi[d] + w ELSE G.n[d]])

Corner8(D) == [i \in 1..Pow(2, D) |-> [d \in 1..D |-> ((i-1) \div Pow(2, d-1)) % 2]]
Corner27(D) == [i \in 1..Pow(3, D) |-> [d \in 1..D |-> ((i-1) \div Pow(3, d-1)) % 3]]
=============================================================================
