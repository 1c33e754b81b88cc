------------------------------- MODULE MCMesh -------------------------------
(* Design of the distributed meshes, on every block partition of every small
   grid.  A process visits its cells one after the other, in any interleaving
   with the others; what must hold of the design holds of every reachable
   state. *)
EXTENDS Mesh, TLC
CONSTANTS NMAX, RMAX, DIMS

VARIABLES npts, per, cuts, done
vars == <<npts, per, cuts, done>>
D == Len(npts)
P == PGrid(D, npts, per, npts)
V == VGrid(D, npts, per, npts)

Blocks(d) == Cardinality(cuts[d]) + 1
NR == Prod([d \in 1..D |-> Blocks(d)])
(* start of block b (0-based) of direction d, and end *)
Start(d, b) == IF b = 0 THEN 0 ELSE CHOOSE p \in cuts[d] : Cardinality({q \in cuts[d] : q <= p}) = b
Stop(d, b) == IF b = Blocks(d) - 1 THEN P.n[d] ELSE Start(d, b + 1)
Blk(r) == [d \in 1..D |-> ((r-1) \div ProdTo([e \in 1..D |-> Blocks(e)], d-1)) % Blocks(d)]
PB(r) == Bx([d \in 1..D |-> Start(d, Blk(r)[d])], [d \in 1..D |-> Stop(d, Blk(r)[d])])
VB(r) == Refined(P, PB(r))
Ranks == 1..NR

Init ==
  /\ \E dd \in DIMS :
       /\ npts \in [1..dd -> 2..NMAX]
       /\ per \in [1..dd -> {0, 1}]
       /\ \A d \in 1..dd : per[d] = 1 => npts[d] >= 3
       /\ cuts \in {c \in [1..dd -> SUBSET (1..NMAX-1)] :
                      /\ \A d \in 1..dd : \A q \in c[d] : q < npts[d] - per[d]
                      /\ Prod([d \in 1..dd |-> Cardinality(c[d]) + 1]) <= RMAX}
  /\ done = [r \in 1..RMAX |-> 0]
Visit(r) == /\ done[r] < Size(CellBox(P, PB(r)))
            /\ done' = [done EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<npts, per, cuts>>
Next == \E r \in Ranks : Visit(r)
Spec == Init /\ [][Next]_vars

PBs == [r \in Ranks |-> PB(r)]
VBs == [r \in Ranks |-> VB(r)]
Seen(r) == {BoxSeq(CellBox(P, PB(r)))[k] : k \in 1..done[r]}
(* static part: only worth evaluating in the initial states *)
Static == (\A r \in Ranks : done[r] = 0) =>
  /\ IsPartition(P, PBs)
  /\ IsPartition(V, VBs)
  /\ \A r \in Ranks :
       /\ CellNodesIn(CellBox(P, PB(r)), Ghosted(P, PB(r), 1))
       /\ SubNodesIn(CellBox(P, PB(r)), Ghosted(V, VB(r), 1))
       /\ CellNodesIn(CellBox(V, VB(r)), Ghosted(V, VB(r), 1))
       (* the fine cells of a coarse cell belong to the same process *)
       /\ \A k \in 1..NNodes(P) :
            LET c == Coord(P, k)
            IN IsCell(P, c) =>
                 (InBox(CellBox(P, PB(r)), c) <=>
                    \A o \in [1..D -> {0, 1}] : InBox(CellBox(V, VB(r)), [d \in 1..D |-> 2 * c[d] + o[d]]))
NoneTwice == \A r, s \in Ranks : r # s => Seen(r) \cap Seen(s) = {}
AllOnce == (\A r \in Ranks : done[r] = Size(CellBox(P, PB(r)))) =>
             /\ UNION {Seen(r) : r \in Ranks} = {c \in {Coord(P, k) : k \in 1..NNodes(P)} : IsCell(P, c)}
             /\ SumSeq([r \in Ranks |-> done[r]]) = CellCount(P)
=============================================================================
