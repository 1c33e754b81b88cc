-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* The distributed application of an operator, as the code does it:        *)
(* the nodes are partitioned in blocks, one per rank.  Each rank            *)
(*   Ghost   copies the operand on the nodes of its cells (owned + ghosts)  *)
(*   Local   adds the element contributions of the cells whose low corner   *)
(*           it owns into a local vector                                    *)
(*   Flush   adds its local vector, ghosts included, into the result        *)
(* and, when every contribution has arrived,                                *)
(*   Bc      writes the operand on the Dirichlet rows it owns.              *)
(* Ranks run in any order.  The result has to be the operator of module FE, *)
(* whatever the partition and the order; a rank's result on Dirichlet rows  *)
(* must not be touched by a late contribution.                              *)
(***************************************************************************)
EXTENDS FE, TLC
CONSTANTS NMAX, RMAX, WAITALL

VARIABLES G, op, bc, cuts, pc, loc, y
vars == <<G, op, bc, cuts, pc, loc, y>>

F == IF op = "mass" THEN 1 ELSE 2
NX == NNodes(G) * F
X == [j \in 1..NX |-> ((j * 7) % 11) - 5]

(* cuts[d] = set of positions where a new block starts (0 excluded) *)
Blocks(d) == Cardinality(cuts[d]) + 1
Ranks == 0..(Blocks(1) * Blocks(2) - 1)
BlockOf(d, c) == Cardinality({p \in cuts[d] : p <= c})
Owner(c) == BlockOf(1, c[1]) + Blocks(1) * BlockOf(2, c[2])

CellExists(c) == \A d \in 1..2 : CellRight(G, d, c[d])
MyCells(r) == {k \in 1..NNodes(G) : Owner(Coord(G, k)) = r /\ CellExists(Coord(G, k))}

(* one-dimensional element integrals, scaled as Row *)
El(kind, a, b) == CASE kind = "M" -> IF a = b THEN 2 ELSE 1
                    [] kind = "K" -> IF a = b THEN 1 ELSE -1
                    [] kind = "D" -> IF a = 0 THEN -1 ELSE 1
                    [] kind = "T" -> IF b = 0 THEN -1 ELSE 1
ElM(f, kinds, a, b) == f * El(kinds[1], a[1], b[1]) * El(kinds[2], a[2], b[2])
(* element matrix entry (corner a comp f, corner b comp g), scale ScaleV or 36/prod h * prod h *)
Elem(a, f, b, g) ==
  LET H == G.h
      lap == ElM(2 * H[2] * H[2], <<"K", "M">>, a, b) + ElM(2 * H[1] * H[1], <<"M", "K">>, a, b)
  IN CASE op = "mass" -> Prod(H) * ElM(1, <<"M", "M">>, a, b)
       [] op = "lap" -> IF f = g THEN lap ELSE 0
       [] op = "strain" ->
            IF f = g THEN lap + (IF f = 1 THEN ElM(2 * H[2] * H[2], <<"K", "M">>, a, b)
                                 ELSE ElM(2 * H[1] * H[1], <<"M", "K">>, a, b))
            ELSE 3 * Prod(H) * (IF g = 1 THEN ElM(1, <<"D", "T">>, a, b)
                                ELSE ElM(1, <<"T", "D">>, a, b))
Corners == {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>}
Shift(c, a) == <<Wrap(G, 1, c[1] + a[1]), Wrap(G, 2, c[2] + a[2])>>
Idx(c, f) == (Flat(G, c) - 1) * F + f

RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f(s) + SumSet(f, S \ {s})

(* contribution of cell c to entry (corner a, component f), read from field Z *)
CellTo(c, a, f, Z) ==
  LET t(bg) == Elem(a, f, bg[1], bg[2]) * Z[Idx(Shift(c, bg[1]), bg[2])]
  IN SumSet(t, Corners \X (1..F))
LocalResult(r, Z) ==
  [j \in 1..NX |->
     LET c == Coord(G, ((j-1) \div F) + 1)
         f == ((j-1) % F) + 1
         S == {q \in MyCells(r) \X Corners : Shift(Coord(G, q[1]), q[2]) = c}
         t(q) == CellTo(Coord(G, q[1]), q[2], f, Z)
     IN SumSet(t, S)]

Init ==
  /\ \E n1, n2 \in 2..NMAX, p1, p2 \in {0, 1} :
       /\ p1 = 1 => n1 >= 2
       /\ p2 = 1 => n2 >= 2
       /\ G \in {[D |-> 2, n |-> <<n1, n2>>, per |-> <<p1, p2>>, h |-> hh] : hh \in {<<1, 1>>, <<2, 1>>}}
  /\ op \in {"lap", "strain", "mass"}
  /\ bc \in IF op = "mass" THEN {<<>>} ELSE {<<>>, <<1,1,1,1,1,1,1,1>>, <<1,0,0,1,1,1,0,0>>}
  /\ cuts \in {<<A, B>> : A \in SUBSET (1..G.n[1]-1), B \in SUBSET (1..G.n[2]-1)}
  /\ (Cardinality(cuts[1]) + 1) * (Cardinality(cuts[2]) + 1) <= RMAX
  /\ pc = [r \in Ranks |-> "ghost"]
  /\ loc = [r \in Ranks |-> <<>>]
  /\ y = [j \in 1..NX |-> 0]

Ghost(r) == /\ pc[r] = "ghost"
            /\ pc' = [pc EXCEPT ![r] = "flush"]
            /\ loc' = [loc EXCEPT ![r] = LocalResult(r, X)]
            /\ UNCHANGED <<G, op, bc, cuts, y>>
Flush(r) == /\ pc[r] = "flush"
            /\ pc' = [pc EXCEPT ![r] = "bc"]
            /\ y' = [j \in 1..NX |-> y[j] + loc[r][j]]
            /\ UNCHANGED <<G, op, bc, cuts, loc>>
Mine(r, j) == Owner(Coord(G, ((j-1) \div F) + 1)) = r
Dir(j) == bc # <<>> /\ IsDir(G, bc, Coord(G, ((j-1) \div F) + 1), ((j-1) % F) + 1)
Bc(r) == /\ pc[r] = "bc"
         /\ WAITALL => \A s \in Ranks : pc[s] \in {"bc", "done"}
         /\ pc' = [pc EXCEPT ![r] = "done"]
         /\ y' = [j \in 1..NX |-> IF Mine(r, j) /\ Dir(j) THEN ScaleV(G) * X[j] ELSE y[j]]
         /\ UNCHANGED <<G, op, bc, cuts, loc>>
Next == \E r \in Ranks : Ghost(r) \/ Flush(r) \/ Bc(r)
Spec == Init /\ [][Next]_vars

(* every cell is visited by exactly one rank, every node has one owner *)
Partition == /\ \A k \in 1..NNodes(G) : Owner(Coord(G, k)) \in Ranks
             /\ \A k \in 1..NNodes(G) : CellExists(Coord(G, k)) =>
                   Cardinality({r \in Ranks : k \in MyCells(r)}) = 1
Correct == (\A r \in Ranks : pc[r] = "done") => y = BlockOp(op, G, F, bc, X)
=============================================================================
