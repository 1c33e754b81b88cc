-------------------------------- MODULE FE --------------------------------
(***************************************************************************)
(* Exact (integer) discrete Stokes problem of cafes on a structured grid,  *)
(* derived from first principles: every operator is a tensor product of    *)
(* one-dimensional hat-function integrals.  Nothing here is copied from    *)
(* the element tables of the code.                                         *)
(*                                                                         *)
(* A grid G is a record [D, n, per, h]: dimension, nodes per direction,    *)
(* periodicity per direction (0/1), integer mesh step per direction.       *)
(* Fields are flat sequences in natural order (direction 1 fastest), with  *)
(* the components interleaved.                                             *)
(*                                                                         *)
(* 1-D integrals on a cell of size h (a,b = local corners 0/1):            *)
(*   mass       M(a,b) = h/6 * (IF a=b THEN 2 ELSE 1)                      *)
(*   stiffness  K(a,b) = 1/h * (IF a=b THEN 1 ELSE -1)                     *)
(*   mixed      D(a,b) = int phi_a' phi_b = (IF a=0 THEN -1 ELSE 1)/2      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

B2I(b) == IF b THEN 1 ELSE 0

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k-1)
Prod(s) == ProdTo(s, Len(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e-1)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k-1)
SumSeq(s) == SumTo(s, Len(s))

(* Natural numbering of the nodes of a grid. *)
NNodes(G) == Prod(G.n)
Coord(G, k) == [d \in 1..G.D |-> (((k-1) \div ProdTo(G.n, d-1)) % G.n[d])]  \* k from 1
RECURSIVE FlatTo(_, _, _)
FlatTo(n, c, d) == IF d = 0 THEN 0 ELSE c[d] * ProdTo(n, d-1) + FlatTo(n, c, d-1)
Flat(G, c) == 1 + FlatTo(G.n, c, G.D)

(* 1-D neighbourhood.  A cell [c, c+1] exists on the right (left) of node c
   unless c is the last (first) node of a non-periodic direction. *)
CellLeft(G, d, c)  == G.per[d] = 1 \/ c > 0
CellRight(G, d, c) == G.per[d] = 1 \/ c < G.n[d] - 1
Wrap(G, d, c) == (c + G.n[d]) % G.n[d]

(* Assembled 1-D rows, as integer coefficient of the neighbour at offset o:
   "M" (times h/6), "K" (times 1/h), "D" row-derivative (times 1/2),
   "T" column-derivative (times 1/2). *)
Row(kind, G, d, c, o) ==
  LET l == B2I(CellLeft(G, d, c))
      r == B2I(CellRight(G, d, c))
  IN CASE kind = "M" -> IF o = 0 THEN 2 * (l + r) ELSE IF o = 1 THEN r ELSE l
       [] kind = "K" -> IF o = 0 THEN l + r ELSE IF o = 1 THEN -r ELSE -l
       [] kind = "D" -> IF o = 0 THEN l - r ELSE IF o = 1 THEN -r ELSE l
       [] kind = "T" -> IF o = 0 THEN l - r ELSE IF o = 1 THEN r ELSE -l

Offs2 == <<<<-1,-1>>, <<0,-1>>, <<1,-1>>, <<-1,0>>, <<0,0>>, <<1,0>>, <<-1,1>>, <<0,1>>, <<1,1>>>>
Offs3 == [i \in 1..27 |-> <<((i-1) % 3) - 1, (((i-1) \div 3) % 3) - 1, ((i-1) \div 9) - 1>>]
Offs(D) == IF D = 2 THEN Offs2 ELSE Offs3

(* (op_1 (x) op_2 (x) ...) applied at node c to component f of field X
   (F components per node). *)
RECURSIVE RowProd(_, _, _, _, _)
RowProd(kinds, G, c, o, d) ==
  IF d = 0 THEN 1 ELSE Row(kinds[d], G, d, c[d], o[d]) * RowProd(kinds, G, c, o, d-1)

ApplyAt(kinds, G, c, X, f, F) ==
  LET offs == Offs(G.D)
      term(i) == LET o == offs[i]
                     w == RowProd(kinds, G, c, o, G.D)
                 IN IF w = 0 THEN 0
                    ELSE w * X[(Flat(G, [d \in 1..G.D |-> Wrap(G, d, c[d] + o[d])]) - 1) * F + f]
      sum[i \in 0..Len(offs)] == IF i = 0 THEN 0 ELSE sum[i-1] + term(i)
  IN sum[Len(offs)]

AllM(D) == [d \in 1..D |-> "M"]
H2Except(G, e) == Prod([d \in 1..G.D |-> IF d = e THEN 1 ELSE G.h[d] * G.h[d]])
HExcept(G, E) == Prod([d \in 1..G.D |-> IF d \in E THEN 1 ELSE G.h[d]])

RECURSIVE SumDir(_, _)
SumDir(F(_), d) == IF d = 0 THEN 0 ELSE F(d) + SumDir(F, d-1)

(* Vector Laplacian: component f at node c, times 2 * 6^(D-1) * prod h. *)
LapAt(G, c, X, f, F) ==
  LET t(d) == 2 * H2Except(G, d) * ApplyAt([AllM(G.D) EXCEPT ![d] = "K"], G, c, X, f, F)
  IN SumDir(t, G.D)

(* Strain-rate form 2 D(u):D(v) = (grad u + grad u^T):grad v, same scale. *)
StrainAt(G, c, X, f, F) ==
  LET diag == LapAt(G, c, X, f, F)
              + 2 * H2Except(G, f) * ApplyAt([AllM(G.D) EXCEPT ![f] = "K"], G, c, X, f, F)
      off(e) == IF e = f THEN 0
                ELSE 3 * Prod(G.h) * HExcept(G, {e, f})
                     * ApplyAt([AllM(G.D) EXCEPT ![e] = "D", ![f] = "T"], G, c, X, e, F)
  IN diag + SumDir(off, G.D)

(* Mass: times 6^D / prod h. *)
MassAt(G, c, X, f, F) == ApplyAt(AllM(G.D), G, c, X, f, F)

VelAt(op, G, c, X, f) ==
  IF op = "strain" THEN StrainAt(G, c, X, f, G.D) ELSE LapAt(G, c, X, f, G.D)

(***************************************************************************)
(* The pressure grid is the mesh given by the user; the velocity grid is   *)
(* its uniform refinement by two.                                          *)
(***************************************************************************)
PGrid(D, npts, per, h) == [D |-> D, n |-> [d \in 1..D |-> npts[d] - per[d]], per |-> per, h |-> h]
VGrid(D, npts, per, h) ==
  [D |-> D, n |-> [d \in 1..D |-> IF per[d] = 1 THEN 2 * (npts[d] - 1) ELSE 2 * npts[d] - 1],
   per |-> per, h |-> h]

(* Coarse hat functions are combinations of fine ones: interpolation of a
   pressure field to the fine grid, times 2^D. *)
InterpP(V, P, p) ==
  LET at(c) ==
        LET ends(d) == IF c[d] % 2 = 0 THEN <<c[d] \div 2, c[d] \div 2>>
                       ELSE <<c[d] \div 2, Wrap(P, d, c[d] \div 2 + 1)>>
            corners == Offs(2)  \* unused in 3-D; see below
            val(b) == p[Flat(P, [d \in 1..P.D |-> ends(d)[b[d]]])]
        IN IF P.D = 2
           THEN val(<<1,1>>) + val(<<1,2>>) + val(<<2,1>>) + val(<<2,2>>)
           ELSE val(<<1,1,1>>) + val(<<1,1,2>>) + val(<<1,2,1>>) + val(<<1,2,2>>)
              + val(<<2,1,1>>) + val(<<2,1,2>>) + val(<<2,2,1>>) + val(<<2,2,2>>)
  IN [k \in 1..NNodes(V) |-> at(Coord(V, k))]

(* Velocity rows: -int p div v (component f at node c), where PF is the
   interpolated pressure times 2^D; scale 2 * 6^(D-1) * 2^D / prod_{k#f} h_k *)
GradPAt(V, c, PF, f) == -ApplyAt([AllM(V.D) EXCEPT ![f] = "D"], V, c, PF, 1, 1)

(* Divergence tested with fine hats, times 2 * 6^(D-1). *)
DivFine(V, X) ==
  LET at(c) == LET t(d) == HExcept(V, {d}) * ApplyAt([AllM(V.D) EXCEPT ![d] = "T"], V, c, X, d, V.D)
               IN SumDir(t, V.D)
  IN [k \in 1..NNodes(V) |-> at(Coord(V, k))]

(* Pressure rows: int q div u, times 2 * 6^(D-1) * 2^D. *)
DivCoarse(V, P, X) ==
  LET DF == DivFine(V, X)
      at(c) ==
        LET offs == Offs(V.D)
            ok(d, o) == o = 0 \/ P.per[d] = 1 \/ (2 * c[d] + o >= 0 /\ 2 * c[d] + o < V.n[d])
            term(i) == LET o == offs[i]
                       IN IF \A d \in 1..V.D : ok(d, o[d])
                          THEN Prod([d \in 1..V.D |-> IF o[d] = 0 THEN 2 ELSE 1])
                               * DF[Flat(V, [d \in 1..V.D |-> Wrap(V, d, 2 * c[d] + o[d])])]
                          ELSE 0
            sum[i \in 0..Len(offs)] == IF i = 0 THEN 0 ELSE sum[i-1] + term(i)
        IN sum[Len(offs)]
  IN [k \in 1..NNodes(P) |-> at(Coord(P, k))]

(***************************************************************************)
(* Dirichlet conditions.  bc is the flat list of flags [side][component],  *)
(* sides ordered low-1, high-1, low-2, high-2, ...                         *)
(***************************************************************************)
OnSide(G, s, c) ==
  LET d == (s + 1) \div 2
  IN G.per[d] = 0 /\ c[d] = (IF s % 2 = 1 THEN 0 ELSE G.n[d] - 1)
BcFlag(G, bc, s, f) == bc # <<>> /\ bc[(s-1) * G.D + f] = 1
IsDir(G, bc, c, f) == \E s \in 1..2*G.D : BcFlag(G, bc, s, f) /\ OnSide(G, s, c)
DirSide(G, bc, c, f) ==   \* the last side that imposes a value wins
  CHOOSE s \in 1..2*G.D : /\ BcFlag(G, bc, s, f) /\ OnSide(G, s, c)
                          /\ \A t \in s+1..2*G.D : ~(BcFlag(G, bc, t, f) /\ OnSide(G, t, c))
(* value imposed by the harness's condition function of side s, component f *)
SideVal(G, s, f, c) == 100 * s + 10 * f + 3 * c[1] + 7 * c[2] + (IF G.D = 3 THEN 11 * c[3] ELSE 0)

Node(G, k) == Coord(G, ((k-1) \div G.D) + 1)     \* node of entry k of a velocity field
Comp(G, k) == ((k-1) % G.D) + 1

(***************************************************************************)
(* Whole operators, as flat sequences.                                     *)
(***************************************************************************)
ScaleV(G) == 2 * Pow(6, G.D - 1) * Prod(G.h)

BlockOp(op, G, F, bc, X) ==      \* one diagonal block, F components per node
  LET at(k) == LET c == Coord(G, ((k-1) \div F) + 1)
                   f == ((k-1) % F) + 1
               IN CASE op = "mass" -> IF bc # <<>> /\ IsDir(G, bc, c, f) THEN Pow(6, G.D) * X[k]
                                      ELSE Prod(G.h) * MassAt(G, c, X, f, F)
                    [] op = "strain" -> IF bc # <<>> /\ IsDir(G, bc, c, f) THEN ScaleV(G) * X[k]
                                        ELSE StrainAt(G, c, X, f, F)
                    [] op = "lap" -> IF bc # <<>> /\ IsDir(G, bc, c, f) THEN ScaleV(G) * X[k]
                                     ELSE LapAt(G, c, X, f, F)
  IN [k \in 1..NNodes(G)*F |-> at(k)]

StokesV(op, V, P, bc, X, p) ==    \* velocity rows
  LET PF == InterpP(V, P, p)
      at(k) == LET c == Node(V, k)
                   f == Comp(V, k)
               IN IF IsDir(V, bc, c, f) THEN ScaleV(V) * X[k]
                  ELSE VelAt(op, V, c, X, f)
                       + ((Prod(V.h) * HExcept(V, {f}) * GradPAt(V, c, PF, f)) \div Pow(2, V.D))
  IN [k \in 1..NNodes(V)*V.D |-> at(k)]
StokesP(V, P, X) == DivCoarse(V, P, X)

(* Diagonals: Laplacian times 3^D prod h, mass times 3^D / prod h. *)
NCells(G, d, c) == B2I(CellLeft(G, d, c)) + B2I(CellRight(G, d, c))
DiagAt(op, G, c) ==
  LET cells == Prod([d \in 1..G.D |-> NCells(G, d, c[d])])
      t(d) == 3 * H2Except(G, d)
  IN IF op = "mass" THEN cells ELSE cells * SumDir(t, G.D)
DiagOp(op, G, F) == [k \in 1..NNodes(G)*F |-> DiagAt(op, G, Coord(G, ((k-1) \div F) + 1))]

(* Body force of the harness (component f at lattice point c). *)
Force(G, f, c) == CASE f = 1 -> 2 + 3 * c[1] - c[2]
                    [] f = 2 -> -1 + c[1] * c[2]
                    [] f = 3 -> 5 - c[1] + 2 * c[3]
ForceField(G, fl) == [k \in 1..NNodes(G)*G.D |->
                        IF fl[Comp(G, k)] = 1 THEN Force(G, Comp(G, k), Node(G, k)) ELSE 0]
Rhs(G, fl) == LET FF == ForceField(G, fl)
              IN [k \in 1..NNodes(G)*G.D |-> MassAt(G, Node(G, k), FF, Comp(G, k), G.D)]
=============================================================================
