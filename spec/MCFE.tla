-------------------------------- MODULE MCFE --------------------------------
(***************************************************************************)
(* Design-level check of the discrete problem of module FE: on every grid   *)
(* of a small family and every basis vector, the operators have the          *)
(* structure a Stokes discretisation must have.  One state = one grid, one   *)
(* form and one basis vector.                                                *)
(***************************************************************************)
EXTENDS FE, TLC
CONSTANTS NS2, NS3
HS == {<<1,1,1>>, <<2,1,3>>}
VARIABLES D, np, per, h, op, k, ph

vars == <<D, np, per, h, op, k, ph>>
V == VGrid(D, np, per, h)
P == PGrid(D, np, per, h)
NV == NNodes(V) * D
NP == NNodes(P)

Init ==
  /\ \/ D = 2 /\ np \in NS2 \X NS2
     \/ D = 3 /\ np \in NS3 \X NS3 \X NS3
  /\ per \in [1..D -> {0, 1}]
  /\ \A d \in 1..D : per[d] = 1 => np[d] >= 3
  /\ h \in {[d \in 1..D |-> s[d]] : s \in HS}
  /\ op \in {"lap", "strain"}
  /\ k = 1 /\ ph = "v"
Next ==
  /\ \/ ph = "v" /\ k < NV /\ k' = k + 1 /\ ph' = "v"
     \/ ph = "v" /\ k = NV /\ k' = 1 /\ ph' = "p"
     \/ ph = "p" /\ k < NP /\ k' = k + 1 /\ ph' = "p"
  /\ UNCHANGED <<D, np, per, h, op>>
Spec == Init /\ [][Next]_vars

Unit(n, i) == [j \in 1..n |-> B2I(j = i)]
Gen(n, m) == [j \in 1..n |-> ((j * m) % 11) - 5]          \* a generic vector
RECURSIVE DotTo(_, _, _)
DotTo(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotTo(a, b, n - 1)
Dot(a, b) == DotTo(a, b, Len(a))
Zero(n) == [j \in 1..n |-> 0]
VelOp(X) == BlockOp(op, V, D, <<>>, X)
MassV(X) == BlockOp("mass", V, D, <<>>, X)
MassP(X) == BlockOp("mass", P, 1, <<>>, X)
Q4(p) == [j \in 1..NP |-> Pow(2, D) * p[j]]

(* (A e_k) . w = e_k . (A w) for a generic w *)
Symmetric ==
  IF ph = "v" THEN /\ Dot(VelOp(Unit(NV, k)), Gen(NV, 7)) = VelOp(Gen(NV, 7))[k]
                   /\ Dot(MassV(Unit(NV, k)), Gen(NV, 7)) = MassV(Gen(NV, 7))[k]
  ELSE Dot(MassP(Unit(NP, k)), Gen(NP, 7)) = MassP(Gen(NP, 7))[k]
(* energy of a basis vector is positive *)
Definite == IF ph = "v" THEN VelOp(Unit(NV, k))[k] > 0 /\ MassV(Unit(NV, k))[k] > 0
            ELSE MassP(Unit(NP, k))[k] > 0
(* uniform translations, and for the strain form rigid rotations too, carry no
   energy; tested against basis vector k *)
Rigid == ph = "v" =>
  /\ \A f \in 1..D : VelOp([j \in 1..NV |-> B2I(Comp(V, j) = f)])[k] = 0
  /\ (op = "strain" /\ \A d \in 1..D : per[d] = 0) =>
       \A a, b \in 1..D : a # b =>
         VelOp([j \in 1..NV |-> LET c == Node(V, j) f == Comp(V, j)
                                IN IF f = a THEN -(c[b] * V.h[b]) ELSE IF f = b THEN c[a] * V.h[a] ELSE 0])[k] = 0
(* the momentum rows of a pressure and the continuity rows of a velocity are
   opposite transposes: <G p, v> = -<p, B v> (both in the scale
   2 6^(D-1) 2^D; the velocity rows carry an extra prod h) *)
Coupling == ph = "p" =>
  LET g == StokesV(op, V, P, <<>>, Zero(NV), Q4(Unit(NP, k)))
      b == StokesP(V, P, Gen(NV, 7))
  IN Dot(g, Gen(NV, 7)) = -(Prod(V.h) * b[k])
(* a constant pressure does no work on a velocity vanishing on the boundary,
   a uniform velocity has no divergence *)
DivFree == ph = "p" =>
  \A f \in 1..D : StokesP(V, P, [j \in 1..NV |-> B2I(Comp(V, j) = f)])[k] = 0
ConstP == ph = "v" =>
  LET g == StokesV(op, V, P, <<>>, Zero(NV), Q4([j \in 1..NP |-> 1]))
  IN (\A s \in 1..2*D : ~OnSide(V, s, Node(V, k))) => g[k] = 0
(* total mass is the volume *)
Volume ==
  LET cells(G) == Prod([d \in 1..D |-> IF G.per[d] = 1 THEN G.n[d] ELSE G.n[d] - 1])
      M(G, n) == BlockOp("mass", G, 1, <<>>, [j \in 1..n |-> 1])
  IN k = 1 => /\ SumSeq(M(V, NNodes(V))) = Prod(V.h) * cells(V) * Pow(6, D)
              /\ SumSeq(M(P, NP)) = Prod(P.h) * cells(P) * Pow(6, D)
(* the row of a Dirichlet entry is the identity, whatever the operator *)
DirRows ==
  LET bc == [i \in 1..2*D*D |-> B2I((i + k) % 3 # 0)]
      x == Gen(NV, 7)
  IN ph = "v" => (IsDir(V, bc, Node(V, k), Comp(V, k)) =>
       StokesV(op, V, P, bc, x, Q4(Gen(NP, 5)))[k] = ScaleV(V) * x[k])
(* the diagonal used for preconditioning is the diagonal of the operator *)
DiagOK == ph = "v" =>
  LET kk == ((k-1) \div D) * D + 1 IN
  /\ op = "lap" => Pow(3, D) * VelOp(Unit(NV, k))[k] = 2 * Pow(6, D-1) * DiagOp("lap", V, D)[k]
  /\ MassV(Unit(NV, k))[k] = Prod(V.h) * Pow(2, D) * DiagOp("mass", V, D)[k]
=============================================================================
