----------------------------- MODULE TracePart -----------------------------
(* Recorded particle operations of the code against module Part.  s is the
   line of the last set-up; ps the particles with their present motion; g, pp,
   own the grid, the surface points and the owners of the nodes, which follow
   from the set-up. *)
EXTENDS Part, TraceBase

VARIABLES l, s, ps, m, g, pp, own
E == Trace[l]
S == Trace[s]
G == g
PP == pp
D == S.D
Z == [k \in 1..NNodes(G) * D |-> 0]
np == Len(ps)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, TLCEval(ss))
Set(q) == {q[i] : i \in DOMAIN q}
SameSet(what, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT(<<"MISMATCH", what, "line", l, "missing", want \ got, "extra", got \ want>>) /\ FALSE
(* the same on every process *)
All(what, got, want) == \A r \in DOMAIN got : Same(what, l, got[r], want)

(* C13, C14: sets of points *)
Setup ==
  /\ E.ev = "setup"
  /\ g' = VGrid(E.D, E.n, E.per, E.h)
  /\ pp' = [i \in DOMAIN E.parts |-> Surf(g', E.parts[i], E.dp)]
  /\ own' = Owner(g', E.parts)
  /\ LET H == g'
         in == TLCEval([i \in DOMAIN E.parts |-> Nodes(H, E.parts[i])])
         nodes == UNION Set(in)
         ents == Concat(E.ent)
         rows == Concat(E.surf)
         srf == pp'
         want == UNION {{<<i>> \o CellOf(q) \o OffOf(q) \o RadOf(E.parts[i], q) : q \in srf[i]} : i \in DOMAIN srf}
     IN /\ SameSet("control points", Set(ents),
                   UNION {{(Flat(H, c) - 1) * E.D + f : f \in 0..E.D-1} : c \in nodes})
        /\ Is("number of unknowns", l, Len(ents), E.D * SumSeq([i \in DOMAIN in |-> Cardinality(in[i])]))
        /\ Is("sizes", l, E.D * SumSeq(Concat(E.size)), Len(ents))
        /\ SameSet("surface points", Set(rows), want)
        /\ Is("surface points kept", l, Len(rows), Cardinality(want))
        /\ All("number of surface points", E.nb, [i \in DOMAIN srf |-> Cardinality(srf[i])])
        /\ All("number of points inside", E.num, [i \in DOMAIN E.parts |-> Cardinality(Sub(H, E.parts[i], E.scale))])
  /\ s' = l /\ ps' = E.parts
  /\ m' = [op |-> "", sem |-> 0, solves |-> <<>>, x |-> <<>>, b |-> <<>>,
         ans |-> [k \in 1..NNodes(g') * E.D |-> 0]]

(* rows [particle, point, value] of surface data *)
SurfRows(what, val(_, _)) ==
  LET rows == Concat(E.g)
      want == UNION {{<<i>> \o q \o val(i, q) : q \in PP[i]} : i \in 1..np}
  IN SameSet(what, Set(rows), want) /\ Is(what, l, Len(rows), Cardinality(want))
Known(i, q) == [f \in 1..D |-> ((7 * i + 5 * f + SumSeq([e \in 1..D |-> (3 * e - 1) * q[e]])) % 9) - 4]
Flat2(f(_), n) == Concat(TLCEval([i \in 1..n |-> f(i)]))

(* C16 *)
InterpEv ==
  /\ E.ev = "interp"
  /\ Same("interpolated field changed", l, E.uo, E.u)
  /\ SurfRows("values on the surfaces", LAMBDA i, q : Jump(G, E.u, ps[i], q, E.rigid = 1))
SpreadEv ==
  /\ E.ev = "spread"
  /\ Is("pressure rows of the spread density", l, E.pz, 1)
  /\ Same("spread density", l, E.r, LET P == PP IN Spread(G, S.bc, P, LAMBDA i, q : [f \in 1..D |-> ps[i].a * Known(i, q)[f]]))
(* C17 *)
LayerEv ==
  /\ E.ev = "layer"
  /\ All("mean over the surface", E.mean, Flat2(LAMBDA i : MeanN(G, ps[i], PP[i], LAMBDA q : Known(i, q)), np))
  /\ All("mean moment over the surface", E.cross, Flat2(LAMBDA i : MomN(G, ps[i], PP[i], LAMBDA q : Known(i, q)), np))
  /\ SurfRows("density without its rigid part", LAMBDA i, q : Layer(G, ps[i], PP[i], LAMBDA t : Known(i, t), q))
ProjEv ==
  /\ E.ev = "proj"
  /\ LET T == TLCEval([i \in 1..np |-> Inner(G, E.u, TLCEval(Sub(G, ps[i], S.scale)))])
     IN /\ All("mean over the volume", E.mean, Flat2(LAMBDA i : ProjMean(G, T[i]), np))
        /\ All("mean moment over the volume", E.cross, Flat2(LAMBDA i : ProjMom(G, ps[i], T[i]), np))
TakeEv ==
  /\ E.ev = "take"
  /\ LET md == MomDim(D)
     IN Same("values taken at the control points", l, E.y,
          [k \in 1..Len(Z) |->
             LET i == own[((k-1) \div D) + 1]
                 c == Node(G, k)
             IN IF i = 0 THEN 0
                ELSE IF E.sub = 0 THEN 4 * E.u[k]
                ELSE Minus(G, ps[i], [f \in 1..D |-> At(G, E.u, c, f)], [f \in 1..D |-> E.mean[(i-1)*D + f]],
                           [f \in 1..md |-> E.cross[(i-1)*md + f]], c, 1, 4)[Comp(G, k)]])
(* C18 *)
LoadEv ==
  /\ E.ev = "load"
  /\ /\ Same("control changed", l, E.xo, OnlyOwn(G, own, E.x))
        /\ Same("right-hand side with the control", l, E.r,
                Plus(Pow(6, D), E.old, Load(G, WithForce(G, ps, own, E.x, E.f = 1))))
  /\ Is("pressure rows", l, E.pz, 1)
InitEv ==
  /\ E.ev = "init"
  /\ LET R == Plus(Pow(6, D), [k \in DOMAIN Z |-> E.old[k] + (IF E.full = 1 THEN S.F[k] ELSE 0)],
                   Load(G, WithForce(G, ps, own, E.x, E.f = 1)))
     IN Same("loaded fluid problem", l, E.r, Dirichlet(G, S.bc, R, E.full = 1, Pow(6, D)))
ForceOf(X, i) == [f \in 1..D |-> LET t(c) == At(G, X, c, f) IN ps[i].vol * SumOver(Nodes(G, ps[i]), t)]
TorqueOf(X, i) == [f \in 1..MomDim(D) |->
   LET t(c) == Moment(D, Rad4(G, ps[i], [d \in 1..D |-> 4 * c[d]]), [e \in 1..D |-> At(G, X, c, e)])[f]
   IN ps[i].vol * SumOver(Nodes(G, ps[i]), t)]
ForceEv ==
  /\ E.ev = "force"
  /\ Same("control points per particle", l, E.cnt, [i \in 1..np |-> Cardinality(Nodes(G, ps[i]))])
  /\ All("forces", E.f, Flat2(LAMBDA i : ForceOf(E.x, i), np))
  /\ All("torques", E.t, Flat2(LAMBDA i : TorqueOf(E.x, i), np))

(***************************************************************************)
(* C21: the life of a particle problem.  m.solves is the list of the lines  *)
(* of the fluid problems solved in the current operation.                   *)
(***************************************************************************)
(* scale of a spread density: DtoN 16^D, SEM 16^D * 16 * L *)
L == Prod([i \in 1..np |-> Cardinality(PP[i])])
Density(sem, rigid, U) ==
  LET j(i, q) == Jump(G, U, ps[i], q, rigid)
      P == TLCEval(PP)
      tab == TLCEval([i \in 1..np |-> [q \in P[i] |-> j(i, q)]])
      lay == TLCEval([i \in 1..np |-> [q \in P[i] |->
               IF sem = 0 THEN tab[i][q]
               ELSE LET v == Layer(G, ps[i], P[i], LAMBDA t : tab[i][t], q)
                    IN [f \in 1..D |-> (L \div Cardinality(P[i])) * v[f]]]])
  IN Spread(G, S.bc, P, LAMBDA i, q : [f \in 1..D |-> ps[i].a * lay[i][q][f]])
(* what the operator returns at the control points: DtoN as it is, SEM minus
   the mean rigid motion, times 4^(D+2) times the number of points inside *)
Result(sem, U) ==
  LET Q == TLCEval([i \in 1..np |-> IF sem = 0 THEN {} ELSE Sub(G, ps[i], S.scale)])
      T == TLCEval([i \in 1..np |-> Inner(G, U, Q[i])])
      mean == TLCEval([i \in 1..np |-> ProjMean(G, T[i])])
      mom == TLCEval([i \in 1..np |-> ProjMom(G, ps[i], T[i])])
  IN [k \in 1..Len(Z) |->
        LET i == own[((k-1) \div D) + 1]
            c == Node(G, k)
        IN IF i = 0 THEN 0
           ELSE IF sem = 0 THEN U[k]
           ELSE Minus(G, ps[i], [f \in 1..D |-> At(G, U, c, f)], mean[i], mom[i], c,
                      Pow(4, D + 1) * Cardinality(Q[i]), 16)[Comp(G, k)]]
Neg(X) == [k \in DOMAIN X |-> -X[k]]
(* fluid problem with control X: all contributions, or the linear part *)
Fluid(X, full, forces) ==
  Dirichlet(G, S.bc, Plus(Pow(6, D), IF full THEN S.F ELSE Z, Load(G, WithForce(G, ps, own, X, forces))),
               full, Pow(6, D))
(* the last two fluid problems are those of one application of the operator *)
Applied(X, full) ==
  LET n == Len(m.solves)
      a == Trace[m.solves[n-1]]
      b == Trace[m.solves[n]]
  IN /\ Is("fluid problems in an application", l, n >= 2, TRUE)
     /\ Is("pressure rows", l, <<a.pz, b.pz>>, <<1, 1>>)
     /\ Same("first fluid problem", l, a.rm, Fluid(X, full, full /\ m.sem = 1))
     /\ Same("second fluid problem", l, b.rs, Density(m.sem, full /\ m.sem = 0, a.u))
LastU == Trace[m.solves[Len(m.solves)]].u

Begin == /\ E.ev = "begin"
         /\ m' = [m EXCEPT !.op = E.op, !.sem = E.sem]
         /\ UNCHANGED <<s, ps, g, pp, own>>
FSolve == /\ E.ev = "fsolve"
          /\ m' = [m EXCEPT !.solves = Append(@, l)]
          /\ UNCHANGED <<s, ps, g, pp, own>>
SetupDone == /\ E.ev = "setupdone"
             /\ Applied(Z, TRUE)
             /\ m' = [m EXCEPT !.b = Neg(Result(m.sem, LastU))]
             /\ UNCHANGED <<s, ps, g, pp, own>>
Outer == /\ E.ev = "outer"
         /\ Same("right-hand side of the outer iteration", l, E.b, m.b)
         /\ UNCHANGED <<s, ps, m, g, pp, own>>
Apply == /\ E.ev = "apply"
         /\ m' = [m EXCEPT !.x = E.x, !.solves = <<>>]
         /\ UNCHANGED <<s, ps, g, pp, own>>
Mult == /\ E.ev = "mult"
        /\ Same("operand changed", l, E.xo, OnlyOwn(G, own, m.x))
        /\ Applied(m.x, FALSE)
        /\ Same("result of the operator", l, E.y, Result(m.sem, LastU))
        /\ UNCHANGED <<s, ps, m, g, pp, own>>
Answer == /\ E.ev = "answer"
          /\ m' = [m EXCEPT !.ans = E.x, !.solves = <<>>]
          /\ UNCHANGED <<s, ps, g, pp, own>>
Final == /\ E.ev = "final"
         /\ Is("a fluid problem was solved with the control", l, Len(m.solves) >= 1, TRUE)
         /\ LET a == Trace[m.solves[Len(m.solves)]]
            IN /\ Same("final fluid problem", l, a.rm, Fluid(m.ans, TRUE, m.sem = 1))
               /\ Is("pressure rows", l, a.pz, 1)
               /\ Same("final solution", l, E.u, a.u)
         /\ UNCHANGED <<s, ps, m, g, pp, own>>
Changed == /\ E.ev = "changed"
           /\ ps' = E.parts
           /\ UNCHANGED <<s, m, g, pp, own>>
(* velocities: means over the surfaces, times 4^D times the number of points *)
Velo == /\ E.ev = "velo"
        /\ All("velocities of the particles", E.v,
               Flat2(LAMBDA i : MeanN(G, ps[i], PP[i], LAMBDA q : Interp(G, LastU, q)), np))
        /\ UNCHANGED <<s, ps, m, g, pp, own>>
SForce == /\ E.ev = "sforce"
          /\ All("forces on the particles", E.f, Flat2(LAMBDA i : ForceOf(m.ans, i), np))
          /\ All("torques on the particles", E.t, Flat2(LAMBDA i : TorqueOf(m.ans, i), np))
          /\ UNCHANGED <<s, ps, m, g, pp, own>>

(* C13, C14 with real shapes (lengths in units, coordinates also in 1/65536 of a cell) *)
K == 65536
Close(x, y) == x - y < 9 /\ y - x < 9
CloseP(p, q) == \A d \in DOMAIN q : Close(p[d], q[d])
RealNodes(H, ents, got) ==
  LET dist(c) == SumSeq([d \in 1..E.D |-> (c[d] * E.h[d] - E.c[d]) * (c[d] * E.h[d] - E.c[d])])
      dom == {c \in {Coord(H, k) : k \in 1..NNodes(H)} : \A d \in 1..E.D : c[d] <= CellMax(H, d)}
      (* a node on the boundary is not inside; that is decided where no
         rounding enters: along an axis, lengths being powers of two *)
      on(c) == /\ dist(c) = E.r * E.r /\ E.unit = 64 /\ E.r \in {8, 16, 32, 64}
               /\ Cardinality({d \in 1..E.D : c[d] * E.h[d] # E.c[d]}) = 1
  IN /\ SameSet("nodes on the boundary", {c \in got : on(c)}, {})
     /\ SameSet("nodes inside", {c \in dom : dist(c) < E.r * E.r} \ got, {})
     /\ SameSet("nodes outside", got \ {c \in dom : dist(c) <= E.r * E.r}, {})
     /\ SameSet("the nodes do not depend on the partition", Set(ents),
                {E.D * k + f : k \in Set(E.all[1]), f \in 0..E.D-1})
     /\ Is("each node once", l, Len(ents), Cardinality(Set(ents)))
     /\ Is("sizes", l, E.D * SumSeq(Concat(E.size)), Len(ents))
(* W and V: where the kept points are, from their cell and from their radius.
   K is a cell: a coordinate is clear of a border when it is 8 away.  A shape
   may list a point more than once. *)
RealSurface(H, rows, W, V) ==
  LET match(j, q) == CloseP(W[j], q) /\ CloseP(V[j], q)
      dup(q) == Cardinality({j \in DOMAIN E.pts : CloseP(E.pts[j], q)})
      kept(q) == Cardinality({j \in DOMAIN W : match(j, q)})
      bad(q) == \E d \in 1..E.D : q[d] < -8 \/ q[d] > K * (CellMax(H, d) + 1) + 8
      ok(q) == \A d \in 1..E.D : q[d] > 8 /\ q[d] < K * (CellMax(H, d) + 1) - 8
  IN /\ \A i \in DOMAIN E.pts :
          IF ok(E.pts[i]) THEN Is("surface point kept", l, <<i, kept(E.pts[i])>>, <<i, dup(E.pts[i])>>)
          ELSE IF bad(E.pts[i]) THEN Is("surface point outside kept", l, <<i, kept(E.pts[i])>>, <<i, 0>>)
          ELSE TRUE
     /\ \A j \in DOMAIN rows :
          /\ Is("kept point lies in its cell", l, \A d \in 1..E.D : -8 <= rows[j][E.D + d] /\ rows[j][E.D + d] <= K + 8, TRUE)
          /\ Is("kept point is one of the particle", l, \E i \in DOMAIN E.pts : match(j, E.pts[i]), TRUE)
     /\ All("number of surface points", E.nb, <<Len(rows)>>)
Real ==
  /\ E.ev = "real"
  /\ \E H \in {VGrid(E.D, E.n, E.per, E.h)}, ents \in {Concat(E.ent)}, rows \in {Concat(E.surf)} :
       /\ \E got \in {{Coord(H, (e \div E.D) + 1) : e \in Set(ents)}} : RealNodes(H, ents, got)
       /\ \E W \in {TLCEval([j \in DOMAIN rows |-> TLCEval([d \in 1..E.D |-> K * rows[j][d] + rows[j][E.D + d]])])},
             V \in {TLCEval([j \in DOMAIN rows |-> TLCEval([d \in 1..E.D |-> rows[j][2 * E.D + d] + E.ck[d]])])} :
            RealSurface(H, rows, W, V)
  /\ UNCHANGED <<s, ps, m, g, pp, own>>

Init == l = 1 /\ s = 0 /\ ps = <<>> /\ m = <<>> /\ g = <<>> /\ pp = <<>> /\ own = <<>>
Next == /\ l <= Len(Trace)
        /\ \/ Setup
           \/ /\ (InterpEv \/ SpreadEv \/ LayerEv \/ ProjEv \/ TakeEv \/ LoadEv \/ InitEv \/ ForceEv \/ EndOf(l))
              /\ UNCHANGED <<s, ps, m, g, pp, own>>
           \/ Begin \/ FSolve \/ SetupDone \/ Outer \/ Apply \/ Mult \/ Answer \/ Final \/ Changed \/ Velo \/ SForce \/ Real
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, ps, m, g, pp, own>>
=============================================================================
