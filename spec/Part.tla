-------------------------------- MODULE Part --------------------------------
(***************************************************************************)
(* Rigid particles in a fluid grid G.                                      *)
(*                                                                         *)
(* Positions are points of the quarter lattice: q stands for the point      *)
(* (q_d h_d / 4)_d.  A particle p is a record                               *)
(*   k, r2   ball (0) or box (1), sixteen times its squared radius          *)
(*   c       centre, s  sequence of surface points (distinct)               *)
(*   a       area represented by one surface point, vol volume              *)
(*   cd, ci  drag factors of the surface and of the volume                  *)
(*   v, w    translation and angular velocity, f force, rho density factor  *)
(* Fields are flat sequences as in FE, surface data functions of the        *)
(* particle and the point.  Scales are stated with every operator.          *)
(***************************************************************************)
EXTENDS FE, FiniteSetsExt, SequencesExt, TLC

(* TLCEval only makes TLC compute a table once *)

SumOver(S, f(_)) == MapThenSumSet(f, S)

(***************************************************************************)
(* Points.                                                                 *)
(***************************************************************************)
Inside(G, p, q) ==
  LET e(d) == G.h[d] * (q[d] - p.c[d]) * G.h[d] * (q[d] - p.c[d])
  IN IF p.k = 0 THEN SumSeq([d \in 1..G.D |-> e(d)]) < p.r2
     ELSE \A d \in 1..G.D : e(d) < p.r2
CellMax(G, d) == G.n[d] - 2 + G.per[d]        \* cells 0..CellMax
(* points of the lattice of step 4/sc quarters inside p and in the domain
   (without its upper walls) *)
Span(G, p, sc, d) ==
  {x \in 0..(4 * (CellMax(G, d) + 1) - 1) :
     /\ x % (4 \div sc) = 0
     /\ G.h[d] * (x - p.c[d]) * G.h[d] * (x - p.c[d]) < p.r2}
Sub(G, p, sc) ==
  LET cand == IF G.D = 2 THEN {<<x, y>> : x \in Span(G, p, sc, 1), y \in Span(G, p, sc, 2)}
              ELSE {<<x, y, z>> : x \in Span(G, p, sc, 1), y \in Span(G, p, sc, 2), z \in Span(G, p, sc, 3)}
  IN {q \in cand : Inside(G, p, q)}
Nodes(G, p) == {[d \in 1..G.D |-> q[d] \div 4] : q \in Sub(G, p, 1)}
CellOf(q) == [d \in DOMAIN q |-> q[d] \div 4]
OffOf(q) == [d \in DOMAIN q |-> q[d] % 4]
RadOf(p, q) == [d \in DOMAIN q |-> q[d] - p.c[d]]
InDomain(G, q) == \A d \in 1..G.D : 0 <= q[d] \div 4 /\ q[d] \div 4 <= CellMax(G, d)
(* the surface points of particle p, given the sampling step *)
Sampled(p, st) == {p.s[i] : i \in {j \in DOMAIN p.s : (j - 1) % st = 0}}
Surf(G, p, st) == {q \in Sampled(p, st) : InDomain(G, q)}

(***************************************************************************)
(* Interpolation, times 4^D; spreading is its transpose.                   *)
(***************************************************************************)
Wt(G, q, c) ==    \* weight of node c at the point q
  Prod([d \in 1..G.D |-> LET o == q[d] \div 4
                         IN IF c[d] = o THEN 4 - (q[d] % 4)
                            ELSE IF c[d] = Wrap(G, d, o + 1) THEN q[d] % 4 ELSE 0])
CornersOf(G, q) ==
  LET o == CellOf(q)
      w(b) == [d \in 1..G.D |-> IF b[d] = 0 THEN o[d] ELSE Wrap(G, d, o[d] + 1)]
  IN IF G.D = 2 THEN {w(<<0,0>>), w(<<1,0>>), w(<<0,1>>), w(<<1,1>>)}
     ELSE {w(<<0,0,0>>), w(<<1,0,0>>), w(<<0,1,0>>), w(<<1,1,0>>),
           w(<<0,0,1>>), w(<<1,0,1>>), w(<<0,1,1>>), w(<<1,1,1>>)}
(* the node beyond an upper wall is never needed with a non-zero weight *)
At(G, U, c, f) == U[(Flat(G, c) - 1) * G.D + f]
Corners(G, q) ==      \* the nodes with a non-zero weight, with the weight
  LET ax(d) == LET o == q[d] \div 4
                   x == q[d] % 4
               IN IF x = 0 THEN <<<<o, 4>>>> ELSE <<<<o, 4 - x>>, <<Wrap(G, d, o + 1), x>>>>
      X == TLCEval(ax(1))
      Y == TLCEval(ax(2))
      V == IF G.D = 2 THEN <<>> ELSE TLCEval(ax(3))
      nx == Len(X)
      ny == Len(Y)
  IN IF G.D = 2
     THEN [k \in 1..nx * ny |-> LET a == X[((k-1) % nx) + 1]
                                    b == Y[((k-1) \div nx) + 1]
                                IN <<Flat(G, <<a[1], b[1]>>), a[2] * b[2]>>]
     ELSE [k \in 1..nx * ny * Len(V) |-> LET a == X[((k-1) % nx) + 1]
                                             b == Y[(((k-1) \div nx) % ny) + 1]
                                             c == V[((k-1) \div (nx * ny)) + 1]
                                         IN <<Flat(G, <<a[1], b[1], c[1]>>), a[2] * b[2] * c[2]>>]
Interp(G, U, q) ==
  LET C == TLCEval(Corners(G, q))
  IN TLCEval([f \in 1..G.D |-> FoldLeft(LAMBDA x, t : x + t[2] * U[(t[1] - 1) * G.D + f], 0, C)])

(* products with angular velocities and moments; in the plane these have one
   component *)
Moment(D, a, b) == IF D = 2 THEN <<a[1] * b[2] - a[2] * b[1]>>
                   ELSE <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Spin(D, w, r) == IF D = 2 THEN <<-w[1] * r[2], w[1] * r[1]>>
                 ELSE <<w[2]*r[3] - w[3]*r[2], w[3]*r[1] - w[1]*r[3], w[1]*r[2] - w[2]*r[1]>>
Rad4(G, p, q) == [d \in 1..G.D |-> G.h[d] * (q[d] - p.c[d])]      \* four times the radius
MomDim(D) == IF D = 2 THEN 1 ELSE 3

(* rigid motion of p at q, times 4 *)
Rigid4(G, p, q) == LET s == Spin(G.D, p.w, Rad4(G, p, q))
                   IN [f \in 1..G.D |-> 4 * p.v[f] + s[f]]
(* jump across the surface: fluid minus rigid motion, times 4^D *)
Jump(G, U, p, q, rigid) ==
  LET i == Interp(G, U, q)
      r == Rigid4(G, p, q)
  IN [f \in 1..G.D |-> i[f] - (IF rigid THEN Pow(4, G.D - 1) * r[f] ELSE 0)]

(* mean over the surface points of p of a density g(q): times their number;
   its mean moment times the drag factor: times 4 times their number *)
MeanN(G, p, P, g(_)) == [f \in 1..G.D |-> LET t(q) == g(q)[f] IN SumOver(P, t)]
MomN(G, p, P, g(_)) == [f \in 1..MomDim(G.D) |-> LET t(q) == Moment(G.D, Rad4(G, p, q), g(q))[f] IN p.cd * SumOver(P, t)]
(* g minus its rigid part, times 16 times the number of points *)
Layer(G, p, P, g(_), q) ==
  LET m == TLCEval(MeanN(G, p, P, g))
      x == TLCEval(MomN(G, p, P, g))
      s == Spin(G.D, x, Rad4(G, p, q))
  IN [f \in 1..G.D |-> 16 * Cardinality(P) * g(q)[f] - 16 * m[f] - s[f]]

(* density g(i, q) spread on the grid: entry (c, f), times 4^D; the entries of
   imposed velocities receive nothing.  PP: sequence of sets of points. *)
Spread(G, bc, PP, val(_, _)) ==
  [k \in 1..NNodes(G) * G.D |->
     LET c == Node(G, k)
         f == Comp(G, k)
         one(i) == LET t(q) == LET x == Wt(G, q, c) IN IF x = 0 THEN 0 ELSE x * val(i, q)[f]
                   IN SumOver(PP[i], t)
     IN IF IsDir(G, bc, c, f) THEN 0 ELSE SumSeq([i \in DOMAIN PP |-> one(i)])]

(***************************************************************************)
(* Volume: control forces on the nodes inside the particles.               *)
(***************************************************************************)
Owner(G, ps) ==      \* which particle holds a node (0: none); particles are disjoint
  LET N == TLCEval([i \in DOMAIN ps |-> Nodes(G, ps[i])])
  IN TLCEval([k \in 1..NNodes(G) |-> LET H == {i \in DOMAIN ps : Coord(G, k) \in N[i]}
                                     IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE])
OnlyOwn(G, own, X) == [k \in 1..Len(X) |-> IF own[((k-1) \div G.D) + 1] = 0 THEN 0 ELSE X[k]]
(* control plus, when asked, the density of the imposed force *)
WithForce(G, ps, own, X, forces) ==
  TLCEval([k \in 1..Len(X) |->
             LET i == own[((k-1) \div G.D) + 1]
             IN IF i = 0 THEN 0
                ELSE X[k] + (IF forces THEN ps[i].rho * ps[i].f[Comp(G, k)] ELSE 0)])
(* its contribution to the right-hand side, times 6^D *)
Load(G, X) == [k \in 1..Len(X) |-> Prod(G.h) * MassAt(G, Node(G, k), X, Comp(G, k), G.D)]
Dirichlet(G, bc, R, full, S) ==      \* right-hand side R of scale S, conditions written over it
  [k \in 1..Len(R) |-> LET c == Node(G, k)
                           f == Comp(G, k)
                       IN IF ~IsDir(G, bc, c, f) THEN R[k]
                          ELSE IF full THEN S * SideVal(G, DirSide(G, bc, c, f), f, c) ELSE 0]
Plus(S, A, B) == [k \in DOMAIN A |-> S * A[k] + B[k]]

(* average of a field over the lattice points inside p: times their number
   and 4^D (T = Inner(G, U, Q) holds its values there); its moment, times 4 more *)
Inner(G, U, Q) ==      \* points with the values there
  LET R == TLCEval(SetToSeq(Q)) IN TLCEval([i \in 1..Len(R) |-> <<R[i], Interp(G, U, R[i])>>])
ProjMean(G, T) == TLCEval([f \in 1..G.D |-> FoldLeft(LAMBDA a, t : a + t[2][f], 0, T)])
ProjMom(G, p, T) == TLCEval([f \in 1..MomDim(G.D) |->
                       FoldLeft(LAMBDA a, t : a + Moment(G.D, Rad4(G, p, t[1]), t[2])[f], 0, T)])
(* the field minus a rigid motion (mean scaled by sm, moment by sx) at node c,
   times sx * 4 where sx is a multiple of sm: rat = 4 sx / sm *)
Minus(G, p, u, mean, mom, c, sx, rat) ==
  LET s == Spin(G.D, mom, Rad4(G, p, [d \in 1..G.D |-> 4 * c[d]]))
  IN [f \in 1..G.D |-> 4 * sx * u[f] - rat * mean[f] - p.ci * s[f]]
=============================================================================
