----------------------------- MODULE TraceSing -----------------------------
(* Recorded lubrication fields, right-hand sides and forces of the code       *)
(* against module Sing. Numbers are recorded with twelve decimals.            *)
EXTENDS Tang, FiniteSets, TraceBase

VARIABLES l
E == Trace[l]

F(x) == Pad(x)
\* |got - want| <= 10^-8 (1 + scale)
Tol(scale) == DivInt(DivInt(Add(One, scale), 10000), 10000)
Close(what, got, want, scale) ==
    IF Near(got, want, Tol(scale)) THEN TRUE
    ELSE PrintT(<<"MISMATCH", what, "line", l, "code", got, "spec", want>>) /\ FALSE
MaxAbs(ss) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(x)), Zero, ss)
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

ChiEv ==
    /\ E.ev = "chi"
    /\ \A i \in DOMAIN E.s : \A n \in 0..4 :
          Close(<<"cut-off, derivative", n, "at", E.s[i]>>, F(E.v[i][n + 1]), Chi(n, E.s[i], E.l, E.e), FromInt(10))

Vecs(m) == TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> TLCEval(F(m[i][j]))])])
Vec(v) == TLCEval([i \in DOMAIN v |-> TLCEval(F(v[i]))])
VecClose(what, got, want, scale) == \A i \in DOMAIN want : Close(<<what, i>>, got[i], want[i], scale)

FieldEv ==
    /\ E.ev = "field"
    /\ Is("close enough", l, E.on, E.close)
    /\ \E D \in {E.D} :
       \E g \in {[D |-> D, R |-> E.R, k |-> E.k, a |-> E.a, c |-> Cut2([R |-> E.R, a |-> E.a, k |-> E.k], E.h, 1)]} :
          /\ Close("gap", F(E.gap), FromInt(g.a), Zero)
          /\ Close("square of the cut-off distance", F(E.cut2), FromInt(g.c), FromInt(g.c))
          /\ IF E.on = 0 THEN TRUE ELSE
             \E b \in {Vecs(E.base)} :
             \E n \in {IF D = 2 THEN 1 ELSE 3} :
             \E dv \in {TLCEval([d \in 1..D |-> E.v2[d] - E.v1[d]])} :
             \E U \in {Ratio(Dot(dv, E.dir), E.q)} :
                /\ VecClose("axis", b[n], [d \in 1..D |-> Ratio(E.dir[d], E.q)], One)
                /\ VecClose("origin", Vec(E.origin), [d \in 1..D |-> Ratio(E.ctr[d] * E.q + E.R[1] * E.dir[d], E.q)], FromInt(100))
                /\ \A i, j \in 1..D : Close("orthonormal", FDot(b[i], b[j]), IF i = j THEN One ELSE Zero, One)
                /\ Close("normal velocity", F(E.UN), U, FromInt(10))
                /\ IF D = 2 THEN VecClose("handed", b[2], <<Neg(b[1][2]), b[1][1]>>, One)
                   ELSE VecClose("handed", b[2], FCross(b[3], b[1]), One)
                \* the rest of the relative velocity is along the first direction of the plane
                /\ \E ut \in {FDot([d \in 1..D |-> FromInt(dv[d])], b[IF D = 2 THEN 2 ELSE 1])} :
                      /\ Close("tangential velocity", F(E.UT), ut, FromInt(10))
                      /\ \A d \in 1..D : Close("relative velocity",
                              Add(Mul(U, b[n][d]), Mul(ut, b[IF D = 2 THEN 2 ELSE 1][d])), FromInt(dv[d]), FromInt(10))
                /\ \A i \in DOMAIN E.pts :
                     \E f \in {TLCEval(Field(g, U, E.pts[i]))} :
                     \E r \in {E.ref[i]} : \E lab \in {E.lab[i]} :
                     \E scale \in {TLCEval(Add(MaxAbs(Flat(f.G)), Abs(f.p)))} :
                        /\ VecClose(<<"and back", E.pts[i]>>, Vec(r.x), [d \in 1..D |-> Ratio(E.pts[i][d], 4)], FromInt(100))
                        /\ VecClose(<<"place", E.pts[i]>>, Vec(lab.x),
                              [d \in 1..D |-> Add(F(E.origin[d]), FoldLeft(LAMBDA acc, m : Add(acc, Mul(b[m][d], Ratio(E.pts[i][m], 4))), Zero, [m \in 1..D |-> m]))], FromInt(100))
                        /\ Close(<<"pressure", E.pts[i]>>, F(r.p), f.p, scale)
                        /\ VecClose(<<"velocity", E.pts[i]>>, Vec(r.u), f.u, Abs(U))
                        /\ \A m \in 1..D : VecClose(<<"gradient", m, E.pts[i]>>, Vec(r.G[m]), f.G[m], scale)
                        /\ Close(<<"pressure in place", E.pts[i]>>, F(lab.p), f.p, scale)
                        /\ VecClose(<<"velocity in place", E.pts[i]>>, Vec(lab.u),
                              [d \in 1..D |-> FoldLeft(LAMBDA acc, m : Add(acc, Mul(b[m][d], f.u[m])), Zero, [m \in 1..D |-> m])], Abs(U))
                        /\ \A d \in 1..D : VecClose(<<"gradient in place", d, E.pts[i]>>, Vec(lab.G[d]),
                              [e \in 1..D |-> FoldLeft(LAMBDA acc, m : Add(acc, Mul(b[m][d], FDot(f.G[m], [o \in 1..D |-> b[o][e]]))), Zero, [m \in 1..D |-> m])], scale)

---- \* sliding past each other
TangGeo == [D |-> E.D, R |-> E.R, k |-> E.k, a |-> E.a, l |-> E.l, e |-> E.e]
\* in 2D every value
Tang2Ev ==
    \A i \in DOMAIN E.pts :
      \E f \in {TLCEval(Tang2(TangGeo, FromInt(E.U), E.pts[i]))} : \E r \in {E.f[i]} :
      \E scale \in {TLCEval(MulInt(Add(MaxAbs(Flat(f.G)), Abs(f.p)), 2))} :
         /\ Close(<<"sliding: pressure", E.pts[i]>>, F(r.p), f.p, scale)
         /\ VecClose(<<"sliding: velocity", E.pts[i]>>, Vec(r.u), f.u, scale)
         /\ \A m \in 1..2 : VecClose(<<"sliding: gradient", m, E.pts[i]>>, Vec(r.G[m]), f.G[m], scale)
         /\ Close(<<"sliding: divergence", E.pts[i]>>, F(r.div), Zero, scale)
\* in 3D the pressure; that the velocity is what the pressure drives, that its gradients (along
\* the coordinates, and around the axis) are those of the values around, that it is divergence free
CloseBy(what, got, want, tol) ==
    IF Near(got, want, tol) THEN TRUE
    ELSE PrintT(<<"MISMATCH", what, "line", l, "code", got, "spec", want>>) /\ FALSE
\* from the values at -2, -1, 1, 2 steps of 1/n
Slope(v, n) == DivInt(MulInt(Add(Sub(v[1], v[4]), MulInt(Sub(v[3], v[2]), 8)), n), 12)
Tang3Ev ==
    \A i \in DOMAIN E.pts :
      \E q \in {E.pts[i]} : \E r \in {E.f[i]} :
      \E x \in {<<q[1] * q[4], q[2] * q[4], q[5]>>} :
      \E at \in {Vec(r.at)} : \E G \in {Vecs(r.G)} : \E near \in {TLCEval([d \in 1..3 |-> Vecs(r.near[d])])} :
      \E cd \in {Vec(r.cd)} : \E cyl \in {Vec(r.cyl)} :
      \E c \in {IF q[4] = 0 THEN One ELSE Ratio(q[1], q[3])} : \E s \in {IF q[4] = 0 THEN Zero ELSE Ratio(q[2], q[3])} :
      \E rad \in {Ratio(q[3] * q[4], 4)} :
      \E scale \in {TLCEval(Add(Add(One, MaxAbs(Flat(G))), MaxAbs(at)))} :
      \E tol \in {DivInt(DivInt(scale, 1000), 1000)} : \E fine \in {DivInt(DivInt(scale, 10000), 100)} :
         /\ Close(<<"sliding: pressure", q>>, at[1], Press3(TangGeo, FromInt(E.U), x), scale)
         /\ \A m, d \in 1..3 :
               CloseBy(<<"sliding: gradient", m, d, q>>, G[m][d],
                       Slope([k \in 1..4 |-> near[d][k][m + 1]], IF d = 3 THEN 4 ELSE 64),
                       IF d = 3 THEN fine ELSE IF m = 3 THEN MulInt(tol, 100) ELSE MulInt(tol, 5))
         /\ CloseBy(<<"sliding: divergence", q>>, F(r.div), Zero, fine)
         /\ CloseBy(<<"sliding: divergence around the axis", q>>, F(r.cdiv), Zero, fine)
         /\ \A m \in 1..2 :
               CloseBy(<<"sliding: driven", m, q>>,
                       MulInt(Sub(Add(near[3][2][m + 1], near[3][3][m + 1]), MulInt(at[m + 1], 2)), 16),
                       Slope([k \in 1..4 |-> near[m][k][1]], 64), MulInt(tol, 5))
         \* around the axis
         /\ CloseBy(<<"sliding: radial", q>>, cyl[1], Add(Mul(c, at[2]), Mul(s, at[3])), fine)
         /\ CloseBy(<<"sliding: around", q>>, cyl[2], Sub(Mul(c, at[3]), Mul(s, at[2])), fine)
         /\ \A k \in 1..3 :
              \* along r, around times r, along z
              \E D1 \in {[m \in 1..3 |-> IF k = 1 THEN Add(Mul(c, G[m][1]), Mul(s, G[m][2]))
                                         ELSE IF k = 2 THEN Mul(rad, Sub(Mul(c, G[m][2]), Mul(s, G[m][1])))
                                         ELSE G[m][3]]} :
                 /\ CloseBy(<<"sliding: change of radial", k, q>>, cd[k],
                            Add(Add(Mul(c, D1[1]), Mul(s, D1[2])), IF k = 2 THEN cyl[2] ELSE Zero), fine)
                 /\ CloseBy(<<"sliding: change of around", k, q>>, cd[3 + k],
                            Sub(Sub(Mul(c, D1[2]), Mul(s, D1[1])), IF k = 2 THEN cyl[1] ELSE Zero), fine)
                 /\ CloseBy(<<"sliding: change of axial", k, q>>, cd[6 + k], D1[3], fine)
         \* on the axis each moves with half of the relative velocity, across
         /\ IF q[4] # 0 \/ E.l <= E.e \/ x[3] \notin {0, 4 * E.a} THEN TRUE
            ELSE VecClose(<<"sliding: on the axis", q>>, Tail(at),
                          <<IF x[3] = 0 THEN Ratio(-E.U, 2) ELSE Ratio(E.U, 2), Zero, Zero>>, One)
         \* nothing beyond the cut-off
         /\ IF q[3] * q[3] * q[4] * q[4] < 16 * (E.l + E.e) THEN TRUE
            ELSE VecClose(<<"sliding: cut off", q>>, at \o Flat(G), [j \in 1..13 |-> Zero], Zero)
TangEv ==
    /\ E.ev = "tang"
    /\ IF E.D = 2 THEN Tang2Ev ELSE Tang3Ev

---- \* the right-hand side and the last solution
\* a particle: twice the centre, the radius, the velocity
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
Within(D, a, b, far) ==
    LET d == [i \in 1..D |-> a[i] - b[i]]
        r == 2 * (a[D + 1] + b[D + 1] + far)
    IN Dot(d, d) < r * r
PairsEv(what, D, parts, rows, far) ==
    /\ Is(<<what, "every pair once">>, l, {<<rows[i].pair[1], rows[i].pair[2]>> : i \in DOMAIN rows}, Pairs(Len(parts)))
    /\ Is(<<what, "number of pairs">>, l, Len(rows), Cardinality(Pairs(Len(parts))))
    /\ \A i \in DOMAIN rows :
          Is(<<what, "close enough", rows[i].pair>>, l, rows[i].pair[3] = 1,
             Within(D, parts[rows[i].pair[1]], parts[rows[i].pair[2]], far))
\* corners and cells, x fastest
Bit(m, d) == (m \div 2 ^ (d - 1)) % 2
CellAt(D, cells, c) == IF D = 2 THEN <<c % cells[1], c \div cells[1]>>
                       ELSE <<c % cells[1], (c \div cells[1]) % cells[2], c \div (cells[1] * cells[2])>>
CellNo(D, cells, x) == IF D = 2 THEN x[1] + cells[1] * x[2] ELSE x[1] + cells[1] * (x[2] + cells[2] * x[3])
Abs1(n) == IF n < 0 THEN -n ELSE n
Outside(D, cell, h, q, part) ==
    LET d == [i \in 1..D |-> (10 * cell[i] + q[i]) * (h[i] \div 5) - part[i]]
    IN Dot(d, d) > 4 * part[D + 1] * part[D + 1]
\* weight of corner m in direction d at sample i of 10, and its derivative
W(m, d, i) == IF Bit(m, d) = 1 THEN i ELSE 10 - i
Sg(m, d) == IF Bit(m, d) = 1 THEN 1 ELSE -1
Sum1(f(_), S) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, S)
\* what a sample q (place, p, G, u) contributes to corner m, component c, times 10^D
Stress(D, hi, q, m, c) ==
    LET w(d2) == IF D = 2 THEN LET e == 3 - d2 IN Sg(m, d2) * hi[e] * W(m, e, q[e])
                 ELSE LET e == IF d2 = 1 THEN 2 ELSE 1
                          f == IF d2 = 3 THEN 2 ELSE 3
                      IN Sg(m, d2) * hi[e] * W(m, e, q[e]) * hi[f] * W(m, f, q[f])
        G(d2) == q[D + 1 + (c - 1) * D + d2]
    IN q[D + 1] * w(c) - (IF D = 2 THEN G(1) * w(1) + G(2) * w(2) ELSE G(1) * w(1) + G(2) * w(2) + G(3) * w(3))
Value(D, q, m, c) ==
    q[D + 1 + D * D + c] * W(m, 1, q[1]) * W(m, 2, q[2]) * (IF D = 2 THEN 1 ELSE W(m, 3, q[3]))

\* per cell: for every corner and component the sum
CellSums(D, hi, pts, how, den) ==
    TLCEval([m \in 0..(2 ^ D - 1) |-> TLCEval([c \in 1..D |->
        (IF how = "stress" THEN Sum1(LAMBDA x : Stress(D, hi, x, m, c), pts)
         ELSE Sum1(LAMBDA x : Value(D, x, m, c), pts)) \div den])])

\* got is the sum over the pairs on top of old: in every pair, over the samples that are
\* in neither of the two particles
SumsEv(what, how, den, got, old, tol) ==
    \E D \in {E.D} : \E cells \in {E.cells} : \E parts \in {E.parts} : \E h \in {E.h} :
    \E hi \in {TLCEval([d \in 1..D |-> h[d] \div 10])} :
    \E on \in {SelectSeq(E.pairs, LAMBDA r : r.pair[3] = 1)} :
    \E sums \in {TLCEval([i \in DOMAIN on |->
         LET a == parts[on[i].pair[1]]
             b == parts[on[i].pair[2]]
             tab(e) ==
                LET x == CellAt(D, cells, e.c)
                IN CellSums(D, hi, SelectSeq(e.pts, LAMBDA q : Outside(D, x, h, q, a) /\ Outside(D, x, h, q, b)), how, den)
         \* cell number -> what it contributes
         IN FoldLeft(LAMBDA f, e : f @@ (e.c :> TLCEval(tab(e))), <<>>, on[i].cell)])} :
    \E nodes \in {TLCEval([d \in 1..D |-> cells[d] + 1])} :
    \E is \in {TLCEval([i \in DOMAIN on |-> i])} :
    \E ms \in {TLCEval([m \in 1..2 ^ D |-> m - 1])} :
       \A n \in 0..(nodes[1] * nodes[2] * (IF D = 2 THEN 1 ELSE nodes[3]) - 1) :
       \E y \in {TLCEval(CellAt(D, nodes, n))} :
       \* the cells around a node: node - corner m
       \E c0 \in {TLCEval([m \in 0..(2 ^ D - 1) |->
                     IF \A d \in 1..D : y[d] - Bit(m, d) \in 0..(cells[d] - 1)
                     THEN CellNo(D, cells, [d \in 1..D |-> y[d] - Bit(m, d)]) ELSE -1])} :
       \E hits \in {TLCEval([i \in DOMAIN on |-> SelectSeq(ms, LAMBDA m : c0[m] \in DOMAIN sums[i])])} :
          \A c \in 1..D :
            \E want \in {old[n * D + c] + Sum1(LAMBDA i : Sum1(LAMBDA m : sums[i][c0[m]][m][c], hits[i]), is)} :
               IF Abs1(got[n * D + c] - want) <= tol THEN TRUE
               ELSE PrintT(<<"MISMATCH", what, "line", l, "node", y, "component", c,
                             "code", got[n * D + c], "spec", want, "tolerance", tol>>) /\ FALSE

StEv ==
    /\ E.ev = "st"
    /\ PairsEv("right-hand side", E.D, E.parts, E.pairs, E.far)
    /\ Same("pressure part of the right-hand side", l, E.rhsp, E.oldp)
    /\ SumsEv("singular right-hand side", "stress", IF E.D = 2 THEN 100 ELSE 1000, E.rhs, E.old, IF E.D = 2 THEN 40 ELSE 60)
    /\ IF E.sol = 0 THEN TRUE
       ELSE /\ Same("pressure of the last solution", l, E.velp, E.oldp)
            /\ SumsEv("singular part of the last solution", "value", 10000, E.vel, E.old, 20)

---- \* in a problem of moving circles
\* what the fluid is asked with the singularities, less what it is asked without. The operator is
\* two problems, setup is the first of them with the right-hand side, a solve is the operator as
\* often as the outer iteration applies it and two more, the last with the right-hand side.
\* There is nothing in all others, and nothing where the velocity is imposed. The last solution is
\* what the fluid answered and the field
Imposed(bc, cells, k) ==
    \E y \in {CellAt(2, cells, k \div 2)} : \E d \in 1..2 : \E hi \in 0..1 :
       y[d] = hi * (cells[d] - 1) /\ bc[(2 * d + hi - 2) * 2 + (k % 2) + 1] = 1
LifeEv ==
    /\ E.ev = "life"
    /\ \E nodes \in {TLCEval([d \in 1..2 |-> E.cells[d] + 1])} :
       \E free \in {TLCEval([k \in 1..(2 * nodes[1] * nodes[2]) |-> ~Imposed(E.bc, nodes, k - 1)])} :
       \A i \in DOMAIN E.steps :
         \E s \in {E.steps[i]} :
         \E n \in {IF s.op = "setup" THEN 2 ELSE 2 * s.inner + 2} :
            /\ Is(<<"step", i, s.op, "problems solved">>, l, s.same, 1)
            /\ Is(<<"step", i, s.op, "number of problems solved">>, l, Len(s.asked), n)
            /\ \A j \in 1..n : \A k \in DOMAIN free :
                  \E want \in {IF j = (IF s.op = "setup" THEN 1 ELSE n) /\ s.on = 1 /\ free[k] THEN s.S[k] ELSE 0} :
                     IF Abs1(s.asked[j][k] - want) <= 2 THEN TRUE
                     ELSE PrintT(<<"MISMATCH", "singular part of problem", j, "step", i, s.op, "line", l, "entry", k, "code", s.asked[j][k], "spec", want>>) /\ FALSE
            /\ \A k \in DOMAIN s.fin :
                  \E want \in {IF s.on = 1 THEN s.V[k] ELSE 0} :
                     IF Abs1(s.fin[k] - want) <= 2 THEN TRUE
                     ELSE PrintT(<<"MISMATCH", "singular part of the last solution, step", i, "line", l, "entry", k, "code", s.fin[k], "spec", want>>) /\ FALSE

---- \* forces
Pi == <<0, 3, 1415, 9265, 3589, 7932, 3846>>
\* minus the integral of the stress over the part of the surface that faces the other particle
CapForce(D, R, s, rows, M) ==
    LET term(i) ==
          LET v == rows[i]
              m == IF D = 2 THEN 2 * i - 1 - M ELSE 2 * i - 1
              K == IF D = 2 THEN M ELSE 2 * M
              den == K * K + m * m
              cos == Ratio((K * K - m * m) * (IF s = 1 THEN 1 ELSE -1), den)
              sin == Ratio(2 * m * K, den)
              p == F(v[1])
              G(a, b) == F(v[1 + (a - 1) * D + b])
              sg(a, b) == IF a = b THEN Sub(MulInt(G(a, a), 2), p) ELSE Add(G(a, b), G(b, a))
              \* the length of the arc, or the area of the ring
              wt == IF D = 2 THEN Ratio(4 * R * M, den)
                    ELSE MulInt(Mul(Mul(Pi, sin), Ratio(R * R * 2 * 2 * 4 * M, den)), 1)
          IN IF D = 2
             THEN <<Mul(wt, Add(Mul(sg(1, 1), cos), Mul(sg(1, 2), sin))),
                    Mul(wt, Add(Mul(sg(2, 1), cos), Mul(sg(2, 2), sin)))>>
             ELSE <<Zero, Zero,
                    Mul(wt, Add(Mul(sg(3, 3), cos),
                                Mul(sin, DivInt(Add(MulInt(sg(3, 1), 6), MulInt(sg(3, 2), 8)), 10))))>>
    IN FoldLeft(LAMBDA acc, i : TLCEval([d \in 1..D |-> Sub(acc[d], term(i)[d])]),
                [d \in 1..D |-> Zero], [i \in 1..M |-> i])

ForceEv ==
    /\ E.ev = "force"
    /\ PairsEv("forces", E.D, E.parts, E.pairs, E.far)
    /\ \E D \in {E.D} :
       \E on \in {SelectSeq(E.pairs, LAMBDA r : r.pair[3] = 1)} :
       \* in the frame of the pair, and in place
       \E ref \in {TLCEval([i \in DOMAIN on |-> TLCEval([s \in 1..2 |->
              CapForce(D, E.parts[on[i].pair[s]][D + 1], s, on[i].cap[s], E.M)])])} :
       \E lab \in {TLCEval([i \in DOMAIN on |-> TLCEval([s \in 1..2 |->
              LET b == Vecs(on[i].base) IN
              TLCEval([d \in 1..D |-> FDot([k \in 1..D |-> b[k][d]], ref[i][s])])])])} :
       \E big \in {TLCEval(FoldLeft(LAMBDA acc, i : Add(acc, Add(MaxAbs(ref[i][1]), MaxAbs(ref[i][2]))), Zero, [i \in DOMAIN on |-> i]))} :
          \A k \in DOMAIN E.forces : \A i \in DOMAIN E.parts : \A d \in 1..D :
              LET want == FoldLeft(LAMBDA acc, j :
                            LET acc1 == IF on[j].pair[1] = i THEN Add(acc, lab[j][1][d]) ELSE acc
                            IN IF on[j].pair[2] = i THEN Add(acc1, lab[j][2][d]) ELSE acc1,
                            Zero, [j \in DOMAIN on |-> j])
                  got == F(E.forces[k].f[i][d])
              IN IF Near(got, want, Add(DivInt(big, 200), Ratio(1, 1000))) THEN TRUE
                 ELSE PrintT(<<"MISMATCH", "singular forces", E.forces[k].what, "line", l, "particle", i, d, "code", got, "spec", want>>) /\ FALSE

Init == l = 1
Ok == ChiEv \/ FieldEv \/ TangEv \/ StEv \/ ForceEv \/ LifeEv \/ EndOf(l)
Next == l <= Len(Trace) /\ Ok /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
