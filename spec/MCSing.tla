------------------------------- MODULE MCSing -------------------------------
(* What the field of module Sing is good for: at every point of a lattice     *)
(* between, on and around two circles or spheres of several sizes, gaps and   *)
(* grids it is divergence free, sticks to both surfaces, is driven by the     *)
(* pressure, is the same seen from either particle, and is cut off smoothly.  *)
EXTENDS Sing
CONSTANTS PAIRS, GAPS, GRIDS, LATTICE, ZS, US, YS

\* <<R1, R2, R1 R2/(R1 + R2)>>
Pair == <<<<16, 16, 8>>, <<8, 8, 4>>, <<12, 4, 3>>, <<12, 6, 4>>, <<15, 10, 6>>, <<24, 8, 6>>, <<40, 40, 20>>>>
VARIABLES st, g, x, n
vars == <<st, g, x, n>>

Init == st = "start" /\ g = <<>> /\ x = <<>> /\ n = 0
Swap(h) == [h EXCEPT !.R = <<h.R[2], h.R[1]>>]
PickPair ==
    /\ st = "start" /\ st' = "pair"
    /\ \E i \in PAIRS : \E a \in GAPS : \E h \in GRIDS : \E D \in {2, 3} : \E s \in {0, 1} :
          LET p == Pair[i]
              r == [R |-> IF s = 0 THEN <<p[1], p[2]>> ELSE <<p[2], p[1]>>, k |-> p[3], a |-> a]
          IN /\ 2 * h * h <= Min2(p[1], p[2]) * Min2(p[1], p[2])
             /\ g' = [D |-> D, R |-> r.R, k |-> p[3], a |-> a, c |-> Cut2(r, h, 1), h |-> h]
    /\ UNCHANGED <<x, n>>
\* in quarters; z from a little behind the first surface to a little behind the second
PickPoint ==
    /\ st = "pair" /\ st' = "point"
    /\ \E r \in LATTICE : \E y \in LATTICE : \E z \in ZS :
          /\ IF g.D = 2 THEN y = 0 ELSE y <= r
          /\ x' = IF g.D = 2 THEN <<z * g.a - 4, r>> ELSE <<r, y, z * g.a - 4>>
    /\ \E u \in US : \E q \in {x'[1] + x'[g.D]} : n' = IF q % 2 = 0 THEN u ELSE 1 - u
    /\ UNCHANGED g
PickChi ==
    /\ st = "start" /\ st' = "chi"
    /\ \E y \in YS : n' = y - 1000
    /\ UNCHANGED <<g, x>>
Next == PickPair \/ PickPoint \/ PickChi
Spec == Init /\ [][Next]_vars

Eps(scale) == DivInt(DivInt(DivInt(Add(One, scale), 10000), 10000), 10000)
MaxG(f) == FoldLeft(LAMBDA acc, r : FoldLeft(LAMBDA b, e : Max2(b, Abs(e)), acc, r), Abs(f.p), f.G)
s16 == IF g.D = 2 THEN x[2] * x[2] ELSE x[1] * x[1] + x[2] * x[2]
z4 == IF g.D = 2 THEN x[1] ELSE x[3]
At(z) == IF g.D = 2 THEN <<z, x[2]>> ELSE <<x[1], x[2], z>>
\* where the surfaces are, times 32 R1 R2 ... in quarters, when that is an integer
OnFirst == s16 % (8 * g.R[1]) = 0
OnSecond == s16 % (8 * g.R[2]) = 0
U == FromInt(n)

DivFree == st = "point" =>
    \E f \in {Field(g, U, x)} :
       Near(FoldLeft(LAMBDA acc, i : Add(acc, f.G[i][i]), Zero, [i \in 1..g.D |-> i]), Zero, Eps(MaxG(f)))
\* minus and plus half of the relative velocity along the axis, nothing across
Sticks == st = "point" =>
    /\ OnFirst => \E f \in {Field(g, U, At(-(s16 \div (8 * g.R[1]))))} :
          /\ Near(f.u[IF g.D = 2 THEN 1 ELSE 3], Neg(DivInt(Mul(U, f.chi), 2)), Eps(Abs(U)))
          /\ \A i \in 1..g.D : i = (IF g.D = 2 THEN 1 ELSE 3) \/ Near(f.u[i], Zero, Eps(Abs(U)))
\* on the second the flow through every cross-section has been let out: the parabola vanishes there
    /\ OnSecond => \E f \in {Field(g, U, At(4 * g.a + (s16 \div (8 * g.R[2]))))} :
          \A i \in 1..g.D : i = (IF g.D = 2 THEN 1 ELSE 3) \/ Near(f.u[i], Zero, Eps(Abs(U)))
\* on the axis both move with half of the relative velocity
OnAxis == (st = "point" /\ s16 = 0) =>
    /\ \E f \in {Field(g, U, At(0))} : Near(f.u[IF g.D = 2 THEN 1 ELSE 3], Neg(DivInt(U, 2)), Eps(Abs(U)))
    /\ \E f \in {Field(g, U, At(4 * g.a))} : Near(f.u[IF g.D = 2 THEN 1 ELSE 3], DivInt(U, 2), Eps(Abs(U)))
\* the film equation: the second derivative across the film of the velocity along it is the pressure
\* gradient (of the truncated pressure in 3D; chi times that of the other in 2D)
Driven == st = "point" =>
    \E f \in {Field(g, U, x)} : \E hi \in {Field(g, U, At(z4 + 1))} : \E lo \in {Field(g, U, At(z4 - 1))} :
       IF g.D = 2 THEN Near(MulInt(Sub(hi.G[2][1], lo.G[2][1]), 2), Mul(f.chi, f.dq[2]), Eps(MulInt(MaxG(hi), 8)))
       ELSE \A i \in 1..2 : Near(MulInt(Sub(hi.G[i][3], lo.G[i][3]), 2), f.dp[i], Eps(MulInt(MaxG(hi), 8)))
\* seen from the other particle: the same pressure, the same velocity across the axis; along it
\* the two differ by what the cut-off lets through the second surface, which is the same all along z
Mirror == st = "point" =>
    \E N \in {IF g.D = 2 THEN 1 ELSE 3} :
    \E f \in {Field(g, U, x)} : \E m \in {Field(Swap(g), U, At(4 * g.a - z4))} :
    \E f2 \in {Field(g, U, At(z4 + 3))} : \E m2 \in {Field(Swap(g), U, At(4 * g.a - z4 - 3))} :
       /\ Near(f.p, m.p, Eps(MaxG(f)))
       /\ \A i \in 1..g.D : i = N \/ Near(f.u[i], m.u[i], Eps(MulInt(MaxG(f), 8)))
       /\ Near(Add(f.u[N], m.u[N]), Add(f2.u[N], m2.u[N]), Eps(MulInt(Add(MaxG(f), MaxG(f2)), 8)))
       /\ s16 = 0 => Near(f.u[N], Neg(m.u[N]), Eps(MulInt(MaxG(f), 8)))
\* linear in the relative velocity, and the same on both sides of the axis
Linear == st = "point" =>
    \E f \in {Field(g, U, x)} : \E o \in {Field(g, One, IF g.D = 2 THEN <<x[1], -x[2]>> ELSE <<-x[1], -x[2], x[3]>>)} :
       /\ Near(f.p, MulInt(o.p, n), Eps(MaxG(f)))
       /\ \A i \in 1..g.D : Near(f.u[i], MulInt(o.u[i], IF i = (IF g.D = 2 THEN 1 ELSE 3) THEN n ELSE -n), Eps(MaxG(f)))
\* nothing at and beyond the cut-off
CutOff == (st = "point" /\ s16 >= 16 * g.c) =>
    \E f \in {Field(g, U, x)} : f.p = Zero /\ \A i \in 1..g.D : f.u[i] = Zero /\ \A j \in 1..g.D : f.G[i][j] = Zero
\* the cut-off lies between the diagonal of a cell and the smaller radius, and widens with the gap
Cut == st \in {"pair", "point"} =>
    /\ 2 * g.h * g.h <= g.c /\ g.c <= Min2(g.R[1], g.R[2]) * Min2(g.R[1], g.R[2])
    /\ Cut2(g, g.h, 1) = Cut2(Swap(g), g.h, 1)
    /\ Cut2([g EXCEPT !.a = @ + 1], g.h, 1) >= g.c
    /\ Cut2(g, g.h, 16) = 16 * g.c

\* chi, at Y = n/1000
Y(m) == Ratio(m, 1000)
Smooth == st = "chi" =>
    /\ Near(Alpha(Neg(Y(n))), Neg(Alpha(Y(n))), Eps(One))
    \* from one to zero, and nowhere up
    /\ Near(Alpha(One), One, Eps(One))
    /\ Leq(DivInt(Neg(Alpha(Y(n))), 1), Add(One, Tiny)) /\ Leq(Zero, Add(DAlpha(1, Y(n)), Eps(One)))
    \* each derivative is that of the one before: differences over 2/1000
    /\ n \in -999..999 => \A d \in 1..4 :
          LET F(m) == IF d = 1 THEN Alpha(Y(m)) ELSE DAlpha(d - 1, Y(m))
          IN Near(MulInt(Sub(F(n + 1), F(n - 1)), 500), DAlpha(d, Y(n)), Ratio(1, 500))
    /\ n \in {-1000, 1000} => \A d \in 1..4 : Near(DAlpha(d, Y(n)), Zero, Eps(One))
    \* the numbers themselves
    /\ LET y == Y(n) IN
       /\ Near(Mul(y, y), DivInt(Ratio(n * n, 1000), 1000), DivInt(Eps(One), 10000))
       /\ n # 0 => Near(MulInt(Ratio(n, IF n < 0 THEN -n ELSE n), 1), FromInt(IF n < 0 THEN -1 ELSE 1), Tiny)
       /\ Near(MulInt(Ratio(n, 7), 7), FromInt(n), MulInt(Tiny, 7))
       /\ Add(Y(n), Neg(Y(n))) = Zero /\ Sub(Add(Y(n), One), One) = Y(n)
=============================================================================
