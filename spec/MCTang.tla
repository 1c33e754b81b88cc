------------------------------- MODULE MCTang -------------------------------
(* What the field of module Tang is good for: at every point of a lattice it  *)
(* is divergence free, sticks to both sliding surfaces where nothing is cut   *)
(* off, is driven by the pressure, is its own gradient's antiderivative, is   *)
(* the same seen from either particle, odd across the axis, and nothing       *)
(* beyond the cut-off.                                                        *)
EXTENDS Tang
CONSTANTS PAIRS, GAPS, CUTS, LATTICE, ZS, US

Pair == <<<<16, 16, 8>>, <<8, 8, 4>>, <<12, 4, 3>>, <<12, 6, 4>>, <<15, 10, 6>>, <<24, 8, 6>>, <<40, 40, 20>>>>
\* <<l, e>>
Width == <<<<50, 50>>, <<9, 4>>, <<100, 30>>, <<300, 300>>>>
VARIABLES st, g, x, n
vars == <<st, g, x, n>>
Init == st = "start" /\ g = <<>> /\ x = <<>> /\ n = 0
PickPair ==
    /\ st = "start" /\ st' = "pair"
    /\ \E i \in PAIRS : \E a \in GAPS : \E w \in CUTS : \E D \in {2, 3} : \E o \in {0, 1} :
          LET p == Pair[i]
          IN g' = [D |-> D, R |-> IF o = 0 THEN <<p[1], p[2]>> ELSE <<p[2], p[1]>>, k |-> p[3], a |-> a,
                   l |-> Width[w][1], e |-> Width[w][2]]
    /\ UNCHANGED <<x, n>>
\* x[1] along the axis, in quarters, from behind the first surface to behind the second
PickPoint ==
    /\ st = "pair" /\ st' = "point"
    /\ \E r \in LATTICE : \E z \in ZS : x' = <<z * g.a - 4, r>>
    /\ n' \in US
    /\ UNCHANGED g
Next == PickPair \/ PickPoint
Spec == Init /\ [][Next]_vars

U == FromInt(n)
F(y) == Tang2(g, U, y)
Swap == [g EXCEPT !.R = <<g.R[2], g.R[1]>>]
Eps(scale) == DivInt(DivInt(DivInt(Add(One, scale), 10000), 10000), 10000)
MaxG(f) == FoldLeft(LAMBDA acc, r : FoldLeft(LAMBDA b, e : Max2(b, Abs(e)), acc, r), Abs(f.p), f.G)
s16 == x[2] * x[2]
flat == st = "point" /\ g.D = 2

DivFree == flat => \E f \in {F(x)} : Add(f.G[1][1], f.G[2][2]) = Zero
OnFirst == s16 % (8 * g.R[1]) = 0
OnSecond == s16 % (8 * g.R[2]) = 0
\* with half of the relative velocity across the axis, and not along it; on the second surface this
\* is what the thin film equation is for, and holds where the cut-off is one
Sticks == flat =>
    /\ OnFirst => \E f \in {F(<<-(s16 \div (8 * g.R[1])), x[2]>>)} :
          /\ Near(f.u[2], Neg(DivInt(Mul(U, f.chi), 2)), Eps(Abs(U)))
          /\ Near(f.u[1], Zero, Eps(Abs(U)))
    /\ OnSecond => \E f \in {F(<<4 * g.a + (s16 \div (8 * g.R[2])), x[2]>>)} :
          /\ Near(f.u[2], DivInt(Mul(U, f.chi), 2), Eps(Abs(U)))
          /\ s16 < 16 * (g.l - g.e) => Near(f.u[1], Zero, Eps(MulInt(MaxG(f), 8)))
\* the second derivative along the axis of the velocity across is the pressure gradient
Driven == flat =>
    \E f \in {F(x)} : \E hi \in {F(<<x[1] + 1, x[2]>>)} : \E lo \in {F(<<x[1] - 1, x[2]>>)} :
       Near(MulInt(Sub(hi.G[2][1], lo.G[2][1]), 2), f.dp, Eps(MulInt(MaxG(hi), 8)))
\* gradients by differences, where the field is slow enough for quarters: along the axis the
\* parabola exactly, its integral up to the third derivative
Diff == flat =>
    \E hi \in {F(<<x[1] + 1, x[2]>>)} : \E lo \in {F(<<x[1] - 1, x[2]>>)} : \E f \in {F(x)} :
       /\ Near(MulInt(Sub(hi.u[2], lo.u[2]), 2), f.G[2][1], Eps(MulInt(MaxG(hi), 8)))
       /\ Near(Add(MulInt(Sub(hi.u[1], lo.u[1]), 2),
                   DivInt(Sub(MulInt(f.G[1][1], 2), Add(hi.G[1][1], lo.G[1][1])), 6)), f.G[1][1], Eps(MulInt(MaxG(hi), 8)))
\* from the other side: z upside down, the velocity the other way
Mirror == flat =>
    \E f \in {F(x)} : \E m \in {Tang2(Swap, U, <<4 * g.a - x[1], x[2]>>)} :
    \E f2 \in {F(<<x[1] + 3, x[2]>>)} : \E m2 \in {Tang2(Swap, U, <<4 * g.a - x[1] - 3, x[2]>>)} :
       /\ Near(f.p, Neg(m.p), Eps(MaxG(f)))
       /\ Near(f.u[2], Neg(m.u[2]), Eps(MulInt(MaxG(f), 8)))
       /\ Near(f.G[2][2], Neg(m.G[2][2]), Eps(MulInt(MaxG(f), 8)))
       /\ Near(f.G[2][1], m.G[2][1], Eps(MulInt(MaxG(f), 8)))
       /\ Near(Sub(f.u[1], m.u[1]), Sub(f2.u[1], m2.u[1]), Eps(MulInt(Add(MaxG(f), MaxG(f2)), 8)))
Odd == flat =>
    \E f \in {F(x)} : \E m \in {Tang2(g, One, <<x[1], -x[2]>>)} :
       /\ Near(f.p, MulInt(m.p, -n), Eps(MaxG(f)))
       /\ Near(f.u[1], MulInt(m.u[1], -n), Eps(MaxG(f)))
       /\ Near(f.u[2], MulInt(m.u[2], n), Eps(MaxG(f)))
\* equal particles have no pressure
Same == (st = "point" /\ g.R[1] = g.R[2]) =>
    IF g.D = 2 THEN F(x).p = Zero ELSE Press3(g, U, <<x[2], 3, x[1]>>) = Zero
CutOff == (st = "point" /\ s16 >= 16 * (g.l + g.e)) =>
    IF g.D = 3 THEN Press3(g, U, <<x[2], 0, x[1]>>) = Zero
    ELSE \E f \in {F(x)} : f.p = Zero /\ \A i \in 1..2 : f.u[i] = Zero /\ \A j \in 1..2 : f.G[i][j] = Zero
=============================================================================
