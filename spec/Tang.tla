-------------------------------- MODULE Tang --------------------------------
(* The lubrication flow between two close circles (spheres) that slide past   *)
(* each other: the relative velocity U is across the axis, half of it on      *)
(* either surface. Frame, surfaces and units are those of module Sing; the    *)
(* cut-off is around any square distance g.l, of half width g.e.              *)
(*                                                                            *)
(* With s the square of the distance r to the axis, h the distance of the     *)
(* surfaces and t the height above the first one:                             *)
(*   the pressure is U/2 r G(s), with G from the thin film equation, times    *)
(*   the cut-off;                                                             *)
(*   2D: the velocity across the axis is the parabola in t that the pressure  *)
(*   gradient drives between -U/2 chi and U/2 chi; the velocity along the     *)
(*   axis vanishes on the first surface and makes the field divergence free.  *)
(* Everything is a function of s: derivatives in s are carried along in jets  *)
(* <<f, f', f'', f'''>>.                                                      *)
EXTENDS Sing

JAdd(a, b) == TLCEval([i \in DOMAIN a |-> Add(a[i], b[i])])
JSub(a, b) == TLCEval([i \in DOMAIN a |-> Sub(a[i], b[i])])
JInt(a, n) == TLCEval([i \in DOMAIN a |-> MulInt(a[i], n)])
JDiv(a, n) == TLCEval([i \in DOMAIN a |-> DivInt(a[i], n)])
JNum(x, a) == TLCEval([i \in DOMAIN a |-> Mul(x, a[i])])
Choose(n) == <<<<1>>, <<1, 1>>, <<1, 2, 1>>, <<1, 3, 3, 1>>>>[n]
\* as many derivatives as the shorter has
JMul(a, b) ==
    TLCEval([n \in 1..Min2(Len(a), Len(b)) |->
        FoldLeft(LAMBDA acc, i : Add(acc, MulInt(Mul(a[i], b[n + 1 - i]), Choose(n)[i])), Zero, [i \in 1..n |-> i])])
JCut(a, n) == SubSeq(a, 1, n)
\* s a'(s), which has one derivative less
JEuler(a, s) == JMul(<<s, One, Zero, Zero>>, Tail(a))

\* what depends on s only; s16 is 16 s
Across(g, s16) ==
    LET k == g.k
        s == TLCEval(Ratio(s16, 16))
        X(n) == FoldLeft(LAMBDA acc, i : DivInt(acc, g.e), Chi(n, s16, 16 * g.l, 16 * g.e), [i \in 1..n |-> i])
        chi == TLCEval([n \in 1..4 |-> TLCEval(X(n - 1))])
        h == TLCEval(<<Add(FromInt(g.a), DivInt(s, 2 * k)), Ratio(1, 2 * k), Zero, Zero>>)
        w == TLCEval(Ratio(32 * k, 32 * g.a * k + s16))
        w2 == TLCEval(Mul(w, w))
        \* 1/h
        v == TLCEval(<<w, Neg(DivInt(w2, 2 * k)), DivInt(Mul(w2, w), 2 * k * k), Neg(DivInt(DivInt(MulInt(Mul(w2, w2), 3), 4 * k), k * k))>>)
        kap == IF g.D = 2 THEN Ratio(-4 * (g.R[2] - g.R[1]), g.R[1] + g.R[2])
               ELSE Ratio(12 * (g.R[2] - g.R[1]), 5 * (g.R[1] + g.R[2]))
        G == JNum(kap, JMul(chi, JMul(v, v)))
        A == JAdd(JDiv(JCut(G, 3), 2), JEuler(G, s))
        C == JCut(JSub(<<Zero, Zero, Zero, Zero>>, chi), 3)
        B == JSub(JInt(JMul(JCut(chi, 3), v), 2), JMul(A, h))
    IN [s |-> s, chi |-> chi, G |-> G, A |-> A, B |-> B, C |-> C]

\* the field at x, in quarters
Tang2(g, U, x) ==
    LET f == Across(g, x[2] * x[2])
        A == f.A  B == f.B  C == f.C
        R == g.R[1]
        r == Ratio(x[2], 4)
        t == TLCEval(Add(Ratio(x[1], 4), DivInt(f.s, 2 * R)))
        \* n-th derivatives of the coefficients, at t: the parabola, its slope, its integral from 0
        P(n) == Add(Mul(Add(Mul(A[n], t), B[n]), t), C[n])
        P1(n) == Add(MulInt(Mul(A[n], t), 2), B[n])
        I(n) == Mul(t, Add(C[n], Mul(t, Add(DivInt(B[n], 2), DivInt(Mul(A[n], t), 3)))))
        Q(n) == Mul(Add(Mul(A[n], t), B[n]), t)
        \* in s at fixed x[1]
        Ps == TLCEval(Add(P(2), DivInt(P1(1), 2 * R)))
        J == TLCEval(Add(I(2), DivInt(Q(1), 2 * R)))
        Js == TLCEval(Add(Add(I(3), DivInt(P(2), 2 * R)), DivInt(Add(Q(2), DivInt(P1(1), 2 * R)), 2 * R)))
        Ur == TLCEval(Mul(U, r))
        d11 == TLCEval(Neg(Mul(Ur, Ps)))
    IN [p |-> DivInt(Mul(Ur, f.G[1]), 2), chi |-> f.chi[1],
        dp |-> Mul(U, f.A[1]),
        u |-> <<Neg(Mul(Ur, J)), DivInt(Mul(U, P(1)), 2)>>,
        G |-> <<<<d11, Neg(Mul(U, Add(J, MulInt(Mul(f.s, Js), 2))))>>,
                <<DivInt(Mul(U, P1(1)), 2), Neg(d11)>>>>]

\* the pressure in 3D, where the slide is along the first direction across
Press3(g, U, x) ==
    DivInt(Mul(Mul(U, Ratio(x[1], 4)), Across(g, x[1] * x[1] + x[2] * x[2]).G[1]), 2)
=============================================================================
