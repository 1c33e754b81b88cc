-------------------------------- MODULE Sing --------------------------------
(* The lubrication ("singular") part of the flow between two close particles, *)
(* which the discrete problem cannot resolve and the library adds by formula. *)
(*                                                                            *)
(* Two circles (spheres) with radii R1, R2 a gap a apart approach each other  *)
(* with relative velocity U along the axis. In the frame of the pair the      *)
(* origin is on the first surface, z runs along the axis to the second, s is  *)
(* the square of the distance to the axis, and the surfaces are the parabolas *)
(* z = -s/(2 R1) and z = a + s/(2 R2). Lengths are integers in a unit of the  *)
(* test, and R1, R2 are such that k = R1 R2/(R1+R2) is one as well.           *)
(*                                                                            *)
(* The field is given by three facts: the pressure is that of the thin film,  *)
(* the velocity along the surfaces is the parabola the pressure gradient      *)
(* drives (in 2D: that of the untruncated pressure, times chi), and the       *)
(* velocity along the axis is minus half U chi on the first surface and makes *)
(* the field divergence free. chi cuts everything off smoothly, at the square *)
(* distance c. Gradients are computed here by differentiating: a "dual" is a  *)
(* value with its derivatives in the (at most three) coordinates.             *)
EXTENDS Fix, TLC, SequencesExt

---- \* duals
DConst(x) == <<x, Zero, Zero, Zero>>
DAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3]), Add(a[4], b[4])>>
DSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3]), Sub(a[4], b[4])>>
DMulInt(a, n) == <<MulInt(a[1], n), MulInt(a[2], n), MulInt(a[3], n), MulInt(a[4], n)>>
DDivInt(a, n) == <<DivInt(a[1], n), DivInt(a[2], n), DivInt(a[3], n), DivInt(a[4], n)>>
DMul(a, b) ==
    <<Mul(a[1], b[1]),
      Add(Mul(a[1], b[2]), Mul(a[2], b[1])),
      Add(Mul(a[1], b[3]), Mul(a[3], b[1])),
      Add(Mul(a[1], b[4]), Mul(a[4], b[1]))>>
DScale(x, a) == <<Mul(x, a[1]), Mul(x, a[2]), Mul(x, a[3]), Mul(x, a[4])>>
\* a function of s with value f and derivative g, at the dual s
DOf(f, g, s) == <<f, Mul(g, s[2]), Mul(g, s[3]), Mul(g, s[4])>>

---- \* the cut-off, at Y = (s - l)/e; the part between -1 and 1
\* alpha(0) = 0 and alpha' = 315/128 (Y^2-1)^4, so that alpha(1) = 1, and four derivatives vanish at 1
Alpha(Y) ==
    LET y2 == TLCEval(Mul(Y, Y))
        h == FoldLeft(LAMBDA acc, c : Add(Mul(acc, y2), FromInt(c)), Zero, <<35, -180, 378, -420, 315>>)
    IN DivInt(Mul(h, Y), 128)
\* the n-th derivative, n in 1..4
DAlpha(n, Y) ==
    LET y2 == TLCEval(Mul(Y, Y))
        m == TLCEval(Sub(y2, One))
        m2 == TLCEval(Mul(m, m))
    IN CASE n = 1 -> DivInt(MulInt(Mul(m2, m2), 315), 128)
         [] n = 2 -> DivInt(MulInt(Mul(Mul(m2, m), Y), 2520), 128)
         [] n = 3 -> DivInt(MulInt(Mul(m2, Sub(MulInt(y2, 7), One)), 2520), 128)
         [] n = 4 -> DivInt(MulInt(Mul(Mul(m, Sub(MulInt(y2, 7), FromInt(3))), Y), 15120), 128)
\* chi and its n-th derivative in s times e^n; s, l and e are given in q-ths
Chi(n, s, l, e) ==
    IF s < l - e THEN (IF n = 0 THEN One ELSE Zero)
    ELSE IF s >= l + e THEN Zero
    ELSE LET Y == TLCEval(Ratio(s - l, e))
         IN IF n = 0 THEN DivInt(Sub(One, Alpha(Y)), 2) ELSE DivInt(Neg(DAlpha(n, Y)), 2)

---- \* the frame
\* the square of the cut-off distance (a rational, times q): four times the width of the
\* film, not more than the smaller radius, not less than the diagonal of a cell
Min2(a, b) == IF a < b THEN a ELSE b
Cut2(g, h, q) ==
    LET r == Min2(g.R[1], g.R[2])
        w == Min2(32 * g.a * g.k * q, r * r * q)
    IN IF w > 2 * h * h * q THEN w ELSE 2 * h * h * q
Dot(u, v) == FoldLeft(LAMBDA acc, i : acc + u[i] * v[i], 0, [i \in DOMAIN u |-> i])
FDot(u, v) == FoldLeft(LAMBDA acc, i : Add(acc, Mul(u[i], v[i])), Zero, [i \in DOMAIN u |-> i])
FCross(u, v) == <<Sub(Mul(u[2], v[3]), Mul(u[3], v[2])),
                  Sub(Mul(u[3], v[1]), Mul(u[1], v[3])),
                  Sub(Mul(u[1], v[2]), Mul(u[2], v[1]))>>

---- \* the field, at x (quarters of the unit; <<z, r>> in 2D, <<x, y, z>> in 3D)
\* g: D, R, k, a, c (square of the cut-off distance); U a number
Field(g, U, x) ==
    LET D == g.D
        k == g.k
        z4 == IF D = 2 THEN x[1] ELSE x[3]
        s16 == IF D = 2 THEN x[2] * x[2] ELSE x[1] * x[1] + x[2] * x[2]
        s == TLCEval(IF D = 2 THEN <<Ratio(s16, 16), Zero, Ratio(x[2], 2), Zero>>
             ELSE <<Ratio(s16, 16), Ratio(x[1], 2), Ratio(x[2], 2), Zero>>)
        z == TLCEval(IF D = 2 THEN <<Ratio(z4, 4), One, Zero, Zero>> ELSE <<Ratio(z4, 4), Zero, Zero, One>>)
        \* twice the distance of the surfaces, and its inverse
        t == TLCEval(DAdd(DConst(FromInt(2 * g.a)), DDivInt(s, k)))
        w == Ratio(16 * k, 32 * g.a * k + s16)
        w2 == Mul(w, w)
        v == TLCEval(<<w, Neg(Mul(w2, t[2])), Neg(Mul(w2, t[3])), Neg(Mul(w2, t[4]))>>)
        \* the place between the surfaces, from 0 to 1
        q == TLCEval(DMul(DAdd(DDivInt(s, g.R[1]), DMulInt(z, 2)), v))
        q1 == TLCEval(DMul(q, DSub(DConst(One), q)))
        S == TLCEval(DMul(DMul(q, q), DSub(DConst(FromInt(3)), DMulInt(q, 2))))
        \* dS/ds
        S1 == TLCEval(DMulInt(DMul(q1, DMul(DSub(DConst(Ratio(1, g.R[1])), DDivInt(q, k)), v)), 6))
        \* chi, chi' and chi'' as functions of s
        Y == TLCEval(Sub(Ratio(s16, 8 * g.c), One))
        in == s16 < 16 * g.c
        X(n) == IF ~in THEN Zero
                ELSE LET d == IF n = 0 THEN DivInt(Sub(One, Alpha(Y)), 2) ELSE DivInt(Neg(DAlpha(n, Y)), 2)
                     IN FoldLeft(LAMBDA acc, i : DivInt(MulInt(acc, 2), g.c), d, [i \in 1..n |-> i])
        x0 == TLCEval(X(0))  x1 == TLCEval(X(1))  x2 == TLCEval(X(2))  x3 == TLCEval(X(3))
        c0 == TLCEval(DOf(x0, x1, s))
        c1 == TLCEval(DOf(x1, x2, s))
        c2 == TLCEval(DOf(x2, x3, s))
        p == TLCEval(DMulInt(DScale(U, DMul(DMul(v, v), c0)), IF D = 2 THEN -24 * k ELSE -12 * k))
        \* the gradient of the pressure where nothing is cut off
        dp == TLCEval(DMulInt(DScale(U, DMul(v, v)), IF D = 2 THEN -24 * k ELSE -12 * k))
        r2 == TLCEval(<<Ratio(x[2], 4), Zero, One, Zero>>)
        \* 2D: along the axis, across
        un2 == DScale(U, DAdd(DMul(DAdd(DSub(S, DConst(Ratio(1, 2))), DMulInt(DMul(s, S1), 2)), c0),
                              DMulInt(DMul(DMul(s, S), c1), 2)))
        ut2 == DScale(U, DMulInt(DMul(DMul(q1, DMul(v, c0)), r2), -12))
        \* 3D: radial over r, along the axis
        f3 == TLCEval(DScale(U, DMulInt(DMul(q1, DSub(DMulInt(c1, k), DMulInt(DMul(v, c0), 2))), 3)))
        kt == TLCEval(DMulInt(t, k))
        un3 == DScale(U, DAdd(DSub(DMul(S, DSub(DAdd(c0, DMul(s, c1)),
                                            DDivInt(DAdd(DMul(DAdd(kt, s), c1), DMul(DMul(kt, s), c2)), 2))),
                                   DDivInt(c0, 2)),
                              DMul(DMul(s, S1), DSub(c0, DDivInt(DMul(kt, c1), 2)))))
        u == IF D = 2 THEN <<TLCEval(un2), TLCEval(ut2)>>
             ELSE <<TLCEval(DMul(<<Ratio(x[1], 4), One, Zero, Zero>>, f3)),
                    TLCEval(DMul(<<Ratio(x[2], 4), Zero, One, Zero>>, f3)), TLCEval(un3)>>
    IN [p |-> p[1], dp |-> Tail(p), dq |-> Tail(dp), chi |-> x0, u |-> [i \in 1..D |-> u[i][1]],
        G |-> [i \in 1..D |-> [j \in 1..D |-> u[i][j + 1]]]]
=============================================================================
