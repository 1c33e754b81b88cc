-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Geometry of the particles in exact integers: boxes, vector algebra,      *)
(* rotations of rational matrix, and the shapes (super-ellipses, discs,     *)
(* spheres) with rational semi-axes.                                        *)
(***************************************************************************)
EXTENDS Mesh

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* ---- boxes [lo, hi] ---- *)
Proper(b) == \A d \in DOMAIN b.lo : b.lo[d] <= b.hi[d]
InClosed(b, c) == \A d \in DOMAIN c : b.lo[d] <= c[d] /\ c[d] <= b.hi[d]
Meet(a, b) == \A d \in DOMAIN a.lo : a.lo[d] <= b.hi[d] /\ b.lo[d] <= a.hi[d]
Over(a, b) == Bx([d \in DOMAIN a.lo |-> Max2(a.lo[d], b.lo[d])], [d \in DOMAIN a.lo |-> Min2(a.hi[d], b.hi[d])])
Uni(a, b) == Bx([d \in DOMAIN a.lo |-> Min2(a.lo[d], b.lo[d])], [d \in DOMAIN a.lo |-> Max2(a.hi[d], b.hi[d])])
Corners(b) == LET D == Len(b.lo) IN
  [i \in 1..Pow(2, D) |-> [d \in 1..D |-> IF Corner8(D)[i][d] = 0 THEN b.lo[d] ELSE b.hi[d]]]

(* ---- vectors ---- *)
Add(x, y) == [d \in DOMAIN x |-> x[d] + y[d]]
Sub(x, y) == [d \in DOMAIN x |-> x[d] - y[d]]
Mul(x, y) == [d \in DOMAIN x |-> x[d] * y[d]]
Quo(x, y) == [d \in DOMAIN x |-> IF y[d] > 0 THEN x[d] \div y[d] ELSE (-x[d]) \div (-y[d])]
Rep(s, D) == [d \in 1..D |-> s]
Scale(s, x) == [d \in DOMAIN x |-> s * x[d]]
Neg(x) == [d \in DOMAIN x |-> -x[d]]
Dot(x, y) == SumSeq([d \in 1..Len(x) |-> x[d] * y[d]])
Cross3(x, y) == <<x[2]*y[3] - x[3]*y[2], x[3]*y[1] - x[1]*y[3], x[1]*y[2] - x[2]*y[1]>>
(* the plane ones are restrictions of the one in space *)
Cross2(x, y) == Cross3(<<x[1], x[2], 0>>, <<y[1], y[2], 0>>)[3]
Flat2(v) == <<v[1], v[2]>>
CrossZL(w, x) == Flat2(Cross3(<<0, 0, w>>, <<x[1], x[2], 0>>))
CrossZR(x, w) == Flat2(Cross3(<<x[1], x[2], 0>>, <<0, 0, w>>))

(* ---- rotations ----
   axis n / m with integers and |n| = m, angle with cosine c/q and sine s/q;
   Rodrigues' formula times q m^2 *)
Unit(g) == Dot(g.n, g.n) = g.m * g.m /\ g.c * g.c + g.s * g.s = g.q * g.q
Rot(g, v) == LET w == Cross3(g.n, v)
                 k == Dot(g.n, v)
             IN [d \in 1..3 |-> g.c * g.m * g.m * v[d] + g.s * g.m * w[d] + (g.q - g.c) * k * g.n[d]]
Den(g) == g.q * g.m * g.m
Conj(g) == [g EXCEPT !.s = -g.s]
Embed(v) == IF Len(v) = 2 THEN <<v[1], v[2], 0>> ELSE v
RotD(g, v) == IF Len(v) = 2 THEN Flat2(Rot(g, Embed(v))) ELSE Rot(g, v)
NoRot == [n |-> <<0, 0, 1>>, m |-> 1, c |-> 1, s |-> 0, q |-> 1]

(* ---- shapes ----
   S = [c, r, n, e, g, L] (see MkShape): centre and semi-axes in the same integer unit,
   exponents, rotation.  A point is inside when, taken back to the axes of the
   shape, |x1/r1|^n + |x2/r2|^n < 1 in the plane and
   (|x1/r1|^e + |x2/r2|^e)^(n/e) + |x3/r3|^n < 1 in space.
   Value: -1 inside, 0 on the boundary, 1 outside. *)
Gcd(a, b) == CHOOSE k \in 1..a : a % k = 0 /\ b % k = 0 /\ \A j \in 1..a : (a % j = 0 /\ b % j = 0) => j <= k
Lcm(a, b) == a * (b \div Gcd(a, b))
Lcms(r) == IF Len(r) = 2 THEN Lcm(r[1], r[2]) ELSE Lcm(Lcm(r[1], r[2]), r[3])
MkShape(c, r, n, e, g) == [c |-> c, r |-> r, n |-> n, e |-> e, g |-> g, L |-> Lcms(r)]
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Side(S, p) ==
  LET D == Len(p)
      w == RotD(Conj(S.g), Sub(p, S.c))        \* times Den
      L == S.L * Den(S.g)
      x == [d \in 1..D |-> Abs(w[d]) * (S.L \div S.r[d])]
  IN IF \E d \in 1..D : x[d] > L THEN 1
     ELSE IF D = 2 THEN Cmp(Pow(x[1], S.n) + Pow(x[2], S.n), Pow(L, S.n))
     ELSE LET xy == Pow(x[1], S.e) + Pow(x[2], S.e) IN
          CASE S.n = S.e -> Cmp(xy + Pow(x[3], S.n), Pow(L, S.n))
            [] S.n = 2 * S.e -> IF xy > Pow(L, S.e) THEN 1
                                ELSE Cmp(xy * xy + Pow(x[3], S.n), Pow(L, S.n))
            [] 2 * S.n = S.e -> LET z == Pow(L, S.n) - Pow(x[3], S.n) IN Cmp(xy, z * z)
(* the box of the rotated axes: contains the shape (times Den) *)
Reach(S) == LET D == Len(S.r) IN
  [d \in 1..D |-> SumSeq([k \in 1..D |-> Abs(RotD(S.g, [j \in 1..D |-> IF j = k THEN S.r[k] ELSE 0])[d])])]
=============================================================================
