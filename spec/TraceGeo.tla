------------------------------ MODULE TraceGeo ------------------------------
(* Recorded results of the geometry code against module Geo. *)
EXTENDS Geo, TraceBase

VARIABLE l
E == Trace[l]
Ok(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Half(s, D, k) == [d \in 1..D |-> s[(k-1)*D + d]]
ToBox(s, D) == Bx(Half(s, D, 1), Half(s, D, 2))
Pt(s, D, k) == [d \in 1..D |-> s[(k-1)*D + d]]
Window(D, w) == BoxSeq(Bx([d \in 1..D |-> -w], [d \in 1..D |-> w + 1]))
Cat(c) == [k \in 1..(Len(c) * Len(c[1])) |-> c[((k-1) \div Len(c[1])) + 1][((k-1) % Len(c[1])) + 1]]

BoxEv ==
  /\ E.ev = "box"
  /\ LET D == E.D
         a == ToBox(E.a, D)
         b == ToBox(E.b, D)
         P == Window(D, E.win)
         m == Meet(a, b)
         ind(Q(_)) == [k \in 1..Len(P) |-> B2I(Q(P[k]))]
         both(p) == InBox(a, p) /\ InBox(b, p)
         ina(p) == InBox(a, p)
         inu(p) == InBox(Uni(a, b), p)
     IN /\ Is("intersect", l, E.meet, B2I(m))
        /\ Is("check_box_inside", l, E.chk, B2I(m))
        /\ m => /\ Is("overlap", l, ToBox(E.over, D), Over(a, b))
                /\ Is("box inside", l, ToBox(E.ins, D), Over(a, b))
        /\ Is("union", l, ToBox(E.uni, D), Uni(a, b))
        /\ Same("points inside", l, E.ina, ind(ina))
        /\ Same("points in the overlap", l, E.inover, ind(both))
        /\ Same("points in the part inside", l, E.inins, ind(both))
        /\ Same("points in the union", l, E.inuni, ind(inu))
        /\ Same("lengths", l, E.len, [d \in 1..D |-> a.hi[d] - a.lo[d]])
        /\ Is("volume", l, E.vol, Prod([d \in 1..D |-> a.hi[d] - a.lo[d]]))
        /\ Same("corners", l, E.corners, Cat(Corners(a)))
        /\ Same("first box afterwards", l, E.a2, E.a)
        /\ Same("second box afterwards", l, E.b2, E.b)

(* f: the operation; x, y its operands (for quotients a multiple) *)
Value(f, D, x, y, s) ==
  CASE f = "add" -> Add(x, y)
    [] f = "sub" -> Sub(x, y)
    [] f = "mul" -> Mul(x, y)
    [] f = "div" -> Quo(x, y)
    [] f = "adds" -> Add(x, Rep(s, D))
    [] f = "subs" -> Sub(x, Rep(s, D))
    [] f = "muls" -> Scale(s, x)
    [] f = "divs" -> Quo(x, Rep(s, D))
    [] f = "neg" -> Neg(x)
    [] f = "dbl" -> Scale(2, x)
    [] f = "zero" -> Rep(0, D)
    [] f = "sqr" -> Mul(x, x)
    [] f = "copy" -> x
    [] f = "fill" -> Rep(s, D)
    [] f = "ceil4" -> [d \in 1..D |-> -((-x[d]) \div 4)]
    [] f = "floor4" -> [d \in 1..D |-> x[d] \div 4]
    [] f = "trunc4" -> [d \in 1..D |-> IF x[d] < 0 THEN -((-x[d]) \div 4) ELSE x[d] \div 4]
    [] f = "cross2" -> <<Cross2(x, y)>>
    [] f = "crosszl" -> CrossZL(s, x)
    [] f = "crosszr" -> CrossZR(x, s)
    [] f = "cross3" -> Cross3(x, y)
AlgEv ==
  /\ E.ev = "alg"
  /\ \A k \in 1..Len(E.ops) :
       LET o == E.ops[k]
           x == CASE o.f = "div" -> E.m [] o.f = "divs" -> E.n [] OTHER -> E.x
           y == IF o.f = "div" THEN E.z ELSE E.y
       IN /\ Same(o.form, l, o.r, Value(o.f, E.D, x, y, E.s))
          /\ Same(<<o.form, "first operand afterwards">>, l, o.x, x)
          /\ (o.f \in {"add", "sub", "mul", "div", "cross2", "cross3"} /\ o.y # <<>>) =>
                Same(<<o.form, "second operand afterwards">>, l, o.y, y)

Turn(g, undo, pts, D) ==
  LET h == IF undo = 1 THEN Conj(g) ELSE g
      n == Len(pts) \div D
      r == [k \in 1..n |-> RotD(h, Pt(pts, D, k))]
  IN [k \in 1..Len(pts) |->
        LET v == r[((k-1) \div D) + 1][((k-1) % D) + 1]
        IN IF v % Den(g) = 0 THEN v \div Den(g) ELSE Assert(FALSE, "not an integer point")]
RECURSIVE AllTurns(_, _, _, _)
AllTurns(k, steps, pts, D) ==
  IF k > Len(steps) THEN TRUE ELSE
  LET want == Turn(steps[k].g, steps[k].undo, pts, D)
  IN /\ Ok("a unit axis, an angle", Unit(steps[k].g))
     /\ Same(<<"rotation", k>>, l, steps[k].r, want)
     /\ Is("is_rotate", l, steps[k].is, 1)
     /\ AllTurns(k + 1, steps, want, D)
RotEv ==
  /\ E.ev = "rot"
  /\ AllTurns(1, E.steps, E.pts, E.D)
  /\ Is("no rotation", l, E.noneis, 0)
  /\ Same("without rotation", l, E.none, E.pts)
AxisEv ==
  /\ E.ev = "axis"
  /\ LET n == Len(E.pts) \div 3 IN
     /\ Same("squared lengths", l, E.len, [k \in 1..n |-> Dot(Pt(E.pts, 3, k), Pt(E.pts, 3, k))])
     /\ Same("components along the axis", l, E.dot, [k \in 1..n |-> Dot(Pt(E.pts, 3, k), E.n)])
     /\ Same("undone", l, E.back, E.pts)

Axes(e) == IF e.kind \in {"circle", "sphere"} THEN [d \in 1..e.D |-> e.r[1]] ELSE e.r
ShapeOf(e) == MkShape(e.c, Axes(e), e.n, e.e, IF e.g.m = 0 THEN NoRot ELSE e.g)
MaxR(r) == CHOOSE x \in {r[i] : i \in DOMAIN r} : \A i \in DOMAIN r : r[i] <= x
Cross2x(p, q) == p[1]*q[2] - p[2]*q[1]
Dist2(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Near(P, D, b, e, margin) ==
  \A k \in 1..(Len(P) \div D) : \A d \in 1..D :
     b.lo[d] - margin <= P[(k-1)*D + d] + 64 * e.c[d] /\ P[(k-1)*D + d] + 64 * e.c[d] <= b.hi[d] + margin
ShapeEv ==
  /\ E.ev = "shape"
  /\ LET D == E.D
         S == ShapeOf(E)
         B == Bx(E.lo, E.hi)
         P == BoxSeq(B)
         v == [k \in 1..Len(P) |-> Side(S, P[k])]
         (* on the boundary is not inside; rounding may blur that except where a
            semi-axis of length 1, 2, 4, ... ends *)
         blur(k) == v[k] = 0 /\ ~ (E.g.m = 0 /\ \E d \in 1..D : /\ Axes(E)[d] \in {1, 2, 4, 8, 16}
                                                              /\ \A o \in (1..D) \ {d} : P[k][o] = 0)
         bb == Bx(E.blo, E.bhi)
         bi == Bx(E.ilo, E.ihi)
     IN /\ Same("inside", l, [k \in 1..Len(P) |-> IF blur(k) THEN -1 ELSE E.ins[k]],
                             [k \in 1..Len(P) |-> IF blur(k) THEN -1 ELSE B2I(v[k] < 0)])
        /\ Ok("the window holds the shape", \A k \in 1..Len(P) : (\E d \in 1..D : P[k][d] \in {B.lo[d], B.hi[d] - 1}) => v[k] > 0)
        /\ \A k \in 1..Len(P) : v[k] < 0 =>
             /\ Ok(<<"inside but not in the bounding box", P[k]>>,
                   \A d \in 1..D : bb.lo[d] <= 64 * P[k][d] /\ 64 * P[k][d] <= bb.hi[d])
             /\ (\A d \in 1..D : P[k][d] % E.h[d] = 0) =>
                  Ok(<<"a node inside is not in the integer box", P[k]>>,
                     InBox(bi, [d \in 1..D |-> P[k][d] \div E.h[d]]))
        /\ Is("surface samples off the boundary", l, E.sploff, 0)
        /\ Is("points of the parametrisation off the boundary", l, E.paroff, 0)
        /\ Is("radial vectors off the boundary", l, E.radoff, 0)
        /\ Ok("samples in the bounding box", Near(E.spl, D, bb, E, 2) /\ Near(E.par, D, bb, E, 2))
        /\ Same("radial vectors", l, E.rad, E.par)
        /\ Ok("there are samples", E.spln > 0)
        (* they are symmetric: about the axes, and always about the centre *)
        /\ LET n == E.spln
               Q == {Pt(E.spl, D, i) : i \in 1..n}
               has(p) == \E o \in [1..D -> {-1, 0, 1}] : [d \in 1..D |-> p[d] + o[d]] \in Q
               mirrors == IF E.g.m = 0 \/ (E.g.s = 0 /\ E.g.c = E.g.q)
                          THEN {[d \in 1..D |-> IF d \in A THEN -1 ELSE 1] : A \in SUBSET (1..D)}
                          ELSE {[d \in 1..D |-> -1]}
           IN \A i \in 1..n : \A m \in mirrors :
                Ok(<<"a sample has no mirror image", Pt(E.spl, D, i), m>>, has(Mul(m, Pt(E.spl, D, i))))
        (* going round, the next sample is not far: k is the spacing asked for
           relative to the unit semi-axis, in 1/256 *)
        /\ D = 2 =>
             LET gap == (23 * E.k * MaxR(Axes(E))) \div 40
                 n == E.spln
                 Q == [i \in 1..n |-> Pt(E.spl, 2, i)]
             IN \A i \in 1..n : Ok(<<"no sample follows", Q[i]>>,
                                   {j \in 1..n : Cross2x(Q[i], Q[j]) > 0 /\ Dist2(Q[i], Q[j]) <= gap * gap} # {})
        (* in space: every point of the parametrisation has a sample near by *)
        /\ D = 3 =>
             LET gap == (15 * E.k * MaxR(Axes(E))) \div 40 + 2
                 Q == {Pt(E.spl, 3, i) : i \in 1..E.spln}
             IN \A i \in 1..E.parn : Ok(<<"no sample near", Pt(E.par, 3, i)>>,
                    \E q \in Q : Dot(Sub(q, Pt(E.par, 3, i)), Sub(q, Pt(E.par, 3, i))) <= gap * gap)
MeasuresEv ==
  /\ E.ev = "measures"
  /\ LET R == E.r
     IN IF E.kind = "circle"
        THEN Same("perimeter, area, drag coefficients", l, <<E.area, E.vol, E.cd, E.ci>>, <<2 * R, R * R, R * R, R * R>>)
        ELSE Same("area, volume, drag coefficients", l, <<E.area, E.vol, E.cd, E.ci>>, <<R * R, R * R * R, R * R, R * R>>)

(* equally spaced parameters, from a to b or to a step before it *)
Linspace(a, b, n, end) == LET m == IF end = 1 THEN n - 1 ELSE n IN [k \in 1..n |-> a * m + (k-1) * (b - a)]   \* m times them
LinEv ==
  /\ E.ev = "lin"
  /\ Same("equally spaced parameters", l, E.v, Linspace(E.a, E.b, E.n, E.end))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (BoxEv \/ AlgEv \/ RotEv \/ AxisEv \/ ShapeEv \/ MeasuresEv \/ LinEv \/ EndOf(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
