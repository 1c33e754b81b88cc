------------------------------- MODULE MCGeo -------------------------------
(* Design of the geometry: boxes against the sets they stand for, algebra
   against its laws, rotations along any history, shapes against their boxes. *)
EXTENDS Geo, TLC
CONSTANTS WIN,      \* boxes in [0, WIN]^2 and [0, WIN-1]^3
          VMAX,     \* vectors with entries -VMAX..VMAX
          STEPS,    \* length of the rotation histories
          RS        \* semi-axes
VARIABLE s
Bxs(D, N) == {b \in [lo : [1..D -> 0..N], hi : [1..D -> 0..N]] : Proper(b)}
Vecs(D, N) == [1..D -> -N..N]
Gens == {[n |-> <<0, 0, 1>>, m |-> 1, c |-> 0, s |-> 1, q |-> 1],
         [n |-> <<1, 0, 0>>, m |-> 1, c |-> 0, s |-> 1, q |-> 1],
         [n |-> <<0, -1, 0>>, m |-> 1, c |-> -1, s |-> 0, q |-> 1],
         [n |-> <<0, 0, 1>>, m |-> 1, c |-> 3, s |-> 4, q |-> 5],
         [n |-> <<2, -1, 2>>, m |-> 3, c |-> 0, s |-> 1, q |-> 1]}
Shapes == {MkShape(<<0, 0>>, r, n, n, g) :
             r \in [1..2 -> RS], n \in {1, 2, 4}, g \in {x \in Gens : x.n = <<0, 0, 1>>} \cup {NoRot}}
         \cup {MkShape(<<0, 0, 0>>, r, ne[1], ne[2], g) :
             r \in [1..3 -> {2, 3}], ne \in {<<2, 2>>, <<4, 2>>, <<2, 4>>}, g \in {x \in Gens : x.q = 1 /\ x.m = 1} \cup {NoRot}}

Init == s = [t |-> "start"]
Pick ==
  /\ s.t = "start"
  /\ \/ \E D \in {2, 3} : LET B == Bxs(D, IF D = 2 THEN WIN ELSE WIN - 2) IN \E a \in B : s' = [t |-> "box0", a |-> a]
     \/ \E D \in {2, 3} : \E x \in Vecs(D, VMAX + 3 - D) : s' = [t |-> "vec0", a |-> x]
     \/ s' = [t |-> "rot", den |-> 1, e |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, last |-> NoRot, prev |-> <<>>, k |-> 0]
     \/ \E S \in Shapes : s' = [t |-> "shape0", S |-> S]
Pick2 ==
  \/ /\ s.t = "box0"
     /\ \E b \in Bxs(Len(s.a.lo), IF Len(s.a.lo) = 2 THEN WIN ELSE WIN - 2) : s' = [t |-> "box", a |-> s.a, b |-> b]
  \/ /\ s.t = "vec0"
     /\ \E y \in Vecs(Len(s.a), VMAX + 3 - Len(s.a)) : s' = [t |-> "vec", a |-> s.a, b |-> y]
  \/ s.t = "shape0" /\ s' = [t |-> "shape", S |-> s.S]
Turn(g) == /\ s.t = "rot" /\ s.k < STEPS
           /\ s.den * Den(g) * Den(g) <= 30000
           /\ s' = [t |-> "rot", den |-> s.den * Den(g), e |-> [i \in 1..3 |-> Rot(g, s.e[i])],
                    last |-> g, prev |-> s.e, k |-> s.k + 1]
Next == Pick \/ Pick2 \/ \E g \in Gens : Turn(g) \/ Turn(Conj(g))
Spec == Init /\ [][Next]_s

Pnts(D) == [1..D -> -1..WIN+1]
BoxLaws == s.t = "box" =>
  LET a == s.a b == s.b D == Len(s.a.lo) P == [1..D -> 0..WIN] IN
  /\ Meet(a, b) <=> \E p \in P : InClosed(a, p) /\ InClosed(b, p)
  /\ \A p \in P : InClosed(Over(a, b), p) <=> InClosed(a, p) /\ InClosed(b, p)
  /\ \A p \in P : InBox(Over(a, b), p) <=> InBox(a, p) /\ InBox(b, p)
  /\ \A p \in P : InClosed(a, p) \/ InClosed(b, p) => InClosed(Uni(a, b), p)
  /\ \A d \in 1..D : \E x \in {a, b}, y \in {a, b} : Uni(a, b).lo[d] = x.lo[d] /\ Uni(a, b).hi[d] = y.hi[d]
VecLaws == s.t = "vec" =>
  LET x == s.a y == s.b IN
  IF Len(x) = 3
  THEN /\ Cross3(x, y) = Neg(Cross3(y, x))
       /\ Dot(x, Cross3(x, y)) = 0 /\ Dot(y, Cross3(x, y)) = 0
       /\ Dot(Cross3(x, y), Cross3(x, y)) = Dot(x, x) * Dot(y, y) - Dot(x, y) * Dot(x, y)
  ELSE /\ Cross2(x, y) = -Cross2(y, x)
       /\ \A w \in -2..2 : /\ CrossZL(w, x) = Neg(CrossZR(x, w))
                           /\ Dot(CrossZL(w, x), x) = 0
                           /\ Cross2(x, CrossZL(w, x)) = w * Dot(x, x)
                           /\ Dot(CrossZL(w, x), y) = w * Cross2(x, y)
RotLaws == s.t = "rot" =>
  /\ Unit(s.last)
  /\ \A i \in 1..3, j \in 1..3 : Dot(s.e[i], s.e[j]) = IF i = j THEN s.den * s.den ELSE 0
  /\ Cross3(s.e[1], s.e[2]) = Scale(s.den, s.e[3])          \* it keeps the orientation
  /\ s.k > 0 => \A i \in 1..3 : Rot(Conj(s.last), s.e[i]) = Scale(Den(s.last) * Den(s.last), s.prev[i])
  /\ s.k > 0 => Rot(s.last, s.last.n) = Scale(Den(s.last), s.last.n)  \* the axis stays
ShapeLaws == s.t = "shape" =>
  LET S == s.S D == Len(S.r) q == Den(S.g) R == 5 P == [1..D -> -R..R] IN
  \A p \in P :
    /\ Side(S, p) = Side(S, Neg(p))
    /\ Side(S, p) <= 0 => \A d \in 1..D : Abs(p[d]) * q <= Reach(S)[d]
    /\ Side(S, p) <= 0 => \A k \in 1..D : Side(S, [p EXCEPT ![k] = 0]) <= 0 \/ S.g # NoRot
=============================================================================
