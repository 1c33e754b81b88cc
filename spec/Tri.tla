-------------------------------- MODULE Tri --------------------------------
(***************************************************************************)
(* Triangulations of sets of points with integer coordinates, exactly.     *)
(*                                                                         *)
(* In the plane: triangles between the points which cover their convex     *)
(* hull, once, and whose circumscribed circles hold no point inside.       *)
(* In space: triangles which together are the surface of the convex hull.  *)
(*                                                                         *)
(* P is the sequence of points, T a sequence of triples of their indices,  *)
(* from 1.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sub(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
Det2(u, v) == u[1] * v[2] - u[2] * v[1]
Det3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
Turn(a, b, c) == Det2(Sub(b, a), Sub(c, a))              \* > 0: c is left of ab; twice the area
Side(a, b, c, p) == Det3(Sub(b, a), Sub(c, a), Sub(p, a))
Abs(x) == IF x < 0 THEN -x ELSE x
Nsq(u) == u[1] * u[1] + u[2] * u[2]
(* > 0: p is inside the circle through a, b, c (in either order) *)
InCircle(a, b, c, p) ==
  LET x == Sub(a, p)
      y == Sub(b, p)
      z == Sub(c, p)
      s == Turn(a, b, c)
      m == Nsq(x) * Det2(y, z) - Nsq(y) * Det2(x, z) + Nsq(z) * Det2(x, y)
  IN IF s > 0 THEN m ELSE -m

Proper(P, T) == \A i \in DOMAIN T : LET t == T[i] IN t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3] /\ \A k \in 1..3 : t[k] \in DOMAIN P

(* --- plane ------------------------------------------------------------- *)
Between(a, b, p) == \A d \in 1..2 : (a[d] <= p[d] /\ p[d] <= b[d]) \/ (b[d] <= p[d] /\ p[d] <= a[d])
HullEdge(P, i, j) ==
  i # j /\ \A k \in DOMAIN P : LET o == Turn(P[i], P[j], P[k]) IN o > 0 \/ (o = 0 /\ Between(P[i], P[j], P[k]))
Total(f, n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i-1] + f[i] IN s[n]
(* twice the area of the hull *)
HullArea(P) ==
  LET n == Len(P)
  IN Total([k \in 1..n*n |-> LET i == ((k-1) \div n) + 1
                                 j == ((k-1) % n) + 1
                             IN IF HullEdge(P, i, j) THEN Det2(P[i], P[j]) ELSE 0], n * n)
Area(P, t) == Abs(Turn(P[t[1]], P[t[2]], P[t[3]]))
Flat(P, T) == {i \in DOMAIN T : Area(P, T[i]) = 0}
NotEmptyCircles(P, T) == {<<i, k>> \in (DOMAIN T) \X (DOMAIN P) : InCircle(P[T[i][1]], P[T[i][2]], P[T[i][3]], P[k]) > 0}
Covered(P, T) == Total([i \in DOMAIN T |-> Area(P, T[i])], Len(T))

(* the triangles that have both points of a pair, and on which side of it they are *)
Sides(P, T, i, j) ==
  LET S == {k \in DOMAIN T : i \in {T[k][1], T[k][2], T[k][3]} /\ j \in {T[k][1], T[k][2], T[k][3]}}
      third(k) == CHOOSE x \in {T[k][1], T[k][2], T[k][3]} : x # i /\ x # j
  IN [k \in S |-> Turn(P[i], P[j], P[third(k)]) > 0]
(* the edges of proper triangles which do not have one triangle on either side, or one triangle and all
   points on its side *)
BadEdges(P, T) ==
  {e \in {<<T[k][x[1]], T[k][x[2]]>> : k \in DOMAIN T, x \in {<<1, 2>>, <<2, 3>>, <<1, 3>>}} :
     LET s == Sides(P, T, e[1], e[2])
         D == DOMAIN s
     IN ~ IF Cardinality(D) = 1
          THEN LET left == s[CHOOSE k \in D : TRUE]
               IN \A q \in DOMAIN P : LET o == Turn(P[e[1]], P[e[2]], P[q]) IN IF left THEN o >= 0 ELSE o <= 0
          ELSE Cardinality(D) = 2 /\ {s[k] : k \in D} = {TRUE, FALSE}}

(* --- space ------------------------------------------------------------- *)
(* the triangles that do not lie in a supporting plane *)
Signs(P, t) == {LET s == Side(P[t[1]], P[t[2]], P[t[3]], P[k]) IN IF s > 0 THEN 1 ELSE IF s < 0 THEN -1 ELSE 0 : k \in DOMAIN P}
NotSupporting(P, T) == {i \in DOMAIN T : {1, -1} \subseteq Signs(P, T[i])}
(* how often the triangles have each edge *)
EdgesOf(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[1], t[3]}}
Edges(T) == UNION {EdgesOf(T[i]) : i \in DOMAIN T}
Open(T) ==
  LET L == [k \in 1..3*Len(T) |-> LET t == T[((k-1) \div 3) + 1]
                                      q == ((k-1) % 3) + 1
                                  IN {t[q], t[(q % 3) + 1]}]
      I == [e \in Edges(T) |-> 0]
      c[k \in 0..Len(L)] == IF k = 0 THEN I ELSE [c[k-1] EXCEPT ![L[k]] = @ + 1]
  IN {e \in DOMAIN I : c[Len(L)][e] # 2}
Used(T) == UNION {{T[i][1], T[i][2], T[i][3]} : i \in DOMAIN T}
(* vertices, edges and faces of a sphere *)
Euler(T) == 2 * Cardinality(Used(T)) - Len(T)
(* a point is a corner of the hull if no line, triangle or tetrahedron of others holds it: here only the
   simple ones, the strict extremes of a direction *)
Dirs3 == {u \in (-1..1) \X (-1..1) \X (-1..1) : u # <<0, 0, 0>>}
Dot3(u, p) == u[1] * p[1] + u[2] * p[2] + u[3] * p[3]
Extreme(P, u) == {i \in DOMAIN P : \A k \in DOMAIN P : k # i => Dot3(u, P[k]) < Dot3(u, P[i])}
Corners(P) == UNION {Extreme(P, u) : u \in Dirs3}

(* --- together ---------------------------------------------------------- *)
Good2(P, T) == /\ Proper(P, T) /\ Flat(P, T) = {} /\ NotEmptyCircles(P, T) = {} /\ BadEdges(P, T) = {} /\ Covered(P, T) = HullArea(P)
Surface(T) == Len(T) > 3 /\ Open(T) = {} /\ Euler(T) = 4
Good3(P, T) == /\ Proper(P, T) /\ NotSupporting(P, T) = {} /\ Surface(T) /\ Corners(P) \subseteq Used(T)
=============================================================================
