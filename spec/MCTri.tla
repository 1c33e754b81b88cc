------------------------------- MODULE MCTri -------------------------------
(* What is asked of a triangulation can be had, and says what it should: for
   all small sets of points of the plane, among ALL sets of triangles the good
   ones exist, use every point, have the number of triangles Euler's formula
   gives and do not overlap; there is only one when no four points are on a
   circle. In space, for small sets: a set of triangles is good only if every
   point is in the hull it bounds, and the boundary of the hull of the corners
   of a cube, octahedron, ... has good triangulations. *)
EXTENDS Tri, TLC, FiniteSetsExt
CONSTANTS XS, YS, NMAX, CUBE, NMAX3

VARIABLES part, P
vars == <<part, P>>

(* points in lexicographic order *)
Lattice == {<<x, y>> : x \in XS, y \in YS}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Solid == {<<x, y, z>> : x \in CUBE, y \in CUBE, z \in CUBE}
Less3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Init == part = "start" /\ P = <<>>
Add2 == /\ part \in {"start", "plane"} /\ Len(P) < NMAX
        /\ \E q \in Lattice : (IF P = <<>> THEN TRUE ELSE Less(P[Len(P)], q)) /\ P' = Append(P, q)
        /\ part' = "plane"
Add3 == /\ part \in {"start", "space"} /\ Len(P) < NMAX3
        /\ \E q \in Solid : (IF P = <<>> THEN TRUE ELSE Less3(P[Len(P)], q)) /\ P' = Append(P, q)
        /\ part' = "space"
Next == Add2 \/ Add3
Spec == Init /\ [][Next]_vars

Triples == {<<i, j, k>> \in (DOMAIN P) \X (DOMAIN P) \X (DOMAIN P) : i < j /\ j < k}
Seqs(S) == LET RECURSIVE f(_)
               f(q) == IF q = {} THEN <<>> ELSE LET x == CHOOSE y \in q : TRUE IN <<x>> \o f(q \ {x})
           IN f(S)
(* good triangles one by one, then all sets of them *)
Cand2 == {t \in Triples : Area(P, t) # 0 /\ NotEmptyCircles(P, <<t>>) = {}}
AllGood2 ==
  LET C == Cand2
      h == HullArea(P)
  IN {S \in SUBSET C : MapThenSumSet(LAMBDA t : Area(P, t), S) = h /\ Good2(P, Seqs(S))}
InLine == \A t \in Triples : Area(P, t) = 0
Boundary == {k \in DOMAIN P : \E i, j \in DOMAIN P : HullEdge(P, i, j) /\ Turn(P[i], P[j], P[k]) = 0 /\ Between(P[i], P[j], P[k])}
OnCircle == \E t \in Triples : Area(P, t) # 0 /\ \E k \in DOMAIN P \ {t[1], t[2], t[3]} : InCircle(P[t[1]], P[t[2]], P[t[3]], P[k]) = 0
Holds(t, p) == \* twice the open triangle holds the point p / 6
  LET s == {LET a == P[t[i]]
               b == P[t[(i % 3) + 1]] IN Turn([d \in 1..2 |-> 6 * a[d]], [d \in 1..2 |-> 6 * b[d]], p) : i \in 1..3}
  IN (\A x \in s : x > 0) \/ (\A x \in s : x < 0)
Middle(t) == [d \in 1..2 |-> 2 * (P[t[1]][d] + P[t[2]][d] + P[t[3]][d])]
Plane == (part = "plane" /\ Len(P) >= 3 /\ ~InLine) =>
  LET G == AllGood2
  IN /\ G # {}
     /\ ~OnCircle => Cardinality(G) = 1
     /\ \A S \in G : /\ Cardinality(S) = 2 * Len(P) - 2 - Cardinality(Boundary)
                     /\ UNION {{t[1], t[2], t[3]} : t \in S} = DOMAIN P
                     /\ \A t, u \in S : t # u => ~Holds(t, Middle(u))
(* in space *)
Cand3 == {t \in Triples : NotSupporting(P, <<t>>) = {} /\ {1, -1} \cap Signs(P, t) # {}}
FlatBody == \A t \in Triples : {1, -1} \cap Signs(P, t) = {}
Space == (part = "space" /\ Len(P) >= 4 /\ ~FlatBody) =>
  LET C == Cand3
      G == {S \in SUBSET C : Cardinality(S) = 2 * Cardinality(UNION {{t[1], t[2], t[3]} : t \in S}) - 4 /\ Good3(P, Seqs(S))}
  IN /\ G # {}
     /\ \A S \in G : Cardinality(S) = 2 * (Cardinality(Used(Seqs(S))) - 2)
     (* one triangle less and it is open *)
     /\ \A S \in G : \A t \in S : ~Surface(Seqs(S \ {t}))
     /\ (\A t \in Triples : Cardinality(Signs(P, t)) = 3 \/ \A k \in DOMAIN P \ {t[1], t[2], t[3]} : Side(P[t[1]], P[t[2]], P[t[3]], P[k]) # 0) => Cardinality(G) = 1
=============================================================================
