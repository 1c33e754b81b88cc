------------------------------ MODULE TraceTri ------------------------------
(* Recorded triangulations against module Tri. *)
EXTENDS Tri, TraceBase

VARIABLE l
E == Trace[l]
(* points and triangles of the event; the code counts points from 0 *)
Pts == [k \in 1..(Len(E.p) \div E.D) |-> [d \in 1..E.D |-> E.p[(k-1) * E.D + d]]]
Tris == [k \in 1..(Len(E.t) \div 3) |-> [d \in 1..3 |-> E.t[(k-1) * 3 + d] + 1]]

Named(T) == {k \in DOMAIN T : ~(T[k][1] # T[k][2] /\ T[k][2] # T[k][3] /\ T[k][1] # T[k][3] /\ \A d \in 1..3 : T[k][d] \in 1..E.num)}
Plane(P, T) ==
  /\ Is("triangles of no area", l, Flat(P, T), {})
  /\ Is("points inside the circles of triangles", l, NotEmptyCircles(P, T), {})
  /\ Is("edges", l, BadEdges(P, T), {})
  /\ Is("area covered", l, Covered(P, T), HullArea(P))
Body(T) ==
  /\ Is("enough triangles", l, Len(T) > 3, TRUE)
  /\ Is("edges without two triangles", l, Open(T), {})
  /\ Is("twice the points less the triangles", l, Euler(T), 4)
Space(P, T) ==
  /\ Is("triangles through the body", l, NotSupporting(P, T), {})
  /\ Body(T)
  /\ Is("corners left out", l, Corners(P) \ Used(T), {})
TriEv ==
  /\ E.ev = "tri"
  /\ Same("points afterwards", l, E.p1, E.p)
  /\ \E T \in {TLCEval(Tris)} : \E P \in {TLCEval(Pts)} :
       /\ Is("triangles that are none", l, Named(T), {})
       /\ IF E.exact = 0 THEN Body(T) /\ Is("points used", l, Cardinality(Used(T)), E.num)
          ELSE IF E.D = 2 THEN Plane(P, T) ELSE Space(P, T)

Init == l = 1
Next == l <= Len(Trace) /\ (TriEv \/ EndOf(l)) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
