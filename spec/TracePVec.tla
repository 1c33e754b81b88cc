------------------------------ MODULE TracePVec ------------------------------
(* The code's distributed fields step by step: after every call the field and
   every private copy, ghosts included, are those of module PVec. *)
EXTENDS PVec, TraceBase

VARIABLES l, glob, loc, own, gho
vars == <<l, glob, loc, own, gho>>
E == Trace[l]
Half(s, D, k) == [d \in 1..D |-> s[(k-1)*D + d]]
ToBox(s, D) == Bx(Half(s, D, 1), Half(s, D, 2))
Boxes(ss, D) == [i \in 1..Len(ss) |-> ToBox(ss[i], D)]
GV(e) == IF e.lap = 1 THEN PGrid(e.D, e.n, e.per, e.n) ELSE VGrid(e.D, e.n, e.per, e.n)
Gr(e, p) == IF p = 1 THEN GV(e) ELSE PGrid(e.D, e.n, e.per, e.n)
Dof(e, p) == IF p = 1 /\ e.lap = 0 THEN e.D ELSE 1
Parts(e) == 1..(2 - e.lap)

Open ==
  /\ E.ev = "open"
  /\ own' = [p \in Parts(E) |-> Boxes(E.own[p], E.D)]
  /\ gho' = [p \in Parts(E) |-> Boxes(E.gho[p], E.D)]
  /\ \A p \in Parts(E) :
       /\ IsPartition(Gr(E, p), own'[p])
       /\ Same("field as set before opening", l, E.glob[p], E.set[p])
  /\ glob' = E.glob
  /\ loc' = E.loc      \* the copies hold nothing yet: whatever is there
(* one call; e carries the parameters and the state after it *)
EffG(e, p, g, lc) ==
  LET G == Gr(e, p) F == Dof(e, p) IN
  CASE e.op = "fillg" -> FillG(G, F, e.v)
    [] e.op = "setg" -> [g EXCEPT ![(Flat(G, e.at) - 1) * F + e.f + 1] = e.v]
    [] e.op = "incg" -> [g EXCEPT ![(Flat(G, e.at) - 1) * F + e.f + 1] = @ + e.v]
    [] e.op = "add" -> AddAll(G, F, gho[p], g, lc)
    [] e.op = "ins" -> InsertAll(G, F, own[p], gho[p], g, lc)
    [] OTHER -> g
EffL(e, p, g, lc) ==
  LET G == Gr(e, p) F == Dof(e, p)
      i == (BIdx(gho[p][e.r + 1], e.at, e.D) - 1) * F + e.f + 1 IN
  CASE e.op = "fill" -> Fill(gho[p], F, e.v)
    [] e.op = "set" -> [lc EXCEPT ![e.r + 1][i] = e.v]
    [] e.op = "inc" -> [lc EXCEPT ![e.r + 1][i] = @ + e.v]
    [] e.op = "g2l" -> Refresh(G, F, gho[p], g)
    [] OTHER -> lc
SameLoc(what, got, want) == \A r \in DOMAIN want : Same(what, l, got[r], want[r])
Call ==
  /\ E.ev = "call"
  /\ LET p == E.p + 1 IN
     /\ glob' = [glob EXCEPT ![p] = EffG(E, p, glob[p], loc[p])]
     /\ loc' = [loc EXCEPT ![p] = EffL(E, p, glob[p], loc[p])]
  /\ \A p \in Parts(E) :
       /\ Same("field", l, E.glob[p], glob'[p])
       /\ SameLoc("private copy", E.loc[p], loc'[p])
  /\ UNCHANGED <<own, gho>>
(* a second, reading view of the same field sees it and all its images *)
Reading ==
  /\ E.ev = "read"
  /\ \A p \in Parts(E) :
       /\ Same("field read", l, E.glob[p], glob[p])
       /\ SameLoc("ghosts read", E.loc[p], Refresh(Gr(E, p), Dof(E, p), gho[p], glob[p]))
  /\ UNCHANGED <<glob, loc, own, gho>>
Close ==
  /\ E.ev = "close"
  /\ \A p \in Parts(E) : Same("field after closing", l, E.glob[p], glob[p])
  /\ UNCHANGED <<glob, loc, own, gho>>

Init == l = 1 /\ glob = <<>> /\ loc = <<>> /\ own = <<>> /\ gho = <<>>
Next == /\ l <= Len(Trace)
        /\ (Open \/ Call \/ Reading \/ Close \/ (EndOf(l) /\ UNCHANGED <<glob, loc, own, gho>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
