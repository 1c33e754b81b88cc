------------------------------- MODULE MCPVec -------------------------------
(* All sequences (to a depth) of calls on a field of a small grid, on every
   partition, and the laws a user relies on.  The behaviours are also used to
   drive the code: see PVecGen. *)
EXTENDS PVec, TLC
CONSTANTS GRIDS, RMAX, DEPTH, FVALS

VARIABLES G, F, cuts, glob, loc, last, n, prev
vars == <<G, F, cuts, glob, loc, last, n, prev>>

NB(d) == Cardinality(cuts[d]) + 1
Ranks == 1..Prod([d \in 1..G.D |-> NB(d)])
St(d, b) == IF b = 0 THEN 0 ELSE CHOOSE p \in cuts[d] : Cardinality({q \in cuts[d] : q <= p}) = b
En(d, b) == IF b = NB(d) - 1 THEN G.n[d] ELSE St(d, b + 1)
BlkOf(r) == [d \in 1..G.D |-> ((r-1) \div ProdTo([e \in 1..G.D |-> NB(e)], d-1)) % NB(d)]
own == [r \in Ranks |-> Bx([d \in 1..G.D |-> St(d, BlkOf(r)[d])], [d \in 1..G.D |-> En(d, BlkOf(r)[d])])]
gho == [r \in Ranks |-> Ghosted(G, own[r], 1)]

Grids1 == {<<3,2,0,0>>, <<3,2,1,0>>, <<2,2,1,1>>, <<3,3,0,1>>}
Grids2 == Grids1 \cup {<<4,3,1,1>>}

Init ==
  /\ \E g \in GRIDS :
       /\ G = [D |-> 2, n |-> <<g[1], g[2]>>, per |-> <<g[3], g[4]>>, h |-> <<1, 1>>]
       /\ cuts \in {c \in [1..2 -> SUBSET (1..9)] :
                      /\ \A d \in 1..2 : \A q \in c[d] : q < G.n[d]
                      /\ Prod([d \in 1..2 |-> Cardinality(c[d]) + 1]) <= RMAX}
  /\ F \in FVALS
  /\ glob = [k \in 1..NNodes(G)*F |-> k]
  /\ loc = Refresh(G, F, gho, glob)
  /\ last = "g2l" /\ n = 0 /\ prev = <<glob, loc>>
Op(o, g2, l2) == /\ n < DEPTH
                 /\ n' = n + 1 /\ last' = o /\ glob' = g2 /\ loc' = l2
                 /\ prev' = <<glob, loc>>
                 /\ UNCHANGED <<G, F, cuts>>
DoFill == Op("fill", glob, Fill(gho, F, 0))
DoFillG == Op("fillg", FillG(G, F, 3), loc)
(* a process writes one entry of its copy; enough entries to meet every kind:
   owned inside, owned at the border, ghost, periodic image *)
DoSet == \E r \in Ranks : \E i \in {1, (Len(loc[r]) \div 2) + 1, Len(loc[r])} :
            Op("set", glob, [loc EXCEPT ![r][i] = 7])
DoAdd == Op("add", AddAll(G, F, gho, glob, loc), loc)
DoIns == Op("ins", InsertAll(G, F, own, gho, glob, loc), loc)
DoG2l == Op("g2l", glob, Refresh(G, F, gho, glob))
Next == DoFill \/ DoFillG \/ DoSet \/ DoAdd \/ DoIns \/ DoG2l
Spec == Init /\ [][Next]_vars

Coherent == \A r \in Ranks : LET bs == BoxSeq(gho[r]) IN
               \A i \in DOMAIN loc[r] : loc[r][i] = glob[GIdx(G, F, bs, i)]
Total(l2) == LET t[r \in 0..Len(l2)] == IF r = 0 THEN 0 ELSE t[r-1] + SumSeq(l2[r]) IN t[Len(l2)]
AfterRefresh == last = "g2l" => Coherent
(* nothing lost, nothing twice: the total of the field grows by the total of
   the copies; inserting takes values from the owners only *)
Conserved == last = "add" => SumSeq(glob) = SumSeq(prev[1]) + Total(prev[2])
Inserted == last = "ins" =>
   \A k \in DOMAIN glob : \E r \in Ranks :
      LET c == Coord(G, ((k-1) \div F) + 1) IN
      InBox(own[r], c) /\ glob[k] = prev[2][r][(BIdx(gho[r], c, 2) - 1) * F + Entry(k, F)]
(* inserting and refreshing makes every copy the owner's *)
OwnersAgree == last = "ins" =>
   \A r \in Ranks : \A i \in DOMAIN loc[r] :
      LET p == LPos(gho[r], F, i) IN InBox(own[r], p) => loc[r][i] = glob[(Flat(G, p) - 1) * F + Entry(i, F)]
LocalPrivate == last \in {"add", "ins", "fillg"} => loc = prev[2]
GlobalKept == last \in {"fill", "set", "g2l"} => glob = prev[1]
=============================================================================
