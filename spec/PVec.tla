-------------------------------- MODULE PVec --------------------------------
(***************************************************************************)
(* Distributed fields.  A field lives on a grid G (components F); process r *)
(* owns the nodes of own[r] and has a private copy of the nodes of the      *)
(* larger box gho[r] (positions are not wrapped: a periodic image is a      *)
(* position of its own).  glob is the field, loc[r] the private copies.     *)
(* The operators below are the effect of each call on (glob, loc).          *)
(***************************************************************************)
EXTENDS Mesh

BIdx(b, p, D) == LET t[d \in 0..D] == IF d = 0 THEN 0
                                      ELSE t[d-1] + (p[d] - b.lo[d]) * ProdTo([e \in 1..D |-> b.hi[e] - b.lo[e]], d-1)
                 IN 1 + t[D]
WrapPt(G, p) == [d \in 1..G.D |-> Wrap(G, d, p[d])]
LSize(b, F) == Size(b) * F
LPos(b, F, i) == BoxSeq(b)[((i-1) \div F) + 1]
Entry(i, F) == ((i-1) % F) + 1
(* global index of the i-th entry of the local copy on box b *)
GIdx(G, F, bs, i) == (Flat(G, WrapPt(G, bs[((i-1) \div F) + 1])) - 1) * F + Entry(i, F)

Fill(gho, F, v) == [r \in DOMAIN gho |-> [i \in 1..LSize(gho[r], F) |-> v]]
FillG(G, F, v) == [k \in 1..NNodes(G)*F |-> v]
Refresh(G, F, gho, glob) ==
  [r \in DOMAIN gho |-> LET bs == BoxSeq(gho[r])
                        IN [i \in 1..LSize(gho[r], F) |-> glob[GIdx(G, F, bs, i)]]]
(* each local entry is added to the node it is a copy of *)
AddAll(G, F, gho, glob, loc) ==
  LET of(r) == LET bs == BoxSeq(gho[r]) IN [i \in DOMAIN loc[r] |-> GIdx(G, F, bs, i)]
      idx == [r \in DOMAIN gho |-> of(r)]
      one(r, k) == LET s[i \in 0..Len(loc[r])] == IF i = 0 THEN 0
                         ELSE s[i-1] + (IF idx[r][i] = k THEN loc[r][i] ELSE 0)
                   IN s[Len(loc[r])]
      all(k) == LET t[r \in 0..Len(gho)] == IF r = 0 THEN 0 ELSE t[r-1] + one(r, k) IN t[Len(gho)]
  IN [k \in DOMAIN glob |-> glob[k] + all(k)]
(* the owner's value *)
InsertAll(G, F, own, gho, glob, loc) ==
  [k \in DOMAIN glob |->
     LET c == Coord(G, ((k-1) \div F) + 1)
         r == CHOOSE q \in DOMAIN own : InBox(own[q], c)
     IN loc[r][(BIdx(gho[r], c, G.D) - 1) * F + Entry(k, F)]]
=============================================================================
