-------------------------------- MODULE Out --------------------------------
(***************************************************************************)
(* What leaves and what enters a computation: refinement of a solution,    *)
(* saved files, run-time options.                                          *)
(***************************************************************************)
EXTENDS Mesh, TLC

(* --- refinement by integer factors s --------------------------------- *)
FineSize(G, s) == [d \in 1..G.D |-> IF G.per[d] = 1 THEN G.n[d] * s[d] ELSE (G.n[d] - 1) * s[d] + 1]
(* weight, times the product of the factors, of corner o of the cell *)
CornerW(G, s, c, o) == Prod([d \in 1..G.D |-> IF o[d] = 0 THEN s[d] - (c[d] % s[d]) ELSE c[d] % s[d]])
InterpAt(G, s, c, X, f, F) ==
  LET o == Corner8(G.D)
      term(i) == LET w == CornerW(G, s, c, o[i])
                 IN IF w = 0 THEN 0
                    ELSE w * X[(Flat(G, [d \in 1..G.D |-> Wrap(G, d, (c[d] \div s[d]) + o[i][d])]) - 1) * F + f]
      sum[i \in 0..Len(o)] == IF i = 0 THEN 0 ELSE sum[i-1] + term(i)
  IN sum[Len(o)]
Interp(G, s, X, F) ==
  LET R == [G EXCEPT !.n = FineSize(G, s)]
  IN [k \in 1..NNodes(R)*F |-> InterpAt(G, s, Coord(R, ((k-1) \div F) + 1), X, ((k-1) % F) + 1, F)]

(* --- saved files ------------------------------------------------------- *)
(* disk: name -> what was saved under it last                              *)
Save(disk, name, what) == [q \in DOMAIN disk \cup {name} |-> IF q = name THEN what ELSE disk[q]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* a field saved on grid G with steps st (F values per node), as a reader
   sees it: slowest direction first *)
Described(G, F, st, val) ==
  [nodes |-> Rev(G.n), step |-> Rev(st), origin |-> [d \in 1..G.D |-> 0],
   dims |-> IF F = 1 THEN Rev(G.n) ELSE Rev(G.n) \o <<F>>, val |-> val]

(* --- the same in pieces ------------------------------------------------ *)
(* a piece is a box of nodes (both ends included), possibly beyond the ends
   of a periodic direction; what a reader sees of it, direction 1 fastest,
   always in three dimensions *)
At3(c) == [d \in 1..3 |-> IF d <= Len(c) THEN c[d] ELSE 0]
PieceNodes(ext) ==
  LET m == [d \in 1..3 |-> ext[2*d] - ext[2*d-1] + 1]
  IN [k \in 1..m[1]*m[2]*m[3] |-> <<ext[1] + ((k-1) % m[1]), ext[3] + (((k-1) \div m[1]) % m[2]), ext[5] + ((k-1) \div (m[1]*m[2]))>>]
NodeOf(G, c) == Flat(G, [d \in 1..G.D |-> Wrap(G, d, c[d])])
Whole(G) == [i \in 1..6 |-> IF i % 2 = 1 \/ i > 2 * G.D THEN 0 ELSE G.n[i \div 2] - 1]
(* F values per node, shown as S of them *)
Shown(G, F, S, X, nodes) ==
  [i \in 1..S*Len(nodes) |-> LET f == ((i-1) % S) + 1 IN IF f > F THEN 0 ELSE X[(NodeOf(G, nodes[((i-1) \div S) + 1]) - 1)*F + f]]
Places(G, st, nodes) == [i \in 1..3*Len(nodes) |-> LET d == ((i-1) % 3) + 1 IN IF d > G.D THEN 0 ELSE st[d] * nodes[((i-1) \div 3) + 1][d]]
(* the pieces cover the grid *)
CoverAll(G, exts) ==
  \A k \in 1..NNodes(G) : LET c == At3(Coord(G, k))
     IN \E i \in DOMAIN exts : \A d \in 1..3 : exts[i][2*d-1] <= c[d] /\ c[d] <= exts[i][2*d]

(* --- options ----------------------------------------------------------- *)
Dirs == <<"x", "y", "z">>
IntKeys == <<"mx", "my", "mz">>
LenKeys == <<"Lx", "Ly", "Lz">>
PerKeys == <<"xperiod", "yperiod", "zperiod">>
Flags == {"strain_tensor", "assembling", "PMM"}
Keys(D) == {IntKeys[d] : d \in 1..D} \cup {LenKeys[d] : d \in 1..D} \cup {PerKeys[d] : d \in 1..D} \cup Flags
Default(D) == [k \in Keys(D) |-> IF \E d \in 1..D : k = IntKeys[d] THEN 17
                                 ELSE IF \E d \in 1..D : k = LenKeys[d] THEN 1000 ELSE 0]
(* cmd: the options given, key -> value (lengths in thousandths) *)
Process(D, obj, cmd) == [k \in Keys(D) |-> IF k \in DOMAIN cmd THEN cmd[k] ELSE obj[k]]
Give(cmd, k, v) == [q \in DOMAIN cmd \cup {k} |-> IF q = k THEN v ELSE cmd[q]]
Drop(cmd, k) == [q \in DOMAIN cmd \ {k} |-> cmd[q]]
None == [k \in {} |-> 0]

(* the Stokes problem the options describe *)
Problem(cmd) ==
  LET o == Process(2, Default(2), cmd)
      n == <<o["mx"], o["my"]>>
      p == <<o["xperiod"], o["yperiod"]>>
      asm == o["assembling"]
  IN [nv |-> [d \in 1..2 |-> IF p[d] = 1 THEN 2 * (n[d] - 1) ELSE 2 * n[d] - 1],
      np |-> [d \in 1..2 |-> n[d] - p[d]], per |-> p, len |-> <<o["Lx"], o["Ly"]>>,
      strain |-> o["strain_tensor"], shell |-> 1 - asm,
      pmm |-> IF asm = 0 THEN o["PMM"] ELSE 0]
=============================================================================
