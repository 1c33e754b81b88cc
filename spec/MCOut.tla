------------------------------- MODULE MCOut -------------------------------
(* Laws of refinement on all small grids and factors; all histories (to a
   depth) of saves, and of options given, withdrawn and processed. *)
EXTENDS Out
CONSTANTS NMAX, SMAX, DEPTH

VARIABLES part, x, hist
vars == <<part, x, hist>>

Init == part = "start" /\ x = 0 /\ hist = <<>>

Grids == {[D |-> 2, n |-> <<a, b>>, per |-> <<p, q>>, h |-> <<1, 1>>] : a, b \in 2..NMAX, p, q \in 0..1}
PickInterp == /\ part = "start"
              /\ \E G \in Grids, a \in 1..SMAX, b \in 1..SMAX :
                   /\ part' = "interp" /\ x' = [G |-> G, s |-> <<a, b>>]
              /\ UNCHANGED hist
(* pieces: the grid shared between (up to) 2 x 2 processes, each writing its
   own nodes and one more on either side, beyond the ends if periodic *)
Cuts(n) == {<<0, n>>} \cup {<<0, a, n>> : a \in 1..(n - 1)}
PickPieces == /\ part = "start"
              /\ \E G \in Grids, g \in 0..1 : \E c1 \in Cuts(G.n[1]), c2 \in Cuts(G.n[2]) :
                   /\ part' = "pieces" /\ x' = [G |-> G, c |-> <<c1, c2>>, g |-> g]
              /\ UNCHANGED hist
(* files: values are just numbers *)
Names == {"a", "b", "d/a"}
DoSave == /\ part \in {"start", "files"} /\ Len(hist) < DEPTH
          /\ \E m \in Names, v \in 1..3 :
               /\ x' = Save(IF part = "start" THEN None ELSE x, m, v)
               /\ hist' = Append(hist, <<m, v>>)
          /\ part' = "files"
(* options *)
GiveKeys == {"mx", "my", "Lx", "yperiod", "PMM", "mz"}
Start == [cmd |-> None, o2 |-> Default(2), o3 |-> Default(3)]
Was == IF part = "start" THEN Start ELSE x
OptStep(y, w) == x' = y /\ hist' = Append(hist, w) /\ part' = "opts"
DoOpt == /\ part \in {"start", "opts"} /\ Len(hist) < DEPTH
         /\ \/ \E k \in GiveKeys, v \in {0, 1, 20} : OptStep([Was EXCEPT !.cmd = Give(@, k, v)], <<"set", k, v>>)
            \/ \E k \in GiveKeys : OptStep([Was EXCEPT !.cmd = Drop(@, k)], <<"clear", k, 0>>)
            \/ OptStep([Was EXCEPT !.o2 = Process(2, @, Was.cmd)], <<"proc2", "", 0>>)
            \/ OptStep([Was EXCEPT !.o3 = Process(3, @, Was.cmd)], <<"proc3", "", 0>>)
            \/ OptStep([Was EXCEPT !.o2 = Default(2)], <<"new2", "", 0>>)
Next == PickInterp \/ PickPieces \/ DoSave \/ DoOpt
Spec == Init /\ [][Next]_vars

(* refinement: constants, linear functions and shared nodes are reproduced;
   each coarse value is spread with total weight s_x s_y per cell corner *)
Delta(G, k) == [i \in 1..NNodes(G) |-> IF i = k THEN 1 ELSE 0]
InterpLaws == part = "interp" =>
  LET G == x.G
      s == x.s
      R == [G EXCEPT !.n = FineSize(G, s)]
      S == s[1] * s[2]
      y == [i \in 1..NNodes(G) |-> (i * i * 7) % 23]
      I == Interp(G, s, y, 1)
  IN /\ \A k \in 1..NNodes(G) :
          LET c == Coord(G, k) IN I[Flat(R, [d \in 1..2 |-> c[d] * s[d]])] = S * y[k]
     /\ Interp(G, s, [k \in 1..NNodes(G) |-> 5], 1) = [k \in 1..NNodes(R) |-> 5 * S]
     /\ G.per = <<0, 0>> =>
          \A k \in 1..NNodes(R) :
             LET c == Coord(R, k)
             IN Interp(G, s, [i \in 1..NNodes(G) |-> 2 * Coord(G, i)[1] - 3 * Coord(G, i)[2]], 1)[k]
                = 2 * c[1] * s[2] - 3 * c[2] * s[1]
     /\ \A k \in 1..NNodes(R) : 0 <= I[k] /\ I[k] <= 22 * S
     (* the values at nodes of a coarse line only depend on that line *)
     /\ \A k \in 1..NNodes(G) : \A j \in 1..NNodes(R) :
          Interp(G, s, Delta(G, k), 1)[j] > 0 =>
             \A d \in 1..2 : LET a == Coord(R, j)[d] - s[d] * Coord(G, k)[d]
                                 near(t) == -s[d] < t /\ t < s[d]
                             IN near(a) \/ (G.per[d] = 1 /\ (near(a - R.n[d]) \/ near(a + R.n[d])))
(* a reader of the pieces finds, at the place of every node, its value, once
   per piece; all nodes are found; one share less and some are not *)
Low(G, d, a, g) == IF G.per[d] = 1 \/ a - g >= 0 THEN a - g ELSE 0
High(G, d, a, g) == IF G.per[d] = 1 \/ a + g < G.n[d] THEN a + g ELSE G.n[d] - 1
Boxes(G, c, g) ==
  LET m == Len(c[1]) - 1
  IN [r \in 1..m * (Len(c[2]) - 1) |->
        LET i == ((r - 1) % m) + 1
            j == ((r - 1) \div m) + 1
        IN <<Low(G, 1, c[1][i], g), High(G, 1, c[1][i+1] - 1, g), Low(G, 2, c[2][j], g), High(G, 2, c[2][j+1] - 1, g), 0, 0>>]
PieceLaws == part = "pieces" =>
  LET G == x.G
      b == Boxes(G, x.c, x.g)
      X == [i \in 1..2*NNodes(G) |-> i]
  IN /\ CoverAll(G, b)
     /\ x.g = 0 => \A r \in DOMAIN b : ~CoverAll(G, [q \in 1..(Len(b) - 1) |-> b[IF q < r THEN q ELSE q + 1]])
     /\ x.g = 0 => NNodes(G) = LET t[r \in 0..Len(b)] == IF r = 0 THEN 0 ELSE t[r-1] + Len(PieceNodes(b[r])) IN t[Len(b)]
     /\ \A r \in DOMAIN b :
          LET q == PieceNodes(b[r])
              at == Places(G, <<2, 3>>, q)
              v == Shown(G, 2, 3, X, q)
          IN /\ Cardinality({q[i] : i \in DOMAIN q}) = Len(q)
             /\ \A i \in DOMAIN q :
                  /\ at[3*i - 2] = 2 * q[i][1] /\ at[3*i - 1] = 3 * q[i][2] /\ at[3*i] = 0
                  /\ v[3*i - 1] = v[3*i - 2] + 1 /\ v[3*i] = 0
                  /\ (\A d \in 1..2 : q[i][d] \in 0..(G.n[d] - 1)) => v[3*i - 2] = 2 * (q[i][1] + G.n[1] * q[i][2]) + 1
(* the file of a name is what was saved under it last *)
Last(m) == LET ix == {i \in 1..Len(hist) : hist[i][1] = m}
           IN hist[CHOOSE i \in ix : \A j \in ix : j <= i][2]
FileLaws == part = "files" =>
  /\ DOMAIN x = {hist[i][1] : i \in 1..Len(hist)}
  /\ \A m \in DOMAIN x : x[m] = Last(m)
(* an option withdrawn before any processing has no effect; an untouched one
   has its default *)
OptLaws == part = "opts" =>
  /\ \A k \in Keys(2) : x.o2[k] # Default(2)[k] => \E i \in 1..Len(hist) : hist[i][1] = "set" /\ hist[i][2] = k /\ hist[i][3] = x.o2[k]
  /\ \A k \in Keys(3) : x.o3[k] # Default(3)[k] => \E i \in 1..Len(hist) : hist[i][1] = "set" /\ hist[i][2] = k
  /\ hist[Len(hist)][1] = "proc2" => \A k \in DOMAIN x.cmd : k \in Keys(2) => x.o2[k] = x.cmd[k]
  /\ hist[Len(hist)][1] = "proc3" => \A k \in DOMAIN x.cmd : k \in Keys(3) => x.o3[k] = x.cmd[k]
  /\ (\A i \in 1..Len(hist) : hist[i][1] # "proc3") => x.o3 = Default(3)
=============================================================================
