----------------------------- MODULE TraceStruct -----------------------------
(* Structural identities of the recorded operators: only products of recorded
   fields, no operator of module FE. *)
EXTENDS FE, TraceBase

VARIABLE l
E == Trace[l]
VG == VGrid(E.D, E.n, E.per, E.h)
PG == PGrid(E.D, E.n, E.per, E.h)
G == IF E.fld = 0 THEN VG ELSE PG
F == IF E.fld = 0 THEN E.D ELSE 1
Dot(a, b) == LET s[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE s[i-1] + a[i] * b[i] IN s[Len(a)]
Cells(g) == Prod([d \in 1..g.D |-> IF g.per[d] = 1 THEN g.n[d] ELSE g.n[d] - 1])
Inner(g, c) == \A s \in 1..2*g.D : ~OnSide(g, s, c)
Nd(k) == Coord(G, ((k-1) \div F) + 1)
Cp(k) == ((k-1) % F) + 1
A(f, d) == E.a[(f-1) * E.D + d]
Ok(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
SizeOk == Len(E.u) = NNodes(G) * F /\ Len(E.au) = Len(E.u)

Sym ==
  /\ E.kind = "sym"
  /\ Ok("operand vanishes on imposed rows", \A k \in DOMAIN E.u :
          IsDir(G, E.bc, Nd(k), Cp(k)) => E.u[k] = 0 /\ E.v[k] = 0)
  /\ Is("symmetry", l, Dot(E.v, E.au), Dot(E.u, E.av))
  /\ Ok("energy", Dot(E.u, E.au) >= 0 /\ Dot(E.v, E.av) >= 0)
  (* a field that is not zero has mass *)
  /\ E.op = "mass" => Ok("mass of a field", Dot(E.u, E.au) = 0 => \A k \in DOMAIN E.u : E.u[k] = 0)

Const ==
  /\ E.kind = "const"
  /\ IF E.op = "mass"
     THEN \A f \in 1..F :
            Is("total mass is the volume", l,
               Dot([k \in DOMAIN E.au |-> B2I(Cp(k) = f)], E.au), E.a[f] * Cells(G) * Pow(6, E.D))
     ELSE Same("translation without energy", l, E.au, [k \in DOMAIN E.u |-> 0])

(* energy density of the linear field u_f = sum_d a_fd x_d *)
Lin ==
  /\ E.kind = "lin"
  /\ LET dens == SumSeq([i \in 1..E.D*E.D |->
                    LET f == ((i-1) \div E.D) + 1
                        d == ((i-1) % E.D) + 1
                    IN IF E.op = "lap" THEN A(f, d) * A(f, d) ELSE A(f, d) * (A(f, d) + A(d, f))])
     IN /\ Is("energy of a linear field", l, Dot(E.u, E.au), ScaleV(G) * Cells(G) * Prod(G.h) * dens)
        /\ Ok("linear fields are balanced inside", \A k \in DOMAIN E.u : Inner(G, Nd(k)) => E.au[k] = 0)
        /\ (E.op = "strain" /\ \A f, d \in 1..E.D : A(f, d) = -A(d, f)) =>
              Same("rotation without energy", l, E.au, [k \in DOMAIN E.u |-> 0])

(* <G p, v> = -<p, B v>; G p is logged with an extra prod h *)
Couple ==
  /\ E.kind = "couple"
  /\ LET q == [k \in DOMAIN E.p |-> E.p[k] \div Pow(2, E.D)]
     IN Is("coupling blocks are opposite transposes", l, Dot(E.gp, E.v), -(Prod(E.h) * Dot(q, E.dv)))
  /\ Same("no pressure in the continuity rows", l, E.pp, [k \in DOMAIN E.pp |-> 0])
GradC ==
  /\ E.kind = "gradc"
  /\ Ok("constant pressure does no work inside",
        \A k \in DOMAIN E.gp : Inner(VG, Coord(VG, ((k-1) \div E.D) + 1)) => E.gp[k] = 0)

Pair == E.ev = "pair" /\ (IF E.kind \in {"couple", "gradc"} THEN Couple \/ GradC ELSE SizeOk /\ (Sym \/ Const \/ Lin))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (Pair \/ EndOf(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
