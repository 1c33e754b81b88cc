------------------------------- MODULE TraceFE -------------------------------
(* Every recorded operator application, diagonal, boundary write and
   right-hand side of the real code must be the one of module FE. *)
EXTENDS FE, TraceBase

VARIABLE l
E == Trace[l]
T2(s) == [i \in 1..Len(s) |-> s[i]]
VG == VGrid(E.D, E.n, E.per, E.h)
PG == PGrid(E.D, E.n, E.per, [d \in 1..E.D |-> E.h[d]])
FG == IF E.fld = 0 THEN VG ELSE PG
FC == IF E.fld = 0 THEN E.D ELSE 1
Scaled(f, s) == [k \in DOMAIN s |-> f * s[k]]

(* one diagonal block: y = A x, x untouched *)
Blk ==
  /\ E.ev = "blk"
  /\ Same("operand overwritten", l, E.xo, E.x)
  /\ LET w == BlockOp(E.op, FG, FC, E.bc, E.x)
     IN IF E.op = "mass"
        THEN IF E.bc = <<>> THEN Same("mass matrix", l, Scaled(Prod(E.h), E.y), w)
             ELSE Same("mass matrix", l, Scaled(Prod(E.h), E.y), w)
        ELSE Same("velocity operator", l, E.y, w)
Diag ==
  /\ E.ev = "diag"
  /\ Same("diagonal", l, E.y, DiagOp(E.op, FG, FC))

Stokes ==
  /\ E.ev \in {"stokes", "stokesA"}
  /\ Same("operand overwritten", l, E.xo, E.x)
  /\ Same("operand overwritten (pressure)", l, E.po, E.p)
  /\ Same("Stokes operator, momentum rows", l, E.y, StokesV(E.op, VG, PG, E.bc, E.x, E.p))
  /\ Same("Stokes operator, continuity rows", l, E.q, StokesP(VG, PG, E.x))

MassC ==
  /\ E.ev = "massc"
  /\ Same("mass (velocity)", l, Scaled(Prod(E.h), E.y), BlockOp("mass", VG, E.D, <<>>, E.x))
  /\ Same("mass (pressure)", l, Scaled(Prod(E.h), E.q), BlockOp("mass", PG, 1, <<>>, E.p))

(* preconditioner of the problem: operator on velocities, mass on pressures *)
Prec ==
  /\ E.ev \in {"prec", "precA"}
  /\ Same("preconditioner, velocity block", l, E.y, BlockOp(E.op, VG, E.D, E.bc, E.x))
  /\ Same("preconditioner, pressure block", l, Scaled(Prod(E.h), E.q), BlockOp("mass", PG, 1, <<>>, E.p))

(* boundary writers *)
Bcv ==
  /\ E.ev = "bcv"
  /\ Same("pressure changed by a velocity boundary write", l, E.q, E.q0)
  /\ Same("boundary values", l, E.y,
          [k \in 1..Len(E.y0) |->
             LET c == Node(VG, k)
                 f == Comp(VG, k)
             IN IF ~IsDir(VG, E.bc, c, f) THEN E.y0[k]
                ELSE CASE E.op = "vec" -> E.x[k]
                       [] E.op = "rhs" -> SideVal(VG, DirSide(VG, E.bc, c, f), f, c)
                       [] E.op = "null" -> 0])

RhsEv ==
  /\ E.ev = "rhs"
  /\ Same("pressure changed by the body force", l, E.q, E.q0)
  /\ Same("body force", l, E.y, Rhs(VG, E.f))

(* right-hand side of the problem: body force inside, imposed values on the
   Dirichlet rows (logged times 6^D / prod h) *)
PRhs ==
  /\ E.ev = "prhs"
  /\ Same("pressure right-hand side", l, E.q, [k \in 1..NNodes(PG) |-> 0])
  /\ LET R == Rhs(VG, E.f)
     IN Same("right-hand side", l, Scaled(Prod(E.h), E.y),
          [k \in 1..NNodes(VG)*E.D |->
             LET c == Node(VG, k)
                 f == Comp(VG, k)
             IN IF IsDir(VG, E.bc, c, f)
                THEN Pow(6, E.D) * SideVal(VG, DirSide(VG, E.bc, c, f), f, c)
                ELSE Prod(E.h) * R[k]])

GridEv ==
  /\ E.ev = "grid"
  /\ Same("mesh step", l, E.hh, E.h)
  /\ Same("velocity grid", l, E.nv, VG.n)
  /\ Same("pressure grid", l, E.npr, PG.n)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (Blk \/ Diag \/ Stokes \/ MassC \/ Prec \/ Bcv \/ RhsEv \/ PRhs \/ GridEv \/ EndOf(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
