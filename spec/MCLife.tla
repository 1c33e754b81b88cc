------------------------------- MODULE MCLife -------------------------------
(* Design of the life cycle of a particle problem (DtoN and SEM).  The user
   sets up its right-hand side, solves, changes motions, moves the particles in
   any order; the problem goes through its steps one at a time.  A right-hand
   side is the bag of the contributions added since it was last zeroed, a
   vector of the control space the pair (control it is linear in, imposed
   data it contains).  The flags live on between operations, as does the
   control: nothing of an earlier operation may leak into a later one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KINDS, LEN, ITS
VARIABLES kind, len, pc, op, full, rigid, motion, ctl, x, rhs, u, y, b, bm, its, out
vars == <<kind, len, pc, op, full, rigid, motion, ctl, x, rhs, u, y, b, bm, its, out>>

None == [n \in {} |-> 0]
(* a contribution: what it is, of which motion, 1 when it went through a layer *)
N(w) == <<w, 0, 0>>
Nm(w, m) == <<w, m, 0>>
Bag(S) == [n \in S |-> 1]
Plus(A, B) == [n \in DOMAIN A \cup DOMAIN B |->
                 (IF n \in DOMAIN A THEN A[n] ELSE 0) + (IF n \in DOMAIN B THEN B[n] ELSE 0)]
Zero == [c |-> "0", d |-> {}]      \* the zero control
Init == /\ kind \in KINDS /\ len = 0 /\ pc = "idle" /\ op = "none"
        /\ full = FALSE /\ rigid = FALSE /\ motion = 0
        /\ ctl = Zero /\ x = Zero /\ rhs = None /\ u = None /\ y = Zero
        /\ b = Zero /\ bm = -1 /\ its = 0 /\ out = None
Start(o) == pc = "idle" /\ len < LEN /\ len' = len + 1 /\ op' = o
Setup == /\ Start("setup") /\ full' = TRUE /\ rigid' = (kind = "dton")
         /\ x' = Zero /\ pc' = "zero"
         /\ UNCHANGED <<kind, motion, ctl, rhs, u, y, b, bm, its, out>>
Solve == /\ bm >= 0 /\ Start("solve") /\ full' = FALSE /\ rigid' = FALSE
         /\ \E n \in 0..ITS : its' = n
         /\ pc' = "outer"
         /\ UNCHANGED <<kind, motion, ctl, x, rhs, u, y, b, bm, out>>
Change == /\ Start("change") /\ motion' = motion + 1
          /\ UNCHANGED <<kind, pc, full, rigid, ctl, x, rhs, u, y, b, bm, its, out>>
Move == /\ Start("move") /\ ctl' = Zero /\ b' = Zero /\ bm' = -1
        /\ full' = FALSE /\ rigid' = FALSE /\ motion' = motion + 1
        /\ UNCHANGED <<kind, pc, x, rhs, u, y, its, out>>
(* the outer iteration applies the operator to vectors it makes up *)
Outer == /\ pc = "outer"
         /\ IF its > 0
            THEN /\ its' = its - 1 /\ x' = [c |-> "inner" , d |-> {}] /\ pc' = "zero"
                 /\ UNCHANGED <<ctl, full>>
            ELSE /\ its' = its /\ x' = [c |-> "answer", d |-> {}]
                 /\ ctl' = [c |-> "answer", d |-> {}] /\ full' = TRUE /\ pc' = "zerolast"
         /\ UNCHANGED <<kind, len, op, rigid, motion, rhs, u, y, b, bm, out>>
(* steps of one application of the operator *)
ZeroRhs == /\ pc \in {"zero", "zerolast"} /\ rhs' = None
           /\ pc' = (IF pc = "zero" THEN "init" ELSE "initlast")
           /\ rigid' = (IF pc = "zero" THEN rigid ELSE kind = "dton")
           /\ UNCHANGED <<kind, len, op, full, motion, ctl, x, u, y, b, bm, its, out>>
Forces == kind = "sem" /\ full
Load == Plus(Bag(IF x.c = "0" THEN {} ELSE {N(x.c)}),
             Plus(IF full THEN Bag({N("fluid"), N("conditions")}) ELSE None,
                  IF Forces THEN Bag({Nm("force", motion)}) ELSE None))
InitProblem == /\ pc \in {"init", "initlast"} /\ rhs' = Plus(rhs, Load)
               /\ pc' = (IF pc = "init" THEN "fluid1" ELSE "fluidlast")
               /\ UNCHANGED <<kind, len, op, full, rigid, motion, ctl, x, u, y, b, bm, its, out>>
Fluid == /\ pc \in {"fluid1", "fluid2", "fluidlast"} /\ u' = rhs
         /\ IF pc = "fluidlast" THEN pc' = "idle" /\ out' = rhs
            ELSE pc' = (IF pc = "fluid1" THEN "surface" ELSE "result") /\ UNCHANGED out
         /\ UNCHANGED <<kind, len, op, full, rigid, motion, ctl, x, rhs, y, b, bm, its>>
(* values on the surfaces become the next right-hand side *)
Surface == /\ pc = "surface"
           /\ rhs' = [n \in {<<m[1], m[2], 1>> : m \in DOMAIN u} |-> u[<<n[1], n[2], 0>>]]
           /\ y' = [c |-> x.c, d |-> IF rigid THEN {Nm("rigid", motion)} ELSE {}]
           /\ pc' = "fluid2"
           /\ UNCHANGED <<kind, len, op, full, rigid, motion, ctl, x, u, b, bm, its, out>>
Result == /\ pc = "result"
          /\ LET r == [c |-> y.c, d |-> y.d \cup ({<<n[1], n[2], 0>> : n \in DOMAIN u} \ {N("inner"), N("answer")})]
             IN IF op = "setup" THEN b' = r /\ bm' = motion /\ pc' = "idle" /\ UNCHANGED y
                ELSE y' = r /\ pc' = "outer" /\ UNCHANGED <<b, bm>>
          /\ UNCHANGED <<kind, len, op, full, rigid, motion, ctl, x, rhs, u, its, out>>
Next == Setup \/ Solve \/ Change \/ Move \/ Outer \/ ZeroRhs \/ InitProblem \/ Fluid \/ Surface \/ Result
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Once(B) == \A n \in DOMAIN B : B[n] = 1
NoTwice == Once(rhs) /\ Once(u)
Imposed(m) == {N("fluid"), N("conditions")} \cup
              (IF kind = "sem" THEN {Nm("force", m)} ELSE {Nm("rigid", m)})
(* the right-hand side of the outer problem: zero control, all imposed data *)
RightHandSide == bm >= 0 => b = [c |-> "0", d |-> Imposed(bm)]
(* while it iterates the operator is linear: nothing imposed *)
Linear == op = "solve" /\ pc = "result" => y = [c |-> "inner", d |-> {}] /\ DOMAIN u = {<<"inner", 0, 1>>}
(* the last problem: the answer, the imposed data of the fluid once *)
Last == op = "solve" /\ pc = "idle" =>
          out = Bag({N("answer"), N("fluid"), N("conditions")} \cup (IF kind = "sem" THEN {Nm("force", motion)} ELSE {}))
(* an operation ends *)
Ends == pc # "idle" => ENABLED Next
=============================================================================
