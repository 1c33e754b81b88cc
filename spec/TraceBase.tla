------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded execution and stepping through it. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Compare a logged sequence with the one the specification computes; on a
   difference say where (the verdict itself is the equality). *)
Same(what, l, got, want) ==
  IF got = want THEN TRUE
  ELSE /\ PrintT(<<"MISMATCH", what, "line", l,
                 IF DOMAIN got # DOMAIN want
                 THEN <<"lengths", Len(got), Len(want)>>
                 ELSE LET k == CHOOSE i \in DOMAIN want : got[i] # want[i]
                                   /\ \A j \in DOMAIN want : j < i => got[j] = want[j]
                      IN <<"index", k, "code", got[k], "spec", want[k]>> >>)
       /\ FALSE
Is(what, l, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT(<<"MISMATCH", what, "line", l, "code", got, "spec", want>>) /\ FALSE
(* Every recording ends with an "end" line, and only with it. *)
EndOf(l) == Trace[l].ev = "end" /\ l = Len(Trace)
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Len(Trace) > 0
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
