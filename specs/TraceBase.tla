----------------------------- MODULE TraceBase -----------------------------
(* Shared by every trace specification.  A trace file holds one case per    *)
(* line, [id |-> number, ev |-> sequence of events]; the cases are explored  *)
(* in parallel, each from its own initial state.                             *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Cases)

VARIABLES c, l        \* the case, and the number of the next event in it

Ev == Cases[c].ev
Done == l > Len(Ev)
E == Ev[l]
Is(op) == ~Done /\ l > 0 /\ E.op = op
(* the property under check: observations that belong to another one may be passed over *)
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
(* the first pass names the cases that were followed to their end, the second looks only at the others *)
Second == IOEnv.PASS = "2"
Advance == l' = l + 1 /\ UNCHANGED c /\ ((l = Len(Ev) /\ ~Second) => PrintT(<<"DONE", c>>)) = TRUE
Rejected == l = 0
Has(r, f) == f \in DOMAIN r

TraceInit == c \in 1..NCases /\ l = 1

(* the specification does not allow the recorded event: report it and stop this case *)
Reject == /\ ~Done /\ ~Rejected
          /\ PrintT(<<"REJECT", c, l>>)
          /\ l' = 0 /\ UNCHANGED c
=============================================================================
