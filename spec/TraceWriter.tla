----------------------------- MODULE TraceWriter -----------------------------
(* Conformance of recorded saves with Writer.tla (C21): [op |-> "save", key, cap, open, cat, ok, tok, len, says, holds, view]
   and [op |-> "step", view] for an operation that may change something. *)
EXTENDS Writer, TLC, Json, IOUtils

CONSTANT Focus
Tab == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>
Ev(k, i) == Tab.traces[k].ev[i]

Judge(e) == IF e.op = "crash" THEN (IF e.of = "save" THEN "crash" ELSE "ok") ELSE IF P_C21(st, e) THEN "ok" ELSE "step"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ st = Fresh /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ LET e == Ev(tid, l)
           IN  /\ verdict' = Judge(e)
               /\ st' = IF e.op = "crash" THEN st ELSE Step(st, e)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
View == <<tid, l, verdict>>
=============================================================================
