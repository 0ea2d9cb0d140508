------------------------------ MODULE TraceHeap ------------------------------
(* Conformance of recorded programs over series objects with Heap.tla (C17 envelopes, C23 value semantics). *)
EXTENDS Heap, Json, IOUtils

CONSTANT Focus

Tab == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>

Ev(k, i) == Tab.traces[k].ev[i]

Judge(e) ==
  IF e.op = "crash" THEN (IF Focus = "C23" \/ e.of = "env" THEN "crash" ELSE "ok")
  ELSE IF (IF Focus = "C23" THEN P_C23(st, e) ELSE P_C17(st, e)) THEN "ok" ELSE "step"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ st = EmptyHeap /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ LET e == Ev(tid, l)
           IN  /\ verdict' = Judge(e)
               /\ st' = IF e.op \in {"crash", "cmp"} THEN st ELSE Step(st, e).st
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
View == <<tid, l, verdict>>
=============================================================================
