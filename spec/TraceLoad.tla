------------------------------ MODULE TraceLoad ------------------------------
(* Conformance of recorded loads with Loader.tla (C05): event [op, text, seps, max, col, ok, rows, n, len, exists]. *)
EXTENDS Loader, Json, IOUtils

CONSTANT Focus

Tab == JsonDeserialize(IOEnv.TRACE_FILE)
Texts == Tab.texts

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
Ev(k, i) == Tab.traces[k].ev[i]

P_C05(e) ==
  IF ~e.exists THEN ~e.ok
  ELSE LET r == LoadText(Texts[e.text], {e.seps[k] : k \in 1..Len(e.seps)}, e.max, e.col)
       IN  r.sure => /\ e.ok = r.ok
                     /\ r.ok => /\ e.rows = r.rows
                                /\ e.n = Len(r.rows)
                                /\ e.len = Len(r.rows[1])
                                /\ e.same

Judge(e) == IF e.op = "crash" THEN "crash" ELSE IF P_C05(e) THEN "ok" ELSE "step"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ verdict' = Judge(Ev(tid, l))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
