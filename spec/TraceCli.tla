------------------------------- MODULE TraceCli -------------------------------
(* Conformance of recorded sessions with Cli.tla (C20).  Events:
     [op |-> "line", ran (a prompt was shown for it), words, api, out, timed]
     [op |-> "eof" / "answer", at (the prompt it was typed at: "main", "ask", "end"), w]   at a terminal
     [op |-> "end", rc (exit status), asked (asked whether to exit at the end of the input),
      files (everything written is what the library wrote for the same operations)]
     [op |-> "survive", rc]  a session of arbitrary lines *)
EXTENDS Cli, Json, IOUtils

CONSTANT Focus
Tab == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>
Ev(k, i) == Tab.traces[k].ev[i]

\* The harness did what the specification says the line means
Same(p, a) == /\ p.c = "op" => /\ a.op = p.o.op
                               /\ \A f \in DOMAIN p.o : f \in DOMAIN a /\ a[f] = p.o[f]
              /\ p.c # "op" => a.op = "none"

Judge(s, e) ==
  CASE e.op = "line" -> IF ~e.ran THEN IF s.over THEN "ok" ELSE "ended early"
                        ELSE IF Mode(s) # "main" THEN "still running"
                        ELSE IF ~Same(Parse(e.words), e.api) THEN "harness"
                        ELSE IF LineOK(s, e.words, e.api, e.out, e.timed) THEN "ok" ELSE "line"
    [] e.op = "eof" -> IF e.at = Mode(s) THEN "ok" ELSE "prompt"
    [] e.op = "answer" -> IF e.at # Mode(s) THEN "prompt" ELSE "ok"
    [] e.op = "end" -> IF e.rc # 0 THEN "crash" ELSE IF ~e.files THEN "files"
                       ELSE IF e.asked # ~s.over THEN "end" ELSE "ok"
    [] e.op = "survive" -> IF e.rc # 0 THEN "crash" ELSE "ok"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ st = Fresh /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ LET e == Ev(tid, l)
           IN  /\ verdict' = Judge(st, e)
               /\ st' = IF e.op = "line" /\ e.ran THEN AfterLine(st, e.words)
                      ELSE IF e.op = "eof" THEN AfterEof(st)
                      ELSE IF e.op = "answer" /\ Mode(st) = "ask" THEN AfterAnswer(st, e.w) ELSE st
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
