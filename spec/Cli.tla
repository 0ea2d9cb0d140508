--------------------------------- MODULE Cli ---------------------------------
(* The command line: which operation a line names, and what is printed for it.
   A line is a sequence of words [w |-> the word, c1 |-> its first character, com |-> it begins with //,
   i |-> it is a whole number in range (v |-> its value), f |-> it is a number].
   State of a session: [timer |-> BOOLEAN, over |-> BOOLEAN, asking |-> BOOLEAN (whether to exit)] besides what the operations themselves change. *)
EXTENDS Arith

Commands == {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match"}
Topics == Commands \cup {"help", "quit", "exit"}

Nothing == [c |-> "none"]
Wrong == [c |-> "error"]
Op(o) == [c |-> "op", o |-> o]

AllInts(w, S) == \A k \in S : w[k].i

Parse(w) ==
  IF w = <<>> THEN Nothing
  ELSE IF w[1].com THEN Nothing
  ELSE LET k == w[1].w
           n == Len(w)
       IN  CASE k \in {"quit", "exit"} -> [c |-> "quit"]
             [] k = "help" -> IF n = 1 THEN [c |-> "help", of |-> ""]
                              ELSE IF n = 2 /\ w[2].w \in Topics THEN [c |-> "help", of |-> w[2].w] ELSE Wrong
             [] k = "list" -> IF n # 2 THEN Wrong
                              ELSE IF w[2].w = "dataset" THEN Op([op |-> "list"])
                              ELSE IF w[2].w = "distance" THEN [c |-> "distances"] ELSE Wrong
             [] k = "timer" -> IF n = 1 THEN [c |-> "timer", to |-> ""]
                               ELSE IF n = 2 /\ w[2].w \in {"on", "off"} THEN [c |-> "timer", to |-> w[2].w] ELSE Wrong
             [] k = "load" -> IF n \notin 2..5 \/ ~AllInts(w, 3..Min2(n, 4)) THEN Wrong
                              ELSE Op([op |-> "load", path |-> w[2].w, max |-> IF n > 2 THEN w[3].v ELSE 0,
                                       col |-> IF n > 3 THEN w[4].v ELSE 0, seps |-> IF n > 4 THEN w[5].w ELSE " "])
             [] k = "save" -> IF n \notin 3..4 \/ ~w[2].i THEN Wrong
                              ELSE Op([op |-> "save", id |-> w[2].v, path |-> w[3].w, seps |-> IF n > 3 THEN w[4].c1 ELSE " "])
             [] k = "unload" -> IF n # 2 \/ ~AllInts(w, 2..Min2(n, 2)) THEN Wrong ELSE Op([op |-> "unload", id |-> w[2].v])
             [] k = "normalize" -> IF n # 2 \/ ~AllInts(w, 2..Min2(n, 2)) THEN Wrong ELSE Op([op |-> "norm", id |-> w[2].v])
             [] k = "paa" -> IF n # 3 \/ ~AllInts(w, 2..Min2(n, 3)) THEN Wrong ELSE Op([op |-> "paa", id |-> w[2].v, n |-> w[3].v])
             [] k = "group" -> IF n # 3 \/ ~AllInts(w, 2..Min2(n, 2)) \/ (n = 3 /\ ~w[3].f) THEN Wrong
                               ELSE Op([op |-> "group", id |-> w[2].v, thr |-> w[3].w])
             [] k = "saveGroup" -> IF n \notin 3..4 \/ ~w[2].i \/ (n = 4 /\ ~w[4].i) THEN Wrong
                                   ELSE Op([op |-> "sgroup", id |-> w[2].v, path |-> w[3].w, short |-> IF n = 4 THEN w[4].v # 0 ELSE FALSE])
             [] k = "loadGroup" -> IF n # 3 \/ ~AllInts(w, 2..Min2(n, 2)) THEN Wrong
                                   ELSE Op([op |-> "lgroup", id |-> w[2].v, path |-> w[3].w])
             [] k = "match" -> IF n \notin {4, 6} \/ ~AllInts(w, 2..n) THEN Wrong
                               ELSE Op([op |-> "match", id |-> w[2].v, q |-> w[3].v, i |-> w[4].v,
                                        s |-> IF n = 6 THEN w[5].v ELSE -1, e |-> IF n = 6 THEN w[6].v ELSE -1])
             [] OTHER -> Wrong

\* Two intervals of squares of distances meet
Meet(a, b) == IF a.inf \/ b.inf THEN a.inf = b.inf ELSE BLeq(a.lo, b.hi) /\ BLeq(b.lo, a.hi)

(* What is printed for an operation o that was carried out with result r (as the operation itself reports it):
   out is what was read off the terminal, [k |-> kind, ...]. *)
Prints(o, r, out) ==
  CASE o.op \in {"load", "paa"} -> /\ out.k = "info" /\ out.name = r.info.name /\ out.id = r.info.id
                                   /\ out.n = r.info.n /\ out.len = r.info.len
    [] o.op = "save" -> out.k = "saved" /\ out.id = o.id /\ out.path = o.path
    [] o.op = "unload" -> out.k = "unloaded" /\ out.id = o.id
    [] o.op = "norm" -> out.k = "normalized" /\ out.id = o.id
    [] o.op = "group" -> out.k = "grouped" /\ out.id = o.id /\ out.count = r.count
    [] o.op = "sgroup" -> out.k = "savedgroups" /\ out.id = o.id /\ out.path = o.path
    [] o.op = "lgroup" -> out.k = "loadedgroups" /\ out.id = o.id /\ out.count = r.count
    [] o.op = "match" -> out.k = "match" /\ out.i = r.m.i /\ out.s = r.m.s /\ out.l = r.m.l /\ Meet(out.d, r.m.d)
    [] o.op = "list" -> /\ out.k = "list" /\ out.count = Len(r.list) /\ Len(out.list) = Len(r.list)
                        /\ \A k \in 1..Len(r.list) : /\ out.list[k].id = r.list[k].id /\ out.list[k].name = r.list[k].name
                                                     /\ out.list[k].norm = r.list[k].norm /\ out.list[k].grp = r.list[k].grp

Timed(o) == o.op \in {"group", "match"}

(* One line: words w, the operation the harness performed instead of it on the library (api, with its result) and what the
   command line printed (out, timed). *)
LineOK(s, w, api, out, timed) ==
  LET p == Parse(w)
  IN  CASE p.c = "error" -> out.err /\ ~timed /\ api.op = "none"
        [] p.c = "none" -> out.k = "nothing" /\ ~out.err
        [] p.c = "quit" -> ~out.err
        [] p.c = "help" -> /\ ~out.err
                          /\ IF p.of = "" THEN out.k = "topics" ELSE out.k = "usage" /\ p.of \in ToSet(out.of)
        [] p.c = "distances" -> ~out.err /\ out.k = "distances"
        [] p.c = "timer" -> ~out.err /\ out.k = "timer" /\ out.on = (IF p.to = "" THEN s.timer ELSE p.to = "on")
        [] p.c = "op" -> IF api.ok THEN ~out.err /\ Prints(p.o, api, out) /\ timed = (Timed(p.o) /\ s.timer)
                         ELSE out.err /\ ~timed

AfterLine(s, w) ==
  LET p == Parse(w)
  IN  CASE p.c = "quit" -> [s EXCEPT !.over = TRUE]
        [] p.c = "timer" -> IF p.to = "" THEN s ELSE [s EXCEPT !.timer = (p.to = "on")]
        [] OTHER -> s

(* At a terminal the end of the input (Ctrl-D) is asked about, and the session goes on if the answer is no. *)
Mode(s) == IF s.over THEN "end" ELSE IF s.asking THEN "ask" ELSE "main"
AfterEof(s) == CASE Mode(s) = "main" -> [s EXCEPT !.asking = TRUE]
                 [] Mode(s) = "ask" -> [s EXCEPT !.over = TRUE]
                 [] OTHER -> s
AfterAnswer(s, w) == CASE w \in {"y", ""} -> [s EXCEPT !.over = TRUE]
                       [] w = "n" -> [s EXCEPT !.asking = FALSE]
                       [] OTHER -> s

Fresh == [timer |-> TRUE, over |-> FALSE, asking |-> FALSE]
=============================================================================
