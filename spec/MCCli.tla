-------------------------------- MODULE MCCli --------------------------------
(* The command line on all lines of few words (C20): every operation can be typed and is understood as itself, and a line is
   understood as an operation only if it is one, argument by argument. *)
EXTENDS Cli

CONSTANTS MaxWords, Args

W(w, i, v, f) == [w |-> w, c1 |-> "?", com |-> FALSE, i |-> i, v |-> v, f |-> f]
Ints == {W("0", TRUE, 0, TRUE), W("1", TRUE, 1, TRUE), W("-1", TRUE, -1, TRUE)}
Reals == {W("0.5", FALSE, 0, TRUE)}
Others == {W("x", FALSE, 0, FALSE), W("dataset", FALSE, 0, FALSE), W("on", FALSE, 0, FALSE), W("distance", FALSE, 0, FALSE), W("off", FALSE, 0, FALSE),
           [w |-> "//c", c1 |-> "/", com |-> TRUE, i |-> FALSE, v |-> 0, f |-> FALSE]}
MCArgs == Ints \cup Reals \cup Others
MCArgs2 == {W("1", TRUE, 1, TRUE), W("-1", TRUE, -1, TRUE), W("x", FALSE, 0, FALSE)}
Heads == {W(c, FALSE, 0, FALSE) : c \in Topics} \cup Others

VARIABLES line, st
vars == <<line, st>>
Init == line = <<>> /\ st = Fresh
Next == \/ /\ Len(line) < MaxWords
           /\ \E w \in (IF line = <<>> THEN Heads ELSE Args) : line' = Append(line, w)
           /\ UNCHANGED st
        \/ st' = AfterLine(st, line) /\ line' = <<>> /\ Mode(st) = "main"
        \/ st' = AfterEof(st) /\ line' = <<>> /\ ~st.over
        \/ Mode(st) = "ask" /\ line' = <<>> /\ \E w \in {"y", "", "n", "N", "no", "quit"} : st' = AfterAnswer(st, w)
Spec == Init /\ [][Next]_vars

P == Parse(line)
Kinds == {"none", "error", "op", "quit", "help", "distances", "timer"}
Understood == P.c \in Kinds

\* Argument counts and types of the operations: [min, max, integers among the arguments (from 1), numbers]
Shape(op) ==
  CASE op = "list" -> [n |-> {1}, i |-> {}, f |-> {}]
    [] op = "load" -> [n |-> 1..4, i |-> {2, 3}, f |-> {}]
    [] op = "save" -> [n |-> {2, 3}, i |-> {1}, f |-> {}]
    [] op \in {"unload", "norm"} -> [n |-> {1}, i |-> {1}, f |-> {}]
    [] op = "paa" -> [n |-> {2}, i |-> {1, 2}, f |-> {}]
    [] op = "group" -> [n |-> {2}, i |-> {1}, f |-> {2}]
    [] op = "sgroup" -> [n |-> {2, 3}, i |-> {1, 3}, f |-> {}]
    [] op = "lgroup" -> [n |-> {2}, i |-> {1}, f |-> {}]
    [] op = "match" -> [n |-> {3, 5}, i |-> 1..5, f |-> {}]
OnlyWellTyped ==
  P.c = "op" => LET s == Shape(P.o.op)
                    n == Len(line) - 1
                IN  /\ n \in s.n
                    /\ \A k \in s.i : k <= n => line[k + 1].i
                    /\ \A k \in s.f : k <= n => line[k + 1].f
NameOf(op) == CASE op = "norm" -> "normalize" [] op = "sgroup" -> "saveGroup" [] op = "lgroup" -> "loadGroup" [] OTHER -> op
AndEveryWellTyped ==
  line # <<>> => \A op \in {"load", "save", "unload", "norm", "paa", "group", "sgroup", "lgroup", "match"} :
    LET s == Shape(op)
        n == Len(line) - 1
    IN  line[1].w = NameOf(op) /\ n \in s.n /\ (\A k \in s.i : k <= n => line[k + 1].i) /\ (\A k \in s.f : k <= n => line[k + 1].f)
          => P.c = "op" /\ P.o.op = op
\* Arguments reach the operation in their places
Placed ==
  P.c = "op" /\ P.o.op = "match" => /\ P.o.id = line[2].v /\ P.o.q = line[3].v /\ P.o.i = line[4].v
                                    /\ (Len(line) = 4 => P.o.s = -1 /\ P.o.e = -1) /\ (Len(line) = 6 => P.o.s = line[5].v /\ P.o.e = line[6].v)
Comments == line # <<>> => (line[1].com => P.c = "none")
OnlyTimerTimes == AfterLine(st, line).timer # st.timer => P.c = "timer"
OnlyQuitEnds == AfterLine(st, line).over # st.over => P.c = "quit"
\* Nothing but being asked stands between a session and its lines, and nothing typed by mistake ends it
OneModeAtATime == Mode(st) \in {"main", "ask", "end"} /\ (Mode(st) = "ask" => st.asking /\ ~st.over)
AskedBeforeTheEnd == [][(~st.over /\ st'.over) => (P.c = "quit" \/ Mode(st) = "ask")]_vars
NeverBack == [][st.over => st'.over]_vars
=============================================================================
