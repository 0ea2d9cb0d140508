----------------------------- MODULE TraceSpace ------------------------------
(* Conformance of the groups of one length, taken alone, and of the order of search, with Grouping.tla and Search.tla.
   Events: "data" [u, rows]: the dataset from now on; "ratio" [rn, rd]; "make" [len, count]; "empty" [count];
   "space" [dist, tn, td, count, gs]: the groups made;  "which" [k]: a group by its number;
   "best" [a, k, d, cut]: the best group (from 0, or -1) for a query under a cutoff;  "inner" [a, k, i, s, e, d]: the best member of a group;
   "order" [q, n, order]: the lengths searched for a query of length q.
   Distances are intervals of their squares.  Queries and representatives have the denominator u of the data. *)
EXTENDS Search, Json, IOUtils

CONSTANT Focus

Tab == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>

Ev(k, i) == Tab.traces[k].ev[i]
None == [D |-> [u |-> 1, rows |-> <<>>], len |-> 0, gs |-> <<>>, rn |-> 1, rd |-> 10]

After(s, e) ==
  CASE e.op = "data" /\ e.ok -> [None EXCEPT !.D = [u |-> e.u, rows |-> e.rows], !.rn = s.rn, !.rd = s.rd]
    [] e.op = "ratio" /\ e.ok -> [s EXCEPT !.rn = e.rn, !.rd = e.rd]
    [] e.op = "make" /\ e.ok -> [s EXCEPT !.len = e.len, !.gs = <<>>]
    [] e.op = "empty" /\ e.ok -> [s EXCEPT !.gs = <<>>]
    [] e.op = "space" /\ e.ok -> [s EXCEPT !.gs = e.gs]
    [] OTHER -> s

-----------------------------------------------------------------------------
Groups09(s, e) ==
  CASE e.op \in {"make", "empty"} -> e.ok /\ e.count = 0
    [] e.op = "space" -> /\ e.ok /\ e.count = Len(e.gs) /\ InRange(s.D, s.len, e.gs) /\ Partition(s.D, s.len, e.gs)
                         /\ e.whole     \* every member says its own end and shows its own points
    [] e.op = "which" -> e.ok = (e.k \in 0..(Len(s.gs) - 1)) /\ (e.ok => e.member = s.len)
    [] OTHER -> TRUE

Sound(s, e) == e.op = "space" /\ e.ok /\ InRange(s.D, s.len, e.gs) /\ \A k \in 1..Len(e.gs) : e.gs[k].mem # <<>> /\ Len(e.gs[k].rep) = s.len
Half(s, e) == HalfThreshold(e.tn, e.td, s.D.u, s.len, e.dist)
Groups10(s, e) == Sound(s, e) => /\ \A k \in 1..Len(e.gs) : RepIsMember(s.D, s.len, e.gs[k])
                                 /\ Radius(s.D, s.len, e.gs, Half(s, e), e.dist, s.rn, s.rd)
                                 /\ Separation(s.len, e.gs, Half(s, e), e.dist, s.rn, s.rd)
Groups11(s, e) == Sound(s, e) => Greedy(s.D, s.len, e.gs, Half(s, e), e.dist, s.rn, s.rd)

-----------------------------------------------------------------------------
Factor(s, e) == 4 * Sq(Max2(s.len, Len(e.a))) * Sq(s.D.u)
Exactly(s, e, c) == IF c >= INFC THEN e.d.inf ELSE ~e.d.inf /\ RatIn(Big(c), Big(Factor(s, e)), e.d)
\* definitely below the cutoff; what is reported is not below it
BelowCut(s, e, c) == c < INFC /\ (e.cut.inf \/ BLt(BMul(Big(c), Pow10(e.cut.e)), BMul(e.cut.lo, Big(Factor(s, e)))))
NotBelowCut(e) == e.d.inf \/ (~e.cut.inf /\ BLeq(e.cut.lo, e.d.hi))

Best(s, e) ==
  LET cost == [k \in 1..Len(s.gs) |-> Warped(s.gs[k].rep, e.a, s.rn, s.rd)]
      least == IF s.gs = <<>> THEN INFC ELSE SeqMin(cost)
  IN  IF BelowCut(s, e, least) THEN e.k \in 0..(Len(s.gs) - 1) /\ cost[e.k + 1] = least /\ Exactly(s, e, least)
      ELSE \/ e.k = -1
           \/ e.k \in 0..(Len(s.gs) - 1) /\ cost[e.k + 1] = least /\ Exactly(s, e, least) /\ NotBelowCut(e)

Inner(s, e) ==
  LET g == s.gs[e.k + 1]
      cost == [j \in 1..Len(g.mem) |-> Warped(Sub(s.D, g.mem[j], s.len), e.a, s.rn, s.rd)]
  IN  /\ \E j \in 1..Len(g.mem) : g.mem[j] = <<e.i, e.s>> /\ cost[j] = SeqMin(cost)
      /\ e.e = e.s + s.len
      /\ Exactly(s, e, SeqMin(cost))

P_C14(s, e) ==
  CASE e.op = "best" -> e.ok /\ Best(s, e)
    [] e.op = "inner" -> e.ok /\ Inner(s, e)
    [] e.op = "order" -> e.ok /\ {e.order[k] : k \in 1..Len(e.order)} = Allowed(e.q, e.n, s.rn, s.rd)
    [] OTHER -> TRUE

P_C13(s, e) ==
  CASE e.op = "inner" ->
         /\ e.ok /\ <<e.i, e.s>> \in CoordSet(s.D, s.len) /\ e.e = e.s + s.len
         /\ Exactly(s, e, Warped(Sub(s.D, <<e.i, e.s>>, s.len), e.a, s.rn, s.rd))
    [] e.op = "order" -> e.ok /\ {e.order[k] : k \in 1..Len(e.order)} \subseteq Allowed(e.q, e.n, s.rn, s.rd)
    [] OTHER -> TRUE

P_C16(s, e) == e.op = "best" => e.ok /\ Best(s, e)

Requires(s, e) ==
  CASE Focus = "C09" -> Groups09(s, e)
    [] Focus = "C10" -> Groups10(s, e)
    [] Focus = "C11" -> Groups11(s, e)
    [] Focus = "C13" -> P_C13(s, e)
    [] Focus = "C14" -> P_C14(s, e)
    [] Focus = "C16" -> P_C16(s, e)
    [] OTHER -> TRUE

CrashCounts(e) == IF Focus \in {"C09", "C10", "C11"} THEN e.of \in {"data", "make", "empty", "space", "which"} ELSE e.of \in {"best", "inner", "order"}
Judge(s, e) == IF e.op = "crash" THEN (IF CrashCounts(e) THEN "crash" ELSE "ok")
               ELSE IF Requires(s, e) THEN "ok" ELSE "step"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ st = None /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ verdict' = Judge(st, Ev(tid, l))
        /\ st' = IF Ev(tid, l).op = "crash" THEN st ELSE After(st, Ev(tid, l))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
View == <<tid, l, verdict>>
=============================================================================
