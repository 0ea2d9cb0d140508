------------------------------ MODULE TraceDist ------------------------------
(* Conformance of recorded distances (C15) and of distances under cutoffs and lower bounds (C16) with Dist.tla.
   Each event is a call on two series of integers a, b over a common denominator u, with the band ratio rn/rd in force:
   [op, a, b, u, rn, rd, cut (interval of its square), res (same), ok (did not refuse)]. *)
EXTENDS Dist, Json, IOUtils

CONSTANT Focus

Tab == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>

Ev(k, i) == Tab.traces[k].ev[i]
LongerLen(e) == Max2(Len(e.a), Len(e.b))

\* The exact distance is num/den under the root; INFC as cost: infinite
Cost(e) == IF e.op \in {"pw", "npw"} THEN SqDist(e.a, e.b) ELSE Warped(e.a, e.b, e.rn, e.rd)
Factor(e) == IF e.op \in {"pw", "npw"} THEN LongerLen(e) ELSE 4 * LongerLen(e) * LongerLen(e)
Num(e, c) == BMul(Big(c), Pow10(e.cut.e))
Den(e) == BMul(Big(Factor(e)), Big(e.u * e.u))

\* definitely below / definitely beyond the cutoff (the interval of the cutoff absorbs rounding)
BelowCut(e, c) == c < INFC /\ (e.cut.inf \/ BLt(Num(e, c), BMul(e.cut.lo, Den(e))))
Exactly(e, c) == IF c >= INFC THEN e.res.inf ELSE ~e.res.inf /\ RatIn(Big(c), Den(e), e.res)
NotBelowCut(e) == e.res.inf \/ (~e.cut.inf /\ BLeq(e.cut.lo, e.res.hi))

\* A lower bound: not more than the distance, unless both are beyond the cutoff
BoundOK(e) ==
  LET c == Cost(e)
      notMore == c >= INFC \/ (~e.res.inf /\ BLeq(BMul(e.res.lo, Den(e)), Num(e, c)))
  IN  notMore \/ (~BelowCut(e, c) /\ NotBelowCut(e))

P_C15(e) ==
  CASE e.op \in {"pw", "npw"} -> IF Len(e.a) # Len(e.b) THEN ~e.ok ELSE e.ok /\ (e.cut.inf => Exactly(e, Cost(e)))
    [] e.op \in {"wp", "nwp", "cc"} -> e.ok /\ (e.cut.inf => Exactly(e, Cost(e)))
    [] e.op = "name" -> e.ok = e.known
    [] e.op = "ratio" -> e.ok = e.good
    [] OTHER -> TRUE

P_C16(e) ==
  CASE e.op \in {"pw", "npw"} -> Len(e.a) = Len(e.b) =>
                                   LET c == Cost(e) IN e.ok /\ (Exactly(e, c) \/ (~BelowCut(e, c) /\ NotBelowCut(e)))
    [] e.op \in {"wp", "nwp", "cc"} -> LET c == Cost(e) IN e.ok /\ (Exactly(e, c) \/ (~BelowCut(e, c) /\ NotBelowCut(e)))
    [] e.op \in {"kg", "xk"} -> e.ok /\ BoundOK(e)
    [] OTHER -> TRUE

Judge(e) == IF e.op = "crash" THEN "crash"
            ELSE IF (IF Focus = "C15" THEN P_C15(e) ELSE P_C16(e)) THEN "ok" ELSE "step"

Init == tid \in 1..Len(Tab.traces) /\ l = 1 /\ verdict = "ok"
Next == /\ verdict = "ok" /\ l <= Len(Tab.traces[tid].ev)
        /\ verdict' = Judge(Ev(tid, l))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
