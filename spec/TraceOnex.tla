----------------------------- MODULE TraceOnex ------------------------------
(* Conformance: executions recorded from the code against Onex.tla.  Focus names the property whose requirements are
   checked at every step; the state is taken over from the observation after the step, where there is one. *)
EXTENDS Onex, Json, IOUtils

CONSTANT Focus

Tab == JsonDeserialize(IOEnv.TRACE_FILE)
TDataOf(d) == Tab.data[d.h]
TGrpOf(g) == Tab.grps[g.h]
TUMax == Tab.umax
NTraces == Len(Tab.traces)

VARIABLES tid,      \* which trace
          l,        \* next event
          st,       \* the state after the events so far
          verdict   \* "ok", or what the last step violated
vars == <<tid, l, st, verdict>>

Ev(k, i) == Tab.traces[k].ev[i]


-----------------------------------------------------------------------------
(* The state after a step: what was observed, and otherwise what the operation does *)
FromObs(o) ==
  LET ids == {o.ds[k].id : k \in 1..Len(o.ds)}
  IN  [i \in ids |-> LET k == CHOOSE j \in 1..Len(o.ds) : o.ds[j].id = i
                     IN  [name |-> o.ds[k].name, n |-> o.ds[k].n, len |-> o.ds[k].len, norm |-> o.ds[k].norm,
                          grp |-> o.ds[k].grp, d |-> o.ds[k].d, g |-> o.ds[k].g]]

Predicted(s, e) ==
  IF ~e.ok THEN s.ds
  ELSE CASE e.op = "load" /\ Tab.mode = "api" ->
              Put(s.ds, e.info.id, [name |-> e.info.name, n |-> e.info.n, len |-> e.info.len, norm |-> e.info.norm,
                                    grp |-> e.info.grp, d |-> Unknown, g |-> Unknown])
         [] e.op = "unload" \/ e.op = "del" -> Drop(s.ds, {e.id})
         [] e.op = "unloadall" -> Drop(s.ds, Live(s))
         [] e.op \in {"norm", "paa", "group", "lgroup", "clear", "reset", "load"} /\ e.id \in Live(s) ->
              [s.ds EXCEPT ![e.id].d = IF e.op \in {"norm", "paa", "load"} THEN Unknown ELSE @,
                           ![e.id].g = IF e.op \in {"group", "lgroup"} THEN Unknown ELSE NoGroups,
                           ![e.id].grp = e.op \in {"group", "lgroup"},
                           ![e.id].norm = IF e.op = "norm" THEN TRUE ELSE @]
         [] OTHER -> s.ds

After(s, e) ==
  [ds |-> IF e.seen THEN FromObs(e.obs) ELSE Predicted(s, e),
   rn |-> IF e.op = "ratio" /\ e.ok THEN e.rn ELSE s.rn,
   rd |-> IF e.op = "ratio" /\ e.ok THEN e.rd ELSE s.rd,
   files |-> FilesAfter(s, e), memo |-> MemoAfter(s, e), loaded |-> LoadedAfter(s, e)]

-----------------------------------------------------------------------------
(* Crashes, hangs and foreign exceptions: no operation of the specification does that.  The property an operation's
   crash counts against: *)
CrashOf(f) ==
  CASE f = "C01" -> {"unload", "unloadall", "info", "count", "list"}
    [] f = "C04" -> {"list", "info", "count", "save", "sgroup", "match"}
    [] f = "C05" -> {"load"}
    [] f = "C06" -> {"save"}
    [] f = "C07" -> {"norm"}
    [] f = "C08" -> {"paa"}
    [] f \in {"C09", "C10", "C11"} -> {"group"}
    [] f = "C12" -> {"group", "reset", "clear"}
    [] f \in {"C13", "C14"} -> {"match", "matchv"}
    [] f = "C18" -> {"sgroup", "lgroup"}
    [] f = "C19" -> {"lgroup"}
    [] f = "C22" -> {"sub", "pt", "dist"}
    [] f = "C24" -> {"load", "save", "norm", "paa", "group", "match", "matchv", "sgroup", "lgroup", "unload", "info", "list"}
    [] OTHER -> {}

CrashCounts(e) ==
  \/ e.of \in CrashOf(Focus)
  \/ Focus = "C02" /\ e.bad                                               \* an operation that should just be refused
  \/ Focus = "C12" /\ e.at = "obs" /\ e.of \in {"norm", "paa", "load"}    \* groups of data that is gone

SeenOK(e) == e.seen /\ Tab.mode = "api" => P_C01_obs(e.obs)

Accurate(s, e, t) ==    \* everything that has a value: used for the single-precision build
  /\ P_C05(s, e, t) /\ P_C06(s, e, t) /\ P_C07(s, e, t) /\ P_C08(s, e, t) /\ P_C09(s, e, t) /\ P_C10(s, e, t)
  /\ P_C11(s, e, t) /\ P_C12(s, e, t) /\ P_C13(s, e, t) /\ P_C14(s, e, t) /\ P_C18(s, e, t)

Requires(s, e, t) ==
  CASE Focus = "C01" -> P_C01(s, e, t) /\ SeenOK(e)
    [] Focus = "C02" -> P_C02(s, e, t)
    [] Focus = "C03" -> P_C03(s, e, t)
    [] Focus = "C04" -> P_C04(s, e, t)
    [] Focus = "C05" -> P_C05(s, e, t)
    [] Focus = "C06" -> P_C06(s, e, t)
    [] Focus = "C07" -> P_C07(s, e, t)
    [] Focus = "C08" -> P_C08(s, e, t)
    [] Focus = "C09" -> P_C09(s, e, t)
    [] Focus = "C10" -> P_C10(s, e, t)
    [] Focus = "C11" -> P_C11(s, e, t)
    [] Focus = "C12" -> P_C12(s, e, t)
    [] Focus = "C13" -> P_C13(s, e, t)
    [] Focus = "C14" -> P_C14(s, e, t)
    [] Focus = "C18" -> P_C18(s, e, t)
    [] Focus = "C19" -> P_C19(s, e, t)
    [] Focus = "C22" -> P_C22(s, e, t)
    [] Focus = "C24" -> Accurate(s, e, t)
    [] OTHER -> TRUE

Judge(s, e, t) ==
  IF e.op = "crash" THEN IF CrashCounts(e) THEN "crash" ELSE "ok"
  ELSE IF e.tw.h # 0 /\ e.tw # e.rx THEN "twin"
  ELSE IF Requires(s, e, t) THEN "ok" ELSE "step"

Init == /\ tid \in 1..NTraces /\ l = 1 /\ st = Empty /\ verdict = "ok"

Next == /\ verdict = "ok"
        /\ l <= Len(Tab.traces[tid].ev)
        /\ LET e == Ev(tid, l)
               t == IF e.op = "crash" THEN st ELSE After(st, e)
           IN  /\ verdict' = Judge(st, e, t)
               /\ st' = t
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
View == <<tid, l, verdict>>
=============================================================================
