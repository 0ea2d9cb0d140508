------------------------------- MODULE MCOnex -------------------------------
(* The whole system as a state machine on small datasets.  Do gives the outcome of every operation (the design); the
   properties of Onex.tla are checked on all its steps.  hist is the sequence of operations so far: every transition of the
   state graph, reached by some shortest way, is a behaviour that is replayed into the code (Emit = "all"); so are long
   random ones (Emit = "walk", with TLC's simulation mode). *)
EXTENDS Onex, Json

CONSTANTS FileIds,      \* input files that exist
          FileLines(_), \* their tokens
          MaxLive, MaxDepth, MaxTrans, Thrs, Ratios, PAAs, MatchQueries, Emit

MDataOf(d) == d
MGrpOf(g) == g

VARIABLES st, hist, verdict,
          tr     \* number of transformations each dataset went through
vars == <<st, hist, verdict, tr>>

Exactly(v, u) == Canon(u, << <<v>> >>)
Extremes(D) ==
  LET mn == TabMin(D.rows)  mx == TabMax(D.rows)  has(v) == \E i \in DOMAIN D.rows : \E j \in DOMAIN D.rows[i] : D.rows[i][j] = v
  IN  [mn |-> Exactly(mn, D.u), mx |-> Exactly(mx, D.u), fit |-> TRUE, within |-> mn >= 0 /\ mx <= D.u, at0 |-> has(0), at1 |-> has(D.u), rk |-> <<>>]
H(D) == [h |-> 1, ok |-> TRUE, u |-> D.u, rows |-> D.rows, n |-> Len(D.rows), len |-> ItemLen(D), x |-> Extremes(D)]
GH(ls, u, tn, td, dist) ==
  [h |-> 1, ok |-> TRUE, form |-> TRUE, thx |-> <<tn, td>>, tn |-> tn, td |-> td, dist |-> dist, gu |-> u, span |-> 0, ls |-> ls]

Info(i, x) == [id |-> i, name |-> x.name, n |-> x.n, len |-> x.len, norm |-> x.norm, grp |-> x.grp]
NoInfo == [id |-> -1, name |-> "", n |-> 0, len |-> 0, norm |-> FALSE, grp |-> FALSE]
Res(o, ok) == o @@ [ok |-> ok]
DataPaths == {"d1"}
GroupPaths == {"g1"}

\* The table a path holds now: an input file's, or what was saved there
LinesOf(s, p) ==
  IF p \in FileIds THEN FileLines(p)
  ELSE LET f == s.files[p] IN [i \in 1..f.n |-> [j \in 1..f.len |-> [k |-> TRUE, n |-> f.d.rows[i][j], d |-> f.d.u]]]
Readable(s, p) == p \in FileIds \/ (p \in DOMAIN s.files /\ s.files[p].kind = "data")

DistH(c, m, u) == [inf |-> FALSE, lo |-> Big(c), hi |-> Big(c), e |-> 0, of |-> BMul(Big(4 * m * m), Big(u * u))]

(* The design: [e |-> the operation with its results, ds |-> datasets afterwards] *)
Do(s, o) ==
  LET refuse == [e |-> Res(o, FALSE) @@ [info |-> NoInfo, count |-> 0, g |-> NoGroups, shape |-> 0, sizes |-> <<>>,
                                         res |-> [ok |-> TRUE, u |-> 1, mn |-> 0, mx |-> 0, mnx |-> 0, mxx |-> 0],
                                         file |-> IF o.op # "load" THEN -1 ELSE IF Readable(s, o.path) THEN 1 ELSE 0,
                                         lines |-> IF o.op = "load" /\ Readable(s, o.path) THEN LinesOf(s, o.path) ELSE <<>>], ds |-> s.ds]
      good(r, ds) == [e |-> Res(o, TRUE) @@ r, ds |-> ds]
      x == s.ds[o.id]
  IN  CASE o.op = "load" ->
             IF ~Readable(s, o.path) \/ LoadFails(LinesOf(s, o.path), o.max, o.col) THEN refuse
             ELSE LET D == LoadD(LinesOf(s, o.path), o.max, o.col)
                      i == SmallestFree(s)
                      y == [name |-> o.path, n |-> Len(D.rows), len |-> ItemLen(D), norm |-> FALSE, grp |-> FALSE,
                            d |-> H(D), g |-> NoGroups]
                  IN  good([info |-> Info(i, y), file |-> 1, lines |-> LinesOf(s, o.path)], Put(s.ds, i, y))
        [] o.op = "unloadall" -> good([z |-> 0], [i \in {} |-> 0])
        [] o.op = "count" -> good([count |-> Cardinality(Live(s))], s.ds)
        [] o.op = "list" -> good([list |-> Listing(s)], s.ds)
        [] o.op = "ratio" -> good([z |-> 0], s.ds)
        [] o.op # "match" /\ o.id \notin Live(s) -> refuse
        [] o.op = "unload" -> good([z |-> 0], Drop(s.ds, {o.id}))
        [] o.op = "info" -> good([info |-> Info(o.id, x)], s.ds)
        [] o.op = "norm" -> good([res |-> [ok |-> TRUE, u |-> x.d.u, mn |-> TabMin(x.d.rows), mx |-> TabMax(x.d.rows),
                                            mnx |-> x.d.x.mn, mxx |-> x.d.x.mx]],
                                 Put(s.ds, o.id, [x EXCEPT !.d = H(NormD(x.d)), !.norm = TRUE, !.grp = FALSE, !.g = NoGroups]))
        [] o.op = "paa" ->
             IF o.n <= 0 THEN refuse
             ELSE LET D == PAAD(x.d, o.n)
                      y == [x EXCEPT !.d = H(D), !.len = ItemLen(D), !.grp = FALSE, !.g = NoGroups]
                  IN  good([info |-> Info(o.id, y)], Put(s.ds, o.id, y))
        [] o.op = "group" ->
             IF ~o.gthr \/ o.dist \notin Distances THEN refuse
             ELSE LET ls == GroupAll(x.d, o.tn, o.td, o.dist, s.rn, s.rd)
             IN  good([count |-> GroupTotal(ls)], Put(s.ds, o.id, [x EXCEPT !.grp = TRUE, !.g = GH(ls, x.d.u, o.tn, o.td, o.dist)]))
        [] o.op = "save" -> good([z |-> 0], s.ds)
        [] o.op = "sgroup" ->
             IF ~x.grp THEN refuse
             ELSE good([shape |-> 1, g |-> x.g, sizes |-> [k \in 1..Len(x.g.ls) |-> [j \in 1..Len(x.g.ls[k]) |-> x.g.ls[k][j].cnt]]], s.ds)
        [] o.op = "lgroup" ->
             IF o.path \notin DOMAIN s.files \/ s.files[o.path].kind # "groups" \/ s.files[o.path].n # x.n \/ s.files[o.path].len # x.len THEN refuse
             ELSE good([count |-> GroupTotal(s.files[o.path].g.ls)], Put(s.ds, o.id, [x EXCEPT !.grp = TRUE, !.g = s.files[o.path].g]))
        [] o.op = "match" ->
             IF ~Matchable(s, o) THEN refuse
             ELSE LET G == x.g
                      u == LCM(LCM(x.d.u, s.ds[o.q].d.u), G.gu)
                      D == [u |-> u, rows |-> [i \in 1..Len(x.d.rows) |-> Scale(x.d.rows[i], u \div x.d.u)]]
                      q == Scale(QueryRow(s, o), u \div s.ds[o.q].d.u)
                      m == BestMatch(D, q, [k \in 1..Len(G.ls) |-> Rescale(G.ls[k], u \div G.gu)], s.rn, s.rd)
                  IN  good([m |-> [i |-> m.i, s |-> m.s, l |-> m.l, e |-> m.s + m.l, d |-> DistH(m.c, Max2(m.l, Len(q)), u),
                                   dx |-> <<m.c, m.l, u>>, vd |-> H(Canon(u, <<Sub(D, <<m.i, m.s>>, m.l)>>))]], s.ds)
        [] OTHER -> refuse

-----------------------------------------------------------------------------
Slots == 0..MaxLive      \* one more than can be live: dead identifiers too
SavedPaths(s, K) == {p \in DOMAIN s.files : s.files[p].kind \in K}

Ops(s) ==
       {[op |-> "load", path |-> p, max |-> m, col |-> c, sep |-> " "] :
          p \in IF Cardinality(Live(s)) < MaxLive THEN FileIds \cup {"none"} \cup SavedPaths(s, {"data"}) ELSE {}, m \in {0}, c \in {0}}
  \cup {[op |-> "unload", id |-> i] : i \in Slots}
  \cup {[op |-> "unloadall"], [op |-> "count"], [op |-> "list"]}
  \cup {[op |-> "info", id |-> i] : i \in Slots}
  \cup {[op |-> "norm", id |-> i] : i \in Slots}
  \cup {[op |-> "paa", id |-> i, n |-> n] : i \in Slots, n \in PAAs}
  \cup {[op |-> "group", id |-> i, tn |-> t[1], td |-> t[2], thx |-> t, gthr |-> t[1] >= 0, dist |-> "euclidean"] : i \in Slots, t \in Thrs}
  \cup {[op |-> "ratio", rn |-> r[1], rd |-> r[2]] : r \in Ratios}
  \cup {[op |-> "save", id |-> i, path |-> p, sep |-> " ", good |-> TRUE] : i \in Slots, p \in DataPaths}
  \cup {[op |-> "sgroup", id |-> i, path |-> p, short |-> b, good |-> TRUE] : i \in Slots, p \in GroupPaths, b \in BOOLEAN}
  \cup {[op |-> "lgroup", id |-> i, path |-> p, edited |-> FALSE, tok |-> FALSE] : i \in Slots, p \in SavedPaths(s, {"groups", "short", "data"}) \cup {"none"}}
  \cup {[op |-> "match", id |-> i, q |-> q, i |-> k[1], s |-> k[2], e |-> k[3]] : i \in Slots, q \in Slots, k \in MatchQueries}

\* Datasets that went through too much already are only unloaded, and values stay small
Enabled(s, o) ==
  /\ o.op \in {"norm", "paa"} /\ o.id \in Live(s) => tr[o.id] < MaxTrans
  /\ o.op = "ratio" => s.rn # o.rn \/ s.rd # o.rd
  \* one refusal of each kind is enough
  /\ o.op \in OnOne /\ o.id \notin Live(s) => o.id = MaxLive \/ \A j \in Live(s) : j < o.id
  /\ o.op = "match" => (o.q \in Live(s) \/ o.q = MaxLive) /\ (o.q # o.id => o.q < MaxLive)

Weight(op) == CASE op = "match" -> 6 [] op \in {"group", "load"} -> 4 [] op \in {"norm", "paa", "sgroup", "lgroup", "save"} -> 2 [] OTHER -> 1
\* A random walk first picks the kind of the next operation
Chosen(s) ==
  LET all == {o \in Ops(s) : Enabled(s, o)}
      on(o) == CASE o.op = "match" -> o.id \in Live(s) /\ Matchable(s, o)        \* most operations make sense
                 [] o.op = "sgroup" -> o.id \in Live(s) /\ s.ds[o.id].grp /\ (o.short => RandomElement(1..4) = 1)
                 [] o.op = "lgroup" -> o.id \in Live(s) /\ o.path \in DOMAIN s.files /\ s.files[o.path].kind = "groups"
                                       /\ s.files[o.path].n = s.ds[o.id].n /\ s.files[o.path].len = s.ds[o.id].len
                 [] o.op = "load" -> o.path \notin {"bad", "none"}
                 [] o.op = "unloadall" -> FALSE
                 [] o.op = "group" -> o.gthr /\ o.id \in Live(s)
                 [] o.op \in OnOne -> o.id \in Live(s)
                 [] OTHER -> TRUE
      some == {o \in all : on(o)}
      pool == IF RandomElement(1..6) = 1 THEN all ELSE some
      kinds == {o.op : o \in pool}
      k == RandomElement(UNION {{op} \X (1..Weight(op)) : op \in kinds})
  IN  IF Emit # "walk" THEN all ELSE {RandomElement({o \in pool : o.op = k[1]})}

TransAfter(o, e) ==
  CASE e.ok /\ o.op = "load" -> [tr EXCEPT ![e.info.id] = IF o.path \in FileIds THEN 0 ELSE MaxTrans]
    [] e.ok /\ o.op \in {"norm", "paa"} -> [tr EXCEPT ![o.id] = @ + 1]
    [] OTHER -> tr

AllP(s, e, t) ==
  (IF P_C01(s, e, t) THEN {} ELSE {"C01"}) \cup (IF P_C02(s, e, t) THEN {} ELSE {"C02"}) \cup (IF P_C03(s, e, t) THEN {} ELSE {"C03"})
  \cup (IF P_C04(s, e, t) THEN {} ELSE {"C04"}) \cup (IF P_C05(s, e, t) THEN {} ELSE {"C05"}) \cup (IF P_C06(s, e, t) THEN {} ELSE {"C06"})
  \cup (IF P_C07(s, e, t) THEN {} ELSE {"C07"}) \cup (IF P_C08(s, e, t) THEN {} ELSE {"C08"}) \cup (IF P_C09(s, e, t) THEN {} ELSE {"C09"})
  \cup (IF P_C10(s, e, t) THEN {} ELSE {"C10"}) \cup (IF P_C11(s, e, t) THEN {} ELSE {"C11"}) \cup (IF P_C12(s, e, t) THEN {} ELSE {"C12"})
  \cup (IF P_C13(s, e, t) THEN {} ELSE {"C13"}) \cup (IF P_C14(s, e, t) THEN {} ELSE {"C14"}) \cup (IF P_C18(s, e, t) THEN {} ELSE {"C18"})
  \cup (IF P_C22(s, e, t) THEN {} ELSE {"C22"})

Init == st = Empty /\ hist = <<>> /\ verdict = {} /\ tr = [i \in Slots |-> 0]

Next ==
  /\ Len(hist) < MaxDepth
  /\ \E o \in Chosen(st) :
       /\ LET r == Do(st, o)
              t == [ds |-> r.ds, rn |-> IF o.op = "ratio" THEN o.rn ELSE st.rn, rd |-> IF o.op = "ratio" THEN o.rd ELSE st.rd,
                    files |-> FilesAfter(st, r.e), memo |-> MemoAfter(st, r.e), loaded |-> LoadedAfter(st, r.e)]
          IN  /\ st' = t
              /\ hist' = Append(hist, o)
              /\ verdict' = AllP(st, r.e, t)
              /\ tr' = TransAfter(o, r.e)
              /\ Emit = "all" \/ (Emit = "walk" /\ Len(hist') = MaxDepth) => PrintT("@" \o ToJson(hist'))

Spec == Init /\ [][Next]_vars
HasAllProperties == verdict = {}
View == <<st.ds, st.rn, st.rd, st.files, st.loaded, tr, verdict>>

-----------------------------------------------------------------------------
(* Small instances *)
N(v) == [k |-> TRUE, n |-> v, d |-> 1]
T(v) == [k |-> FALSE, n |-> 0, d |-> 1]
MCFileLines(f) ==
  CASE f = "a" -> << <<N(0), N(2), N(4)>>, <<N(1), N(2), N(0)>> >>
    [] f = "b" -> << <<N(3), N(1), N(1)>>, <<N(0), N(4), N(2)>> >>     \* same shape
    [] f = "c" -> << <<N(1), N(5)>> >>
    [] f = "bad" -> << <<N(1), N(2)>>, <<N(3), T(0)>> >>
    [] f = "e" -> << <<N(2), N(0), N(3), N(3)>>, <<N(0), N(1), N(4), N(2)>>, <<N(5), N(5), N(5), N(1)>> >>
MCThrs == {<<1, 1>>, <<3, 1>>, <<-1, 2>>}
MCThrs3 == {<<-2, 1>>, <<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}
MCRatios3 == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<1, 1>>}
MCQueries3 == {<<0, -1, -1>>, <<1, -1, -1>>, <<2, -1, -1>>, <<0, 1, 3>>, <<1, 0, 2>>, <<1, 0, 3>>, <<2, 1, 4>>, <<0, 2, 2>>, <<-1, 0, 2>>, <<0, 0, 9>>, <<0, -1, 2>>}
ASSUME Emit # "no" => PrintT("@F" \o ToJson([f \in FileIds |-> FileLines(f)]))
MCThrs1 == {<<1, 1>>}
MCRatios == {<<0, 1>>, <<1, 2>>}
MCQueries == {<<0, -1, -1>>, <<0, 1, 3>>, <<2, 0, 2>>}
=============================================================================
