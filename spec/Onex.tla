-------------------------------- MODULE Onex --------------------------------
(* The system: a table of datasets addressed by small identifiers, a warping band ratio, and files.
   This module has no variables: it says what a state is, which outcomes an operation may have (Outcomes), and what each
   property requires of a step from state s to state t by operation e (P_Cxx).  MCOnex checks that the outcomes have the
   properties; TraceOnex checks the properties on steps recorded from the code.

   State: [ds |-> function from live identifiers to datasets, rn/rd |-> band ratio, files |-> path -> what was saved there,
           memo |-> answers to matches since the last change]
   Dataset: [name, n, len, norm, grp, d, g]: d and g are handles of data and groups; DataOf and GrpOf give the contents.
     DataOf(d) = [ok, u, rows, n, len, x], ok: the values are rationals that fit; handles are equal iff contents are identical
       x = [mn, mx, fit, within, at0, at1, rk]: exact facts of the values: the extremes, whether they are within [0,1], 0 and 1 occur,
           and their ranks, row by row, where the values themselves are not known
     GrpOf(g)  = [ok, form, thx, tn, td, dist, gu, span, ls], thx: the exact threshold as a handle, tn/td: its value; representatives over denominator gu, at most span in magnitude
     d = Unknown, g = Unknown: not observed;  g = NoGroups: none.  Handles are records with a field h, positive if known.
   Operation: a record with op, ok (reported success), arguments and results. *)
EXTENDS Search, GroupFile

CONSTANTS DataOf(_), GrpOf(_),
          UMax      \* values are told exactly while their common denominator is at most this: 4000, less in single precision
Coarse == UMax < 4000

Unknown == [h |-> -1]
NoGroups == [h |-> 0]

Live(s) == DOMAIN s.ds
SmallestFree(s) == CHOOSE i \in 0..Cardinality(Live(s)) : i \notin Live(s) /\ \A j \in 0..(i-1) : j \in Live(s)
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Queries == {"list", "info", "count", "save", "sgroup", "match", "matchv", "sub", "pt", "dist", "obs", "cat",
            "side"}     \* anything done with another object of the interface
OnOne == {"unload", "info", "save", "norm", "paa", "group", "sgroup", "lgroup", "match", "matchv"}
Changers == {"norm", "paa", "group", "lgroup", "load", "unload", "clear", "reset", "new", "del"}

\* Identifiers an operation names
Named(e) == (IF e.op \in OnOne THEN {e.id} ELSE {}) \cup (IF e.op = "match" THEN {e.q} ELSE {})

-----------------------------------------------------------------------------
(* Data operations on exact tables *)
NormD(D) ==
  LET mn == TabMin(D.rows)  mx == TabMax(D.rows)
  IN  IF mn = mx THEN [u |-> 1, rows |-> [i \in 1..Len(D.rows) |-> [j \in 1..Len(D.rows[i]) |-> 0]]]
      ELSE Canon(mx - mn, [i \in 1..Len(D.rows) |-> [j \in 1..Len(D.rows[i]) |-> D.rows[i][j] - mn]])

PAALen(L, n) == (L - 1) \div n + 1
\* Block k (from 1) of a row: sum of its values and number of them
BlockSum(row, n, k) == SeqSum(SubSeq(row, (k - 1) * n + 1, Min2(k * n, Len(row))))
BlockCnt(L, n, k) == Min2(k * n, L) - (k - 1) * n
PAAD(D, n) ==
  LET L == ItemLen(D)
      full == Min2(n, L)
      last == BlockCnt(L, n, PAALen(L, n))
      c == LCM(full, last)
  IN  Canon(D.u * c, [i \in 1..Len(D.rows) |-> [k \in 1..PAALen(L, n) |->
                        BlockSum(D.rows[i], n, k) * (c \div BlockCnt(L, n, k))]])

\* Contents are comparable exactly only while denominators and numerators stay small
SmallTab(D) == D.u <= UMax /\ TabMax(D.rows) <= 400000 /\ TabMin(D.rows) >= -400000
\* d has exactly the contents D
Holds(d, D) == d.h > 0 /\ DataOf(d).ok /\ DataOf(d).u = D.u /\ DataOf(d).rows = D.rows
HoldsIfSmall(d, D) == SmallTab(D) => Holds(d, D)
Known(d) == d.h > 0 /\ DataOf(d).ok
KnownG(g) == g.h > 0 /\ GrpOf(g).ok

(* Loading, on token level: a file is a sequence of lines, a line a sequence of tokens [k, n, d] (k: is a number n/d). *)
LoadLines(f, max) == IF max <= 0 THEN f ELSE SubSeq(f, 1, Min2(max, Len(f)))
LoadFails(f, max, col) ==
  LET L == LoadLines(f, max)
  IN  \/ col < 0 \/ L = <<>> \/ Len(L[1]) <= col
      \/ \E i \in 1..Len(L) : Len(L[i]) # Len(L[1])
      \/ \E i \in 1..Len(L) : \E j \in (col + 1)..Len(L[i]) : ~L[i][j].k
LoadD(f, max, col) ==
  LET L == LoadLines(f, max)
      u == FoldLeft(LAMBDA acc, line : FoldLeft(LAMBDA a, j : IF j > col THEN LCM(a, line[j].d) ELSE a, acc, Ids(Len(line))), 1, L)
  IN  Canon(u, [i \in 1..Len(L) |-> [j \in 1..(Len(L[i]) - col) |-> L[i][j + col].n * (u \div L[i][j + col].d)]])

-----------------------------------------------------------------------------
(* C01: identifiers *)
InfoOf(s, i) == [id |-> i, name |-> s.ds[i].name, n |-> s.ds[i].n, len |-> s.ds[i].len,
                 norm |-> s.ds[i].norm, grp |-> s.ds[i].grp]
SameInfo(x, y) == /\ x.id = y.id /\ x.name = y.name /\ x.n = y.n /\ x.len = y.len /\ x.norm = y.norm /\ x.grp = y.grp
Listing(s) == [k \in 1..Cardinality(Live(s)) |-> InfoOf(s, Ascending(Live(s))[k])]
SameListing(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameInfo(a[k], b[k])

P_C01(s, e, t) ==
  /\ \A i \in Named(e) : i \notin Live(s) => ~e.ok
  /\ CASE e.op = "load" /\ e.ok ->
            /\ e.info.id = SmallestFree(s)
            /\ Live(t) = Live(s) \cup {SmallestFree(s)}
            /\ t.ds[e.info.id].name = e.path
            /\ SameInfo(e.info, InfoOf(t, e.info.id))
       [] e.op = "unload" -> /\ e.ok = (e.id \in Live(s))
                             /\ Live(t) = Live(s) \ {e.id}
       [] e.op = "unloadall" -> Live(t) = {} /\ e.ok
       [] e.op = "info" -> /\ e.ok = (e.id \in Live(s))
                           /\ e.ok => SameInfo(e.info, InfoOf(s, e.id))
       [] e.op = "paa" /\ e.ok -> Live(t) = Live(s) /\ SameInfo(e.info, InfoOf(t, e.id))
       [] e.op = "count" -> e.ok /\ e.count = Cardinality(Live(s))
       [] e.op = "list" -> e.ok /\ SameListing(e.list, Listing(s))
       [] OTHER -> Live(t) = Live(s)
  /\ \A i \in Live(s) \cap Live(t) : (e.op = "load" /\ e.ok /\ e.info.id = i) \/ t.ds[i].name = s.ds[i].name
  \* every dataset is listed with the shape it has
  /\ \A i \in Live(t) : t.ds[i].d.h > 0 => t.ds[i].n = DataOf(t.ds[i].d).n /\ t.ds[i].len = DataOf(t.ds[i].d).len
  /\ \A i \in Live(t) : t.ds[i].g # Unknown => t.ds[i].grp = (t.ds[i].g # NoGroups)

(* What the listing of an observation must look like in itself *)
P_C01_obs(o) ==
  /\ o.count = Len(o.ds)
  /\ \A k \in 1..Len(o.ds) : o.ds[k].same /\ (k > 1 => o.ds[k-1].id < o.ds[k].id)

(* C02: failures change nothing *)
P_C02(s, e, t) == ~e.ok => t.ds = s.ds

(* C03: isolation *)
Touched(s, e) ==
  CASE e.op = "unloadall" -> Live(s)
    [] e.op = "load" /\ e.ok -> {e.info.id}
    [] e.op \in {"unload", "norm", "paa", "group", "lgroup", "new", "del", "clear", "reset"} -> {e.id}
    [] OTHER -> {}
P_C03(s, e, t) == \A i \in Live(s) \ Touched(s, e) : i \in Live(t) /\ t.ds[i] = s.ds[i]

(* C04: queries change nothing, and repeating one gives the same answer *)
MatchKey(e) == <<e.op, e.id, e.q, e.i, e.s, e.e>>
Answer(e) == IF e.ok THEN <<e.m.i, e.m.s, e.m.l, e.m.dx>> ELSE <<"refused">>
P_C04(s, e, t) ==
  /\ e.op \in Queries => t.ds = s.ds
  /\ e.op = "match" => \A a \in s.memo : a[1] = MatchKey(e) => a[2] = Answer(e)

(* C05: loading, token level *)
P_C05(s, e, t) ==
  e.op = "load" /\ e.path \notin DOMAIN s.files /\ e.file # -1 =>
    IF e.file = 0 THEN ~e.ok
    ELSE IF LoadFails(e.lines, e.max, e.col) THEN ~e.ok
    ELSE /\ e.ok
         /\ LET x == t.ds[e.info.id]
                D == LoadD(e.lines, e.max, e.col)
            IN  /\ x.n = Len(D.rows) /\ x.len = ItemLen(D)
                /\ x.d.h > 0 => HoldsIfSmall(x.d, D)

(* C06: a saved dataset loads back identical *)
P_C06(s, e, t) ==
  /\ e.op = "load" /\ e.path \in DOMAIN s.files /\ e.max <= 0 /\ e.col = 0 =>
       LET f == s.files[e.path]
       IN  f.kind = "data" /\ f.sep = e.sep =>
             /\ e.ok
             /\ f.d.h > 0 /\ t.ds[e.info.id].d.h > 0 => t.ds[e.info.id].d = f.d
             /\ t.ds[e.info.id].n = f.n /\ t.ds[e.info.id].len = f.len
  /\ e.op = "save" /\ e.ok => t.ds = s.ds
  /\ e.op = "save" /\ e.id \in Live(s) /\ e.good => e.ok

(* C07: normalization *)
P_C07(s, e, t) ==
  /\ e.op = "norm" /\ e.id \in Live(s) /\ s.ds[e.id].n > 0 =>
       /\ e.ok
       /\ e.id \in Live(t)
       /\ LET x == s.ds[e.id]  y == t.ds[e.id]
          IN  /\ y.n = x.n /\ y.len = x.len /\ y.name = x.name /\ y.norm
              /\ Known(x.d) /\ SmallTab(DataOf(x.d)) =>
                   LET D == DataOf(x.d)
                       mx == TabMax(D.rows)  mn == TabMin(D.rows)
                   IN  \* (in single precision the difference of close values loses their digits)
                       /\ y.d # Unknown /\ (Coarse => 4 * (mx - mn) >= Max2(mx, -mn)) => HoldsIfSmall(y.d, NormD(D))
                       /\ e.res.ok
                       /\ e.res.mn * D.u = TabMin(D.rows) * e.res.u
                       /\ e.res.mx * D.u = TabMax(D.rows) * e.res.u
              \* whatever the values: the returned ones are the extremes, and 0 and 1 are attained exactly
              /\ x.d.h > 0 /\ DataOf(x.d).x.fit /\ y.d.h > 0 =>
                   LET a == DataOf(x.d).x  b == DataOf(y.d).x
                   IN  /\ e.res.mnx = a.mn /\ e.res.mxx = a.mx
                       /\ b.within /\ b.at0
                       /\ IF a.mn = a.mx THEN b.mn = b.mx ELSE b.at1
                       /\ \A i, j \in DOMAIN a.rk : a.rk[i] < a.rk[j] => b.rk[i] <= b.rk[j]
  /\ e.op = "load" /\ e.ok /\ e.info.id \in Live(t) => ~t.ds[e.info.id].norm

(* C08: piecewise aggregation *)
P_C08(s, e, t) ==
  e.op = "paa" /\ e.id \in Live(s) /\ s.ds[e.id].n > 0 =>
    /\ e.ok = (e.n > 0)
    /\ e.ok => LET x == s.ds[e.id]  y == t.ds[e.id]
               IN  /\ y.n = x.n /\ y.name = x.name /\ y.len = PAALen(x.len, e.n)
                   /\ Known(x.d) /\ SmallTab(DataOf(x.d)) /\ y.d # Unknown
                        => HoldsIfSmall(y.d, PAAD(DataOf(x.d), e.n))
    /\ ~e.ok => t.ds[e.id] = s.ds[e.id]

-----------------------------------------------------------------------------
(* Groups *)
Rescale(gs, k) == IF k = 1 THEN gs ELSE [i \in 1..Len(gs) |-> [gs[i] EXCEPT !.rep = Scale(@, k)]]

\* The groups of a dataset over a common denominator: [D, ls], or the data's if they are the same
Common(D, G) ==
  LET u == LCM(D.u, G.gu)
  IN  [D |-> [u |-> u, rows |-> IF u = D.u THEN D.rows ELSE [i \in 1..Len(D.rows) |-> Scale(D.rows[i], u \div D.u)]],
       ls |-> [k \in 1..Len(G.ls) |-> Rescale(G.ls[k], u \div G.gu)]]

\* A grouping that just succeeded
Grouped(e, t) == e.op = "group" /\ e.ok /\ e.id \in Live(t) /\ t.ds[e.id].g # Unknown

\* Costs of up to m+n terms fit into 32 bits
CostFits(D, u, terms) ==
  LET k == u \div D.u
      span == Max2(TabMax(D.rows), -TabMin(D.rows)) * k
  IN  TabMax(D.rows) <= 20000 /\ TabMin(D.rows) >= -20000 /\ k <= 2000 /\ span <= 10000
      /\ 4 * span * span <= 1000000000 \div terms

P_C09(s, e, t) ==
  /\ e.op = "group" /\ e.id \in Live(s) /\ s.ds[e.id].n > 0 => e.ok = (e.dist \in Distances /\ e.gthr)
  /\ Grouped(e, t) =>
       LET x == t.ds[e.id]
       IN  /\ x.g.h > 0
           /\ LET G == GrpOf(x.g)
              IN  /\ G.form                      \* the saved groups can be read
                  /\ Len(G.ls) = Max2(x.len, 1) - 1
                  /\ e.count = GroupTotal(G.ls)
                  /\ \A k \in 1..Len(G.ls) :
                       LET gs == G.ls[k]
                       IN  /\ MemberCount(gs) = x.n * (x.len - k)
                           /\ UNION {{gs[m].mem[j] : j \in 1..Len(gs[m].mem)} : m \in 1..Len(gs)}
                                = {<<i, b>> : i \in 0..(x.n - 1), b \in 0..(x.len - k - 1)}
                           /\ \A m \in 1..Len(gs) : gs[m].cnt = Len(gs[m].mem) /\ gs[m].cnt > 0

\* Per length: data, groups and half the threshold over the same denominator
ForLengths(s, e, t, Q(_, _, _, _)) ==
  LET x == t.ds[e.id]
      G == GrpOf(x.g)
      D0 == DataOf(x.d)
  IN  Grouped(e, t) /\ Known(x.d) /\ KnownG(x.g) /\ Len(G.ls) = x.len - 1 /\ SmallTab(D0) =>
      LET c == Common(D0, G)
      IN  LCM(D0.u, G.gu) <= 5000 /\ CostFits(D0, c.D.u, 2 * x.len) =>
          \A k \in 1..Len(G.ls) :
             InRange(c.D, k + 1, c.ls[k])
               /\ (\A m \in 1..Len(c.ls[k]) : c.ls[k][m].mem # <<>> /\ Len(c.ls[k][m].rep) = k + 1) =>
               Q(c.D, k + 1, c.ls[k], HalfThreshold(e.tn, e.td, c.D.u, k + 1, e.dist))

P_C10(s, e, t) ==
  LET Q(D, l, gs, h) == /\ \A k \in 1..Len(gs) : RepIsMember(D, l, gs[k])
                        /\ Radius(D, l, gs, h, e.dist, s.rn, s.rd)
                        /\ Separation(l, gs, h, e.dist, s.rn, s.rd)
  IN  ForLengths(s, e, t, Q)

P_C11(s, e, t) ==
  LET Q(D, l, gs, h) == Greedy(D, l, gs, h, e.dist, s.rn, s.rd)
  IN  ForLengths(s, e, t, Q)

(* What is kept with groups is the threshold and distance they were made with, exactly *)
Describes(e, t) ==
  Grouped(e, t) /\ t.ds[e.id].g.h > 0 /\ GrpOf(t.ds[e.id].g).form =>
    LET G == GrpOf(t.ds[e.id].g) IN G.thx = e.thx /\ G.dist = e.dist

(* C12: the grouped flag and what it promises *)
P_C12(s, e, t) ==
  /\ \A i \in Live(t) : t.ds[i].g # Unknown => t.ds[i].grp = (t.ds[i].g # NoGroups)
  /\ e.op = "load" /\ e.ok /\ e.info.id \in Live(t) => ~t.ds[e.info.id].grp /\ t.ds[e.info.id].g = NoGroups
  /\ e.op \in {"norm", "paa", "clear", "reset"} /\ e.ok /\ e.id \in Live(t) => ~t.ds[e.id].grp /\ t.ds[e.id].g = NoGroups
  /\ e.op \in {"group", "lgroup"} /\ e.ok /\ e.id \in Live(t) => t.ds[e.id].grp
  /\ Describes(e, t)
  /\ e.op \in {"match", "matchv"} /\ e.id \in Live(s) /\ ~s.ds[e.id].grp => ~e.ok
  /\ e.op = "sgroup" /\ e.id \in Live(s) => IF s.ds[e.id].grp THEN (e.good => e.ok) ELSE ~e.ok
  /\ e.op \notin {"load", "unload", "unloadall", "norm", "paa", "clear", "reset", "group", "lgroup", "new", "del"} =>
       \A i \in Live(s) \cap Live(t) : t.ds[i].grp = s.ds[i].grp

-----------------------------------------------------------------------------
(* Matching.  The query is part of dataset e.q (series e.i, positions e.s to e.e, or all of it if both are negative),
   or (matchv) a series of its own, given as data handle e.qd. *)
WholeQuery(e) == e.s < 0 /\ e.e < 0
AddressOK(n, L, i, b, z) == i \in 0..(n - 1) /\ ((b < 0 /\ z < 0) \/ (0 <= b /\ b < z /\ z <= L))

QueryOK(s, e) == IF e.op = "matchv" THEN TRUE
                 ELSE e.q \in Live(s) /\ AddressOK(s.ds[e.q].n, s.ds[e.q].len, e.i, e.s, e.e)
QueryLen(s, e) == IF e.op = "matchv" THEN e.qlen
                  ELSE IF WholeQuery(e) THEN s.ds[e.q].len ELSE e.e - e.s
QueryData(s, e) == IF e.op = "matchv" THEN e.qd ELSE s.ds[e.q].d
QueryRow(s, e) == IF e.op = "matchv" THEN DataOf(e.qd).rows[1]
                  ELSE LET row == DataOf(s.ds[e.q].d).rows[e.i + 1]
                       IN  IF WholeQuery(e) THEN row ELSE SubSeq(row, e.s + 1, e.e)

IsMatch(e) == e.op \in {"match", "matchv"}
Matchable(s, e) ==
  /\ e.id \in Live(s) /\ QueryOK(s, e) /\ s.ds[e.id].grp
  /\ QueryLen(s, e) >= 2
  /\ Allowed(QueryLen(s, e), s.ds[e.id].len, s.rn, s.rd) # {}

\* Exact comparison is possible: query, target and representatives over a common denominator
MatchUnit(s, e) == LCM(DataOf(s.ds[e.id].d).u, DataOf(QueryData(s, e)).u)
MatchFits(s, e) ==
  /\ Known(s.ds[e.id].d) /\ Known(QueryData(s, e))
  /\ DataOf(s.ds[e.id].d).u <= UMax /\ DataOf(QueryData(s, e)).u <= UMax
  /\ MatchUnit(s, e) <= UMax
  /\ LET terms == s.ds[e.id].len + QueryLen(s, e)
     IN  CostFits(DataOf(s.ds[e.id].d), MatchUnit(s, e), terms)
         /\ CostFits([u |-> DataOf(QueryData(s, e)).u, rows |-> <<QueryRow(s, e)>>], MatchUnit(s, e), terms)

P_C13(s, e, t) ==
  IsMatch(e) =>
    /\ e.ok = Matchable(s, e)
    /\ e.ok =>
         LET m == e.m  x == s.ds[e.id]  q == QueryLen(s, e)
         IN  /\ m.i \in 0..(x.n - 1) /\ m.s >= 0 /\ m.l >= 1 /\ m.s + m.l <= x.len /\ m.e = m.s + m.l
             /\ m.l \in Allowed(q, x.len, s.rn, s.rd)
             /\ MatchFits(s, e) =>
                  LET u == MatchUnit(s, e)
                      D == DataOf(x.d)
                      sub == Scale(Sub(D, <<m.i, m.s>>, m.l), u \div D.u)
                      qr == Scale(QueryRow(s, e), u \div DataOf(QueryData(s, e)).u)
                  IN  /\ IsWarped(m.d, Warped(sub, qr, s.rn, s.rd), Max2(m.l, q), u)
                      /\ Holds(m.vd, Canon(D.u, <<Sub(D, <<m.i, m.s>>, m.l)>>))

P_C14(s, e, t) ==
  IsMatch(e) /\ e.ok /\ Matchable(s, e) /\ MatchFits(s, e) /\ KnownG(s.ds[e.id].g) =>
    LET x == s.ds[e.id]
        G == GrpOf(x.g)
        D == DataOf(x.d)
        u == LCM(MatchUnit(s, e), G.gu)
        m == e.m
    IN  u <= 5000 /\ CostFits(D, u, x.len + QueryLen(s, e))
          /\ CostFits([u |-> DataOf(QueryData(s, e)).u, rows |-> <<QueryRow(s, e)>>], u, x.len + QueryLen(s, e))
          /\ G.span * (u \div G.gu) <= 10000
          /\ Len(G.ls) = x.len - 1 /\ m.l \in 2..x.len =>
        MatchOK([u |-> u, rows |-> [i \in 1..Len(D.rows) |-> Scale(D.rows[i], u \div D.u)]],
                Scale(QueryRow(s, e), u \div DataOf(QueryData(s, e)).u),
                [k \in 1..Len(G.ls) |-> Rescale(G.ls[k], u \div G.gu)],
                m.i, m.s, m.l, s.rn, s.rd)

-----------------------------------------------------------------------------
(* C18: saved groups load back identical; the short form lists the same sizes *)
P_C18(s, e, t) ==
  /\ e.op = "lgroup" /\ e.path \in DOMAIN s.files /\ e.id \in Live(s) /\ ~e.edited =>
       LET f == s.files[e.path]
       IN  f.kind = "groups" /\ f.n = s.ds[e.id].n /\ f.len = s.ds[e.id].len =>
             /\ e.ok
             /\ t.ds[e.id].g # Unknown /\ f.g.h > 0 =>
                  t.ds[e.id].g = f.g /\ e.count = GroupTotal(GrpOf(f.g).ls)
  /\ e.op = "sgroup" /\ e.ok /\ e.id \in Live(s) /\ e.shape # 0 /\ s.ds[e.id].g.h > 0 /\ GrpOf(s.ds[e.id].g).form =>
       LET G == GrpOf(s.ds[e.id].g)
       IN  e.shape = 1 /\ IF e.short
           THEN LET sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
                IN  /\ Len(e.sizes) = Len(G.ls)
                    /\ \A k \in 1..Len(G.ls) :
                         sorted(e.sizes[k]) = sorted([j \in 1..Len(G.ls[k]) |-> G.ls[k][j].cnt])
           ELSE e.g = s.ds[e.id].g
  /\ e.op = "sgroup" /\ e.ok => t.ds = s.ds
  /\ Describes(e, t)
  /\ LET Q(D, l, gs, h) == \A k \in 1..Len(gs) : RepIsMember(D, l, gs[k])    \* as written: the very values of a member
     IN  ForLengths(s, e, t, Q)
  /\ IsMatch(e) /\ e.id \in Live(s) /\ s.ds[e.id].grp /\ e.id \in s.loaded => P_C13(s, e, t) /\ P_C14(s, e, t)

(* C19: only complete and fitting group files are loaded *)
P_C19(s, e, t) ==
  e.op = "lgroup" /\ e.id \in Live(s) /\ e.tok =>
    LET x == s.ds[e.id]
    IN  /\ e.ok => ValidFile(e.toks, x.n, x.len)
        /\ ~e.ok => t.ds = s.ds
        /\ e.ok /\ t.ds[e.id].g.h > 0 /\ GrpOf(t.ds[e.id].g).form =>
             LET R == ReadFile(e.toks, x.n, x.len)
                 G == GrpOf(t.ds[e.id].g)
                 asSets(ls) == [k \in 1..Len(ls) |-> {{ls[k][j].mem[m] : m \in 1..Len(ls[k][j].mem)} : j \in 1..Len(ls[k])}]
             IN  asSets(R.ls) = asSets(G.ls) /\ e.count = GroupTotal(G.ls)
                 /\ t.ds[e.id].d = x.d

(* C22, as far as queries are concerned; the addressing operations of the library *)
P_C22(s, e, t) ==
  /\ e.op = "match" /\ e.id \in Live(s) /\ s.ds[e.id].grp /\ ~QueryOK(s, e) => ~e.ok
  /\ e.op = "sub" /\ e.id \in Live(s) =>
       /\ e.ok = AddressOK(s.ds[e.id].n, s.ds[e.id].len, e.i, e.s, e.e)
       /\ e.ok => LET whole == e.s < 0 /\ e.e < 0
                      b == IF whole THEN 0 ELSE e.s
                      z == IF whole THEN s.ds[e.id].len ELSE e.e
                  IN  /\ e.sub.i = e.i /\ e.sub.s = b /\ e.sub.e = z /\ e.sub.l = z - b
                      \* and it is shown with its position, and printed with all its values
                      /\ e.sub.ident = ToString(e.i) \o " [" \o ToString(b) \o ", " \o ToString(z) \o "]"
                      /\ e.sub.pd = e.sub.vd
                      /\ Known(s.ds[e.id].d) =>
                           LET D == DataOf(s.ds[e.id].d)
                           IN  Holds(e.sub.vd, Canon(D.u, <<SubSeq(D.rows[e.i + 1], b + 1, z)>>))
  /\ e.op = "pt" /\ e.id \in Live(s) =>
       /\ e.ok = (/\ AddressOK(s.ds[e.id].n, s.ds[e.id].len, e.i, e.s, e.e)
                  /\ e.k \in 0..((IF e.s < 0 THEN s.ds[e.id].len ELSE e.e - e.s) - 1))
       /\ e.ok /\ Known(s.ds[e.id].d) =>
            LET D == DataOf(s.ds[e.id].d)
            IN  Holds(e.vd, Canon(D.u, << <<D.rows[e.i + 1][(IF e.s < 0 THEN 0 ELSE e.s) + e.k + 1]>> >>))
  /\ e.op = "dist" /\ e.id \in Live(s) /\ e.q \in Live(s) =>
       LET qok == AddressOK(s.ds[e.q].n, s.ds[e.q].len, e.qi, e.qs, e.qe)
           ql == IF e.qs < 0 /\ e.qe < 0 THEN s.ds[e.q].len ELSE e.qe - e.qs
           whole == e.s < 0 /\ e.s + e.l < 0
           aok == AddressOK(s.ds[e.id].n, s.ds[e.id].len, e.i, e.s, e.s + e.l)
           al == IF whole THEN s.ds[e.id].len ELSE e.l
       IN  /\ e.ok = (qok /\ aok /\ e.dist \in Distances /\ (e.dist = "euclidean" => al = ql))
           /\ e.ok /\ Known(s.ds[e.id].d) /\ Known(s.ds[e.q].d) =>
                LET A == DataOf(s.ds[e.id].d)  B == DataOf(s.ds[e.q].d)
                    u == LCM(A.u, B.u)
                    a == Scale(IF whole THEN A.rows[e.i + 1] ELSE SubSeq(A.rows[e.i + 1], e.s + 1, e.s + e.l), u \div A.u)
                    b == Scale(IF e.qs < 0 THEN B.rows[e.qi + 1] ELSE SubSeq(B.rows[e.qi + 1], e.qs + 1, e.qe), u \div B.u)
                IN  u <= UMax /\ CostFits(A, u, al + ql) /\ CostFits(B, u, al + ql) =>
                      IF e.dist = "euclidean" THEN IsPairwise(e.d, SqDist(a, b), al, u)
                      ELSE IsWarped(e.d, Warped(a, b, s.rn, s.rd), Max2(al, ql), u)

-----------------------------------------------------------------------------
(* What a step leaves behind besides the datasets *)
Empty == [ds |-> [i \in {} |-> 0], rn |-> 1, rd |-> 10, files |-> [p \in {} |-> 0], memo |-> {}, loaded |-> {}]
Put(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]
Drop(f, S) == [j \in DOMAIN f \ S |-> f[j]]

FilesAfter(s, e) ==
  CASE e.op = "save" /\ e.ok /\ e.id \in Live(s) ->
         Put(s.files, e.path, [kind |-> "data", sep |-> e.sep, d |-> s.ds[e.id].d, n |-> s.ds[e.id].n, len |-> s.ds[e.id].len])
    [] e.op = "sgroup" /\ e.ok /\ e.id \in Live(s) ->
         Put(s.files, e.path, IF e.short THEN [kind |-> "short"]
                              ELSE [kind |-> "groups", g |-> s.ds[e.id].g, n |-> s.ds[e.id].n, len |-> s.ds[e.id].len])
    [] e.op \in {"save", "sgroup"} /\ ~e.ok -> Put(s.files, e.path, [kind |-> "broken"])
    [] e.op = "edit" -> Put(s.files, e.path, [kind |-> "broken"])      \* the harness changed the file
    [] OTHER -> s.files

Changes(e) == e.op \notin Queries /\ e.ok
MemoAfter(s, e) == IF Changes(e) THEN {}
                   ELSE IF e.op = "match" THEN s.memo \cup {<<MatchKey(e), Answer(e)>>} ELSE s.memo
LoadedAfter(s, e) ==
  CASE e.op = "lgroup" /\ e.ok -> s.loaded \cup {e.id}
    [] e.op \in {"group", "norm", "paa", "unload", "reset", "clear", "del"} /\ e.ok -> s.loaded \ {e.id}
    [] e.op = "unloadall" -> {}
    [] e.op = "load" /\ e.ok -> s.loaded \ {e.info.id}
    [] OTHER -> s.loaded
=============================================================================
