-------------------------------- MODULE Heap --------------------------------
(* Series as values: cells of memory, owners and views.
   State: [mem |-> buffer id -> values, ts |-> slot -> series], a series
   [b |-> buffer, own |-> BOOLEAN, i, s, e |-> index, start, end, asked |-> an envelope was asked for since the series got its
   present points, stale |-> points were written behind its back after that].
   Buffers of owning series belong to them alone; buffers of views outlive them.
   An operation is a record with op and its arguments; Step gives [ok, st]. *)
EXTENDS Dist

EmptyHeap == [mem |-> [b \in {} |-> <<>>], ts |-> [k \in {} |-> 0], next |-> 1000]

Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Drop(f, S) == [j \in DOMAIN f \ S |-> f[j]]

LenOf(t) == t.e - t.s
Points(st, k) == LET t == st.ts[k] IN SubSeq(st.mem[t.b], t.s + 1, t.e)
Series(b, own, i, s, e) == [b |-> b, own |-> own, i |-> i, s |-> s, e |-> e, asked |-> FALSE, stale |-> FALSE]

\* After writing into buffer b other than by assigning or adding to slot k
Staled(ts, b, k) == [j \in DOMAIN ts |-> IF j # k /\ ts[j].b = b /\ ts[j].asked THEN [ts[j] EXCEPT !.stale = TRUE] ELSE ts[j]]
Renewed(t) == [t EXCEPT !.asked = FALSE, !.stale = FALSE]

\* A slot k that takes the value of series t: an owner gets its own copy, a view shows the same points
Take(st, k, t) ==
  LET old == IF k \in DOMAIN st.ts /\ st.ts[k].own THEN {st.ts[k].b} ELSE {}
  IN  IF t.own
      THEN [st EXCEPT !.mem = Put(Drop(st.mem, old), st.next, st.mem[t.b]),
                      !.ts = Put(st.ts, k, Series(st.next, TRUE, t.i, t.s, t.e)),
                      !.next = st.next + 1]
      ELSE [st EXCEPT !.mem = Drop(st.mem, old), !.ts = Put(st.ts, k, Series(t.b, FALSE, t.i, t.s, t.e))]

OK(st) == [ok |-> TRUE, st |-> st]
Refuse(st) == [ok |-> FALSE, st |-> st]

Step(st, e) ==
  CASE e.op = "own" -> OK([st EXCEPT !.mem = Put(st.mem, st.next, e.v), !.ts = Put(st.ts, e.k, Series(st.next, TRUE, 0, 0, Len(e.v))),
                                     !.next = st.next + 1])
    [] e.op = "zero" -> OK([st EXCEPT !.mem = Put(st.mem, st.next, [i \in 1..e.n |-> 0]),
                                      !.ts = Put(st.ts, e.k, Series(st.next, TRUE, 0, 0, e.n)), !.next = st.next + 1])
    [] e.op = "buf" -> OK([st EXCEPT !.mem = Put(st.mem, e.b, e.v)])
    [] e.op = "view" -> OK([st EXCEPT !.ts = Put(st.ts, e.k, Series(e.b, FALSE, e.i, e.s, e.e))])
    [] e.op = "whole" -> OK([st EXCEPT !.ts = Put(st.ts, e.k, Series(e.b, FALSE, 0, 0, Len(st.mem[e.b])))])
    [] e.op = "copy" -> OK(Take(st, e.k, st.ts[e.j]))
    [] e.op \in {"asg", "mov"} ->
         IF e.k = e.j /\ ~st.ts[e.k].own THEN OK([st EXCEPT !.ts[e.k] = IF e.op = "mov" THEN Renewed(@) ELSE @])
         ELSE IF e.k = e.j /\ e.op = "asg" THEN OK(st)
         ELSE OK(Take(st, e.k, st.ts[e.j]))
    [] e.op = "add" ->
         IF LenOf(st.ts[e.k]) # LenOf(st.ts[e.j]) THEN Refuse(st)
         ELSE LET t == st.ts[e.k]
                  x == Points(st, e.j)
                  y == [p \in 1..Len(st.mem[t.b]) |-> IF p > t.s /\ p <= t.e THEN st.mem[t.b][p] + x[p - t.s] ELSE st.mem[t.b][p]]
              IN  OK([st EXCEPT !.mem[t.b] = y, !.ts = [Staled(st.ts, t.b, e.k) EXCEPT ![e.k] = Renewed(@)]])
    [] e.op = "set" ->
         LET t == st.ts[e.k]
         IN  IF e.p < 0 \/ e.p >= LenOf(t) THEN Refuse(st)
             ELSE OK([st EXCEPT !.mem[t.b][t.s + e.p + 1] = e.x, !.ts = Staled(st.ts, t.b, -1)])
    [] e.op = "setbuf" -> OK([st EXCEPT !.mem[e.b][e.p + 1] = e.x, !.ts = Staled(st.ts, e.b, -1)])
    [] e.op = "get" -> IF e.p < 0 \/ e.p >= LenOf(st.ts[e.k]) THEN Refuse(st) ELSE OK(st)
    [] e.op = "del" -> OK([st EXCEPT !.mem = IF st.ts[e.k].own THEN Drop(st.mem, {st.ts[e.k].b}) ELSE @, !.ts = Drop(st.ts, {e.k})])
    [] e.op = "env" -> OK([st EXCEPT !.ts[e.k].asked = TRUE])
    [] OTHER -> OK(st)

\* What every slot shows
Shown(st) == [k \in DOMAIN st.ts |-> [i |-> st.ts[k].i, s |-> st.ts[k].s, e |-> st.ts[k].e, l |-> LenOf(st.ts[k]), v |-> Points(st, k)]]

\* Candidates: by distance, then series, start, length (distances as integers in some unit)
CandLess(p, q) ==
  \/ p.d < q.d
  \/ p.d = q.d /\ (p.i < q.i \/ (p.i = q.i /\ (p.s < q.s \/ (p.s = q.s /\ p.l < q.l))))

-----------------------------------------------------------------------------
P_C23(st, e) ==
  IF e.op = "cmp" THEN e.lt = CandLess(e.p, e.q) /\ e.gt = CandLess(e.q, e.p)
  ELSE LET r == Step(st, e)
       IN  /\ e.ok = r.ok
           /\ {x.k : x \in {e.slots[j] : j \in 1..Len(e.slots)}} = DOMAIN r.st.ts
           /\ Len(e.slots) = Cardinality(DOMAIN r.st.ts)
           /\ \A j \in 1..Len(e.slots) :
                LET x == e.slots[j]
                IN  [i |-> x.i, s |-> x.s, e |-> x.e, l |-> x.l, v |-> x.v] = Shown(r.st)[x.k]
           /\ e.op = "get" /\ e.ok => e.x = Points(st, e.k)[e.p + 1]

P_C17(st, e) ==
  e.op = "env" /\ ~st.ts[e.k].stale =>
    /\ e.ok
    /\ e.lo = EnvLower(Points(st, e.k), e.r)
    /\ e.up = EnvUpper(Points(st, e.k), e.r)
=============================================================================
