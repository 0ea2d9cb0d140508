------------------------------- MODULE MCHeap -------------------------------
(* The value semantics of series on all small programs (C23, C17).  What the design in Heap.tla must give, said without
   reference to it: series that own their points share them with nobody, and nothing but writing to a series (or to the buffer
   it is a view of) changes what it shows.  Every transition is a program that is replayed into the code (Emit). *)
EXTENDS Heap, Json

CONSTANTS K,            \* slots
          MaxDepth, Emit

VARIABLES st, hist, verdict
vars == <<st, hist, verdict>>

Bufs == {1}
NextFree(s) == CHOOSE k \in 0..Cardinality(K) : k \notin DOMAIN s.ts /\ \A j \in 0..(k - 1) : j \in DOMAIN s.ts
LiveS(s) == DOMAIN s.ts
InBuf(s, b, x, y) == b \in DOMAIN s.mem /\ 0 <= x /\ x < y /\ y <= Len(s.mem[b])
Overlap(s, k, j) == /\ s.ts[k].b = s.ts[j].b /\ s.ts[k].s < s.ts[j].e /\ s.ts[j].s < s.ts[k].e

Ops(s) ==
  LET n == NextFree(s)
      new == Cardinality(LiveS(s)) < Cardinality(K)
  IN       (IF new THEN {[op |-> "own", k |-> n, v |-> v] : v \in {<<4>>, <<1, 3>>}} \cup {[op |-> "zero", k |-> n, n |-> 2]} ELSE {})
      \cup (IF Bufs \subseteq DOMAIN s.mem THEN {} ELSE {[op |-> "buf", b |-> 1, v |-> <<5, 2, 7>>]})
      \cup (IF new /\ Bufs \subseteq DOMAIN s.mem
            THEN {[op |-> "view", k |-> n, b |-> 1, i |-> 6, s |-> x[1], e |-> x[2]] : x \in {<<0, 2>>, <<1, 3>>, <<1, 2>>}} \cup {[op |-> "whole", k |-> n, b |-> 1]}
            ELSE {})
      \cup (IF new THEN {[op |-> "copy", k |-> n, j |-> j] : j \in LiveS(s)} ELSE {})
      \cup {[op |-> o, k |-> k, j |-> j] : o \in {"asg", "mov"}, k \in LiveS(s), j \in LiveS(s)}
      \* adding a series to an overlapping one is not defined (unless it is the same)
      \cup {[op |-> "add", k |-> kj[1], j |-> kj[2]] : kj \in {x \in LiveS(s) \X LiveS(s) : x[1] = x[2] \/ ~Overlap(s, x[1], x[2])}}
      \cup {[op |-> "set", k |-> k, p |-> p, x |-> 9] : k \in LiveS(s), p \in {-1, 0, 1, 3}}
      \cup {[op |-> "get", k |-> k, p |-> p] : k \in LiveS(s), p \in {0, 2}}
      \cup (IF 1 \in DOMAIN s.mem THEN {[op |-> "setbuf", b |-> 1, p |-> 1, x |-> 8]} ELSE {})
      \cup {[op |-> "del", k |-> k] : k \in LiveS(s)}
      \cup {[op |-> "env", k |-> k, r |-> 1] : k \in {j \in LiveS(s) : LenOf(s.ts[j]) > 0}}

Writes == {"set", "add"}
Replaces == {"asg", "mov", "own", "zero", "view", "whole", "copy"}
\* Whether operation e may change what slot k shows
MayChange(s, e, k) ==
  \/ e.op \in Replaces \cup Writes \cup {"del"} /\ e.k = k
  \/ e.op \in Writes /\ e.k \in LiveS(s) /\ Overlap(s, e.k, k) /\ ~s.ts[k].own
  \/ e.op = "setbuf" /\ ~s.ts[k].own /\ s.ts[k].b = e.b /\ e.p >= s.ts[k].s /\ e.p < s.ts[k].e

Right(s, e, r) ==
  LET t == r.st
  IN  \* nobody else is affected
      /\ \A k \in LiveS(s) : ~MayChange(s, e, k) => k \in LiveS(t) /\ Shown(t)[k] = Shown(s)[k]
      /\ ~r.ok => Shown(t) = Shown(s)
      \* what the operations give
      /\ e.op \in {"copy", "asg", "mov"} => Shown(t)[e.k] = Shown(s)[e.j]
      /\ e.op = "set" /\ r.ok => Points(t, e.k)[e.p + 1] = e.x
      /\ e.op = "add" /\ r.ok => \A p \in 1..LenOf(s.ts[e.k]) : Points(t, e.k)[p] = Points(s, e.k)[p] + Points(s, e.j)[p]
      /\ e.op \in {"set", "get"} => r.ok = (e.p \in 0..(LenOf(s.ts[e.k]) - 1))
      /\ e.op = "add" => r.ok = (LenOf(s.ts[e.k]) = LenOf(s.ts[e.j]))

Init == st = EmptyHeap /\ hist = <<>> /\ verdict = TRUE
Next == /\ Len(hist) < MaxDepth
        /\ \E e \in Ops(st) : LET r == Step(st, e)
                              IN  /\ st' = r.st
                                  /\ hist' = Append(hist, e)
                                  /\ verdict' = Right(st, e, r)
                                  /\ Emit => PrintT("@" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

ValuesAreValues == verdict
OwnersAlone == \A k, j \in LiveS(st) : st.ts[k].own /\ j # k => st.ts[j].b # st.ts[k].b
NothingDangles == \A k \in LiveS(st) : /\ st.ts[k].b \in DOMAIN st.mem
                                       /\ st.ts[k].s <= st.ts[k].e /\ st.ts[k].e <= Len(st.mem[st.ts[k].b])
NothingLeaks == \A b \in DOMAIN st.mem : b \in Bufs \/ \E k \in LiveS(st) : st.ts[k].b = b
\* A stale envelope is only ever one that was asked for before points were written elsewhere
StaleOnlyIfAsked == \A k \in LiveS(st) : st.ts[k].stale => st.ts[k].asked
\* Buffer numbers do not matter
View == <<[k \in LiveS(st) |-> [st.ts[k] EXCEPT !.b = IF @ \in Bufs THEN @ ELSE 0]], [k \in LiveS(st) |-> st.mem[st.ts[k].b]],
          IF 1 \in DOMAIN st.mem THEN st.mem[1] ELSE <<>>, verdict>>
=============================================================================
