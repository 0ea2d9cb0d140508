------------------------------ MODULE MCGroup -------------------------------
(* Model checking of Grouping, Search and GroupFile on all small datasets: the one-pass algorithm gives groups as C09 to C11
   describe, the pruned search finds what C13 and C14 describe for any groups, and the file format round-trips (C18, C19). *)
EXTENDS GroupFile, Search, Json

CONSTANTS Vals, Shapes, Thrs, Ratios, Queried, Dists, Emit

Tables == UNION {[1..sh[1] -> [1..sh[2] -> Vals]] : sh \in Shapes}

VARIABLES rows, thr, ratio, dist, q, chosen
vars == <<rows, thr, ratio, dist, q, chosen>>
\* A table, then all there is to choose about it
Init == rows \in Tables /\ thr = <<0, 1>> /\ ratio = <<0, 1>> /\ dist = "" /\ q = <<>> /\ chosen = FALSE
Next == /\ ~chosen /\ chosen' = TRUE /\ rows' = rows
        /\ thr' \in Thrs /\ ratio' \in Ratios /\ dist' \in Dists /\ q' \in Queried
        /\ Emit => PrintT("@" \o ToJson([rows |-> rows, thr |-> thr', ratio |-> ratio', dist |-> dist', q |-> q']))
Spec == Init /\ [][Next]_vars

D == [u |-> 1, rows |-> rows]
L == ItemLen(D)
GA == GroupAll(D, thr[1], thr[2], dist, ratio[1], ratio[2])
H(l) == HalfThreshold(thr[1], thr[2], 1, l, dist)

GroupingIsRight ==
  chosen =>
  LET ls == GA
  IN  \A l \in 2..L :
        /\ Partition(D, l, ls[l-1])
        /\ \A k \in 1..Len(ls[l-1]) : RepIsMember(D, l, ls[l-1][k])
        /\ Radius(D, l, ls[l-1], H(l), dist, ratio[1], ratio[2])
        /\ Separation(l, ls[l-1], H(l), dist, ratio[1], ratio[2])
        /\ Greedy(D, l, ls[l-1], H(l), dist, ratio[1], ratio[2])

\* C14's consequence: a query equal to a representative is matched at distance 0
RepresentativesMatch(ls) ==
  \A l \in 2..L : \A k \in 1..Len(ls[l-1]) : LET m == BestMatch(D, ls[l-1][k].rep, ls, ratio[1], ratio[2]) IN m.ok /\ m.c = 0

SearchIsRight ==
  chosen =>
  LET ls == GA
      m == BestMatch(D, q, ls, ratio[1], ratio[2])
  IN  /\ m.ok = (Len(q) >= 2 /\ Allowed(Len(q), L, ratio[1], ratio[2]) # {})
      /\ m.ok => /\ MatchOK(D, q, ls, m.i, m.s, m.l, ratio[1], ratio[2])
                 /\ m.c = Warped(Sub(D, <<m.i, m.s>>, m.l), q, ratio[1], ratio[2])
      /\ RepresentativesMatch(ls)

\* The lengths visited are exactly the allowed ones, each once
OrderIsRight ==
  LET o == TraverseOrder(Len(q), L, ratio[1], ratio[2])
  IN  chosen /\ Len(q) >= 2 => /\ {o[k] : k \in 1..Len(o)} = Allowed(Len(q), L, ratio[1], ratio[2])
                     /\ Cardinality({o[k] : k \in 1..Len(o)}) = Len(o)

FileRoundTrip ==
  chosen =>
  LET ls == GA
      f == WriteFile(D, thr[1], dist, ls)
      R == ReadFile(f, NItems(D), L)
  IN  /\ R.ok /\ R.p = Len(f) + 1
      /\ Len(R.ls) = Len(ls)
      /\ \A k \in 1..Len(ls) : /\ Len(R.ls[k]) = Len(ls[k])
                               /\ \A j \in 1..Len(ls[k]) :
                                    /\ R.ls[k][j].cnt = ls[k][j].cnt
                                    /\ R.ls[k][j].mem = Reverse(ls[k][j].mem)
                                    /\ [i \in 1..(k + 1) |-> f[R.ls[k][j].repAt + i - 1].v] = ls[k][j].rep
      \* no proper prefix is accepted, nor is the file for another shape
      /\ L >= 2 => \A n \in 0..(Len(f) - 1) : ~ValidFile(SubSeq(f, 1, n), NItems(D), L)
      /\ ~ValidFile(f, NItems(D) + 1, L) /\ ~ValidFile(f, NItems(D), L + 1)
MCQ1 == {<<0>>}
MCQ2 == UNION {[1..k -> Vals] : k \in 1..2}
MCQ3 == UNION {[1..k -> Vals] : k \in 2..3}
MCShapes1 == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>}
MCShapes4 == {<<1, 4>>, <<2, 3>>}
MCThrs1 == {<<1, 1>>, <<3, 1>>}
MCRatios2 == {<<0, 1>>, <<1, 2>>}
MCRatios == {<<0, 1>>, <<1, 2>>, <<1, 1>>}
MCThrs == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>}
MCShapes == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>, <<1, 4>>}
MCShapes2 == {<<2, 3>>, <<3, 2>>}
=============================================================================
