------------------------------ MODULE GroupFile ------------------------------
(* Group files, as sequences of whitespace-separated tokens:
   [k |-> "i", v |-> integer], [k |-> "f"] other number, [k |-> "w", w |-> text].

     1 threshold itemCount itemLength
     2 itemLength+1
     distance
     for every length l from 2 to itemLength:
       number of groups; for every group: the l values of its representative, its size, and that many (series, start) *)
EXTENDS Grouping

Distances == {"euclidean", "euclidean_dtw"}

IsI(toks, p) == p <= Len(toks) /\ toks[p].k = "i"
IsN(toks, p) == p <= Len(toks) /\ toks[p].k \in {"i", "f"}
IntAt(toks, p, v) == IsI(toks, p) /\ toks[p].v = v

HeaderOK(toks, n, L) ==
  /\ IntAt(toks, 1, 1) /\ IsN(toks, 2) /\ IntAt(toks, 3, n) /\ IntAt(toks, 4, L)
  /\ IntAt(toks, 5, 2) /\ IntAt(toks, 6, L + 1)
  /\ 7 <= Len(toks) /\ toks[7].k = "w" /\ toks[7].w \in Distances

\* Reads one group of length l at position st.p: st = [ok, p, gs]; rep kept as token positions
ReadGroup(toks, n, L, l, st) ==
  IF ~st.ok THEN st
  ELSE LET p == st.p
           fail == [st EXCEPT !.ok = FALSE]
       IN  IF ~(\A i \in 0..(l - 1) : IsN(toks, p + i)) \/ ~IsI(toks, p + l) THEN fail
           ELSE LET cnt == toks[p + l].v
                    at(j) == p + l + 1 + 2 * (j - 1)
                IN  IF cnt < 1 \/ cnt > n * L THEN fail
                    ELSE IF ~(\A j \in 1..cnt : IsI(toks, at(j)) /\ IsI(toks, at(j) + 1)) THEN fail
                    ELSE [ok |-> TRUE, p |-> p + l + 1 + 2 * cnt,
                          gs |-> Append(st.gs, [repAt |-> p, cnt |-> cnt,
                                                mem |-> [j \in 1..cnt |-> <<toks[at(j)].v, toks[at(j) + 1].v>>]])]

\* Every subsequence of the length is in exactly one group
CoversExactly(n, L, l, gs) ==
  LET all == FoldLeft(LAMBDA acc, k : acc \o gs[k].mem, <<>>, Ids(Len(gs)))
      S == {all[j] : j \in 1..Len(all)}
  IN  /\ Len(all) = n * (L - l + 1)
      /\ S = {<<i, s>> : i \in 0..(n - 1), s \in 0..(L - l)}

ReadLength(toks, n, L, l, st) ==
  IF ~st.ok THEN st
  ELSE IF ~IsI(toks, st.p) \/ toks[st.p].v < 0 \/ toks[st.p].v > n * L THEN [st EXCEPT !.ok = FALSE]
  ELSE LET r == FoldLeft(LAMBDA s, k : ReadGroup(toks, n, L, l, s),
                         [ok |-> TRUE, p |-> st.p + 1, gs |-> <<>>], Ids(toks[st.p].v))
       IN  IF ~r.ok \/ ~CoversExactly(n, L, l, r.gs) THEN [st EXCEPT !.ok = FALSE]
           ELSE [ok |-> TRUE, p |-> r.p, ls |-> Append(st.ls, r.gs)]

\* [ok, p, ls]: whether a dataset of n items of length L can load the file, and the groups read
ReadFile(toks, n, L) ==
  IF ~HeaderOK(toks, n, L) THEN [ok |-> FALSE, p |-> 1, ls |-> <<>>]
  ELSE FoldLeft(LAMBDA st, l : ReadLength(toks, n, L, l, st), [ok |-> TRUE, p |-> 8, ls |-> <<>>], From(2, L))

ValidFile(toks, n, L) == ReadFile(toks, n, L).ok

\* What the writer produces (values over denominator 1, threshold an integer): used on the model
WriteFile(D, thr, dist, ls) ==
  LET I(v) == [k |-> "i", v |-> v]
      grp(g) == [i \in 1..Len(g.rep) |-> I(g.rep[i])] \o <<I(g.cnt)>>
                \o FoldLeft(LAMBDA acc, c : acc \o <<I(c[1]), I(c[2])>>, <<>>, Reverse(g.mem))
      len(gs) == FoldLeft(LAMBDA acc, g : acc \o grp(g), <<I(Len(gs))>>, gs)
  IN  <<I(1), I(thr), I(NItems(D)), I(ItemLen(D)), I(2), I(ItemLen(D) + 1), [k |-> "w", w |-> dist]>>
      \o FoldLeft(LAMBDA acc, gs : acc \o len(gs), <<>>, ls)
=============================================================================
