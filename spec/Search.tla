------------------------------- MODULE Search -------------------------------
(* Best match of a query in a grouped dataset. *)
EXTENDS Grouping

\* Lengths that can be matched with a query of length q in a dataset of item length L
Allowed(q, L, rn, rd) == {l \in 2..L : Abs(l - q) <= Band(Max2(l, q), rn, rd)}

\* A warped distance is sqrt(c)/(2 M u): compare c1/M1^2 with c2/M2^2
WLess(c1, m1, c2, m2) == IF m1 = m2 THEN c1 < c2 ELSE CmpProd(c1, m2 * m2, c2, m1 * m1) < 0
WLeq(c1, m1, c2, m2) == ~WLess(c2, m2, c1, m1)

(* C14, declaratively: (i,s,l) is the nearest member of a group whose representative is nearest. *)
RepCosts(q, ls, L, rn, rd) ==
  [l \in Allowed(Len(q), L, rn, rd) |-> [k \in 1..Len(ls[l-1]) |-> Warped(ls[l-1][k].rep, q, rn, rd)]]

OwnGroup(ls, i, s, l) == {k \in 1..Len(ls[l-1]) : \E j \in 1..Len(ls[l-1][k].mem) : ls[l-1][k].mem[j] = <<i, s>>}

MatchOK(D, q, ls, i, s, l, rn, rd) ==
  LET L == ItemLen(D)
      costs == RepCosts(q, ls, L, rn, rd)
  IN  /\ l \in DOMAIN costs
      /\ \E k \in OwnGroup(ls, i, s, l) :
           LET own == costs[l][k]
           IN  /\ \A j \in 1..Len(costs[l]) : own <= costs[l][j]
               /\ \A l2 \in DOMAIN costs \ {l} :
                    costs[l2] = <<>> \/ WLeq(own, Max2(l, Len(q)), SeqMin(costs[l2]), Max2(l2, Len(q)))
               /\ LET d == Warped(Sub(D, <<i, s>>, l), q, rn, rd)
                  IN  \A j \in 1..Len(ls[l-1][k].mem) :
                        d <= Warped(Sub(D, ls[l-1][k].mem[j], l), q, rn, rd)

-----------------------------------------------------------------------------
(* The algorithm: lengths in traverse order, groups in order, with the best distance so far as the cutoff; every
   distance is the cascade: Keogh bound one way, the other way, then abandoning dynamic programming. *)

RECURSIVE Lows(_, _, _, _, _)
RECURSIVE Highs(_, _, _, _, _)
Lows(low, q, L, rn, rd) ==      \* stops at the first length out of the band
  IF low < 2 \/ low + Band(q, rn, rd) < q THEN <<>>
  ELSE (IF low <= L THEN <<low>> ELSE <<>>) \o Lows(low - 1, q, L, rn, rd)
Highs(high, q, L, rn, rd) ==
  IF high > L \/ q + Band(high, rn, rd) < high THEN <<>>
  ELSE <<high>> \o Highs(high + 1, q, L, rn, rd)
RECURSIVE Alternate(_, _)
Alternate(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                    ELSE <<a[1], b[1]>> \o Alternate(Tail(a), Tail(b))
TraverseOrder(q, L, rn, rd) ==
  (IF q <= L THEN <<q>> ELSE <<>>) \o Alternate(Lows(q - 1, q, L, rn, rd), Highs(q + 1, q, L, rn, rd))

\* Cost c over longer length m is beyond the cutoff [c, m] (c = INFC: no cutoff)
BeyondCut(c, m, cut) == cut.c < INFC /\ WLess(cut.c, cut.m, c, m)

\* Dynamic programming that gives up after a row whose least value is beyond the cutoff
AbandoningDTW(a, b, r, m, cut) ==
  LET step(st, i) == IF st.stop THEN st
                     ELSE LET row == DTWNextRow(st.row, a, b, i, r)
                          IN  [row |-> row, stop |-> BeyondCut(RowMin(row), m, cut)]
      st == FoldLeft(step, [row |-> DTWRow1(a, b, r), stop |-> FALSE], From(2, Len(a)))
  IN  IF st.stop THEN INFC ELSE st.row[Len(b)]

Cascade(a, b, rn, rd, cut) ==
  LET m == Max2(Len(a), Len(b))
      r == Band(m, rn, rd)
  IN  IF BeyondCut(Keogh(a, b, r), m, cut) \/ BeyondCut(Keogh(b, a, r), m, cut) THEN INFC
      ELSE AbandoningDTW(a, b, r, m, cut)

SearchGroups(q, ls, order, rn, rd) ==
  FoldLeft(LAMBDA best, l :
             FoldLeft(LAMBDA b, k :
                        LET c == Cascade(ls[l-1][k].rep, q, rn, rd, b)
                            m == Max2(l, Len(q))
                        IN  IF c < INFC /\ (b.c >= INFC \/ WLess(c, m, b.c, b.m))
                            THEN [c |-> c, m |-> m, l |-> l, k |-> k] ELSE b,
                      best, Ids(Len(ls[l-1]))),
           [c |-> INFC, m |-> 1, l |-> 0, k |-> 0], order)

\* Members are visited newest first
SearchMembers(D, q, g, l, rn, rd) ==
  FoldLeft(LAMBDA b, c :
             LET d == Cascade(q, Sub(D, c, l), rn, rd, b)
                 m == Max2(l, Len(q))
             IN  IF d < INFC /\ (b.c >= INFC \/ d < b.c) THEN [c |-> d, m |-> m, at |-> c] ELSE b,
           [c |-> INFC, m |-> 1, at |-> <<-1, -1>>], Reverse(g.mem))

\* [ok, i, s, l, c] as the code computes it
BestMatch(D, q, ls, rn, rd) ==
  LET none == [ok |-> FALSE, i |-> 0, s |-> 0, l |-> 0, c |-> 0]
  IN  IF Len(q) <= 1 THEN none
      ELSE LET b == SearchGroups(q, ls, TraverseOrder(Len(q), ItemLen(D), rn, rd), rn, rd)
           IN  IF b.k = 0 THEN none
               ELSE LET r == SearchMembers(D, q, ls[b.l - 1][b.k], b.l, rn, rd)
                    IN  [ok |-> TRUE, i |-> r.at[1], s |-> r.at[2], l |-> b.l, c |-> r.c]
=============================================================================
