------------------------------- MODULE Lemire -------------------------------
(* The streaming computation of both envelopes with two monotone deques of positions (what the code runs), positions from 1.
   Queues are sequences, oldest position first; ok records that nothing is taken from an empty queue and that no queue ever
   holds more than its capacity. *)
EXTENDS Dist

Newest(q) == q[Len(q)]
Oldest(q) == q[1]
PopBack(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE PopWorse(_, _, _, _)
PopWorse(q, t, i, up) == IF q = <<>> \/ ~(IF up THEN t[i] > t[Newest(q)] ELSE t[i] < t[Newest(q)]) THEN q ELSE PopWorse(PopBack(q), t, i, up)

LemireStep(st, t, r, i) ==      \* i >= 2
  LET ok1 == st.du # <<>> /\ st.dl # <<>>
      emit == i - 1 > r
      st1 == IF emit /\ ok1 THEN [st EXCEPT !.up[i - r - 1] = t[Oldest(st.du)], !.lo[i - r - 1] = t[Oldest(st.dl)]] ELSE st
      rising == t[i] > t[i - 1]
      du1 == Append(IF rising THEN PopWorse(PopBack(st1.du), t, i, TRUE) ELSE st1.du, i)
      dl1 == Append(IF rising THEN st1.dl ELSE PopWorse(PopBack(st1.dl), t, i, FALSE), i)
      fits == Len(du1) <= 2 * r + 2 /\ Len(dl1) <= 2 * r + 2
      oldU == i = 2 * r + 1 + Oldest(du1)
      oldL == ~oldU /\ i = 2 * r + 1 + Oldest(dl1)
  IN  IF ~ok1 THEN [st EXCEPT !.ok = FALSE]
      ELSE [st1 EXCEPT !.du = IF oldU THEN Tail(du1) ELSE du1, !.dl = IF oldL THEN Tail(dl1) ELSE dl1, !.ok = @ /\ fits]

LemireFlush(st, t, r, i) ==     \* i from Len(t)+1 to Len(t)+r+1
  IF st.du = <<>> \/ st.dl = <<>> \/ i - r - 1 < 1 THEN [st EXCEPT !.ok = FALSE]
  ELSE LET st1 == [st EXCEPT !.up[i - r - 1] = t[Oldest(st.du)], !.lo[i - r - 1] = t[Oldest(st.dl)]]
       IN  [st1 EXCEPT !.du = IF i - Oldest(@) >= 2 * r + 1 THEN Tail(@) ELSE @,
                       !.dl = IF i - Oldest(@) >= 2 * r + 1 THEN Tail(@) ELSE @]

\* r < Len(t)
LemireEnv(t, r) ==
  LET none == [i \in 1..Len(t) |-> -999]
      st0 == [du |-> <<1>>, dl |-> <<1>>, lo |-> none, up |-> none, ok |-> TRUE]
      st1 == FoldLeft(LAMBDA st, i : LemireStep(st, t, r, i), st0, From(2, Len(t)))
  IN  FoldLeft(LAMBDA st, i : LemireFlush(st, t, r, i), st1, From(Len(t) + 1, Len(t) + r + 1))
=============================================================================
