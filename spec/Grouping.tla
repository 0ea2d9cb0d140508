------------------------------ MODULE Grouping ------------------------------
(* Groups of subsequences of one length.  A dataset is D = [u, rows]; a subsequence of length l is addressed by its
   coordinates <<i, s>> (series, start), from 0.  A grouping of a length is a sequence of groups
   [rep |-> values, cnt |-> recorded size, mem |-> sequence of coordinates], values over the denominator u of the data. *)
EXTENDS Dist

NItems(D) == Len(D.rows)
ItemLen(D) == IF D.rows = <<>> THEN 0 ELSE Len(D.rows[1])
Starts(D, l) == ItemLen(D) - l + 1
Sub(D, c, l) == SubSeq(D.rows[c[1] + 1], c[2] + 1, c[2] + l)

\* All coordinates of a length in the order of processing: by start, then by series
Coords(D, l) == [k \in 1..(NItems(D) * Starts(D, l)) |-> <<(k - 1) % NItems(D), (k - 1) \div NItems(D)>>]
CoordSet(D, l) == {<<i, s>> : i \in 0..(NItems(D) - 1), s \in 0..(Starts(D, l) - 1)}
Pos(D, c) == c[2] * NItems(D) + c[1]

-----------------------------------------------------------------------------
(* Half the threshold tn/td as a bound on integer costs of subsequences of length l over denominator u.
   [lim |-> greatest cost within half the threshold, tie |-> that cost is exactly at half the threshold,
    hard |-> an exact tie is decided exactly by floating point too (powers of two only)] *)
RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE IF n % 2 = 1 THEN FALSE ELSE IsPow2(n \div 2)

HalfThresholdSmall(tn, td, u, l, dist) ==
  LET g == GCD(tn * u, 2 * td)
      p == (tn * u) \div g        \* threshold/2 * u = p/q
      q == (2 * td) \div g
      \* pairwise: cost/l <= (p/q)^2;  warped: sqrt(cost)/(2l) <= p/q
      k == IF dist = "euclidean" THEN l ELSE 4 * l * l
  IN  [lim |-> (p * p * k) \div (q * q),
       tie |-> (p * p * k) % (q * q) = 0,
       hard |-> IsPow2(u) /\ IsPow2(q) /\ IsPow2(l)]

\* Products above must fit into 32 bits
HalfThresholdFits(tn, td, u, l, dist) ==
  /\ tn < 100000 /\ td < 100000 /\ tn * u < 20000000 /\ u < 20000
  /\ LET g == GCD(tn * u, 2 * td)
         p == (tn * u) \div g
         q == (2 * td) \div g
         k == IF dist = "euclidean" THEN l ELSE 4 * l * l
     IN  q < 40000 /\ p < 40000 /\ (p = 0 \/ p * p <= 2000000000 \div k)

\* Otherwise the greatest cost is searched for with big naturals: cost * (2 td)^2 <= (tn u)^2 k
RECURSIVE GreatestUnder(_, _, _, _)
GreatestUnder(lo, hi, den, num) ==
  IF lo = hi THEN lo
  ELSE LET mid == lo + (hi - lo + 1) \div 2
       IN  IF BLeq(BMul(den, Big(mid)), num) THEN GreatestUnder(mid, hi, den, num) ELSE GreatestUnder(lo, mid - 1, den, num)

HalfThresholdBig(tn, td, u, l, dist) ==
  LET a == BMul(Big(tn), Big(u))
      d == BMul(Big(2), Big(td))
      num == BMul(BMul(a, a), IF dist = "euclidean" THEN Big(l) ELSE Big(4 * l * l))
      den == BMul(d, d)
      lim == GreatestUnder(0, 2000000000, den, num)
  IN  [lim |-> lim, tie |-> BMul(den, Big(lim)) = num, hard |-> FALSE]

HalfThreshold(tn, td, u, l, dist) ==
  IF HalfThresholdFits(tn, td, u, l, dist) THEN HalfThresholdSmall(tn, td, u, l, dist) ELSE HalfThresholdBig(tn, td, u, l, dist)

GDist(a, b, dist, rn, rd) == IF dist = "euclidean" THEN SqDist(a, b) ELSE Warped(a, b, rn, rd)

\* cost c is within half the threshold h / beyond it (at an exact tie that rounding may decide, both)
Within(c, h) == c <= h.lim
Beyond(c, h) == IF h.tie /\ ~h.hard THEN c >= h.lim ELSE c > h.lim
WithinSoft(c, h) == c <= h.lim      \* exact ties always count as within: equality holds or rounds to either side
-----------------------------------------------------------------------------
(* C09: exactly a partition, with right sizes *)
MemberCount(gs) == SeqSum([k \in 1..Len(gs) |-> Len(gs[k].mem)])
Partition(D, l, gs) ==
  /\ MemberCount(gs) = NItems(D) * Starts(D, l)
  /\ UNION {{gs[k].mem[j] : j \in 1..Len(gs[k].mem)} : k \in 1..Len(gs)} = CoordSet(D, l)
  /\ \A k \in 1..Len(gs) : gs[k].cnt = Len(gs[k].mem) /\ gs[k].cnt > 0

InRange(D, l, gs) == \A k \in 1..Len(gs) : \A j \in 1..Len(gs[k].mem) :
                       /\ gs[k].mem[j][1] \in 0..(NItems(D) - 1)
                       /\ gs[k].mem[j][2] \in 0..(Starts(D, l) - 1)

(* C10: radius and separation *)
RepIsMember(D, l, g) == \E j \in 1..Len(g.mem) : Sub(D, g.mem[j], l) = g.rep
Radius(D, l, gs, h, dist, rn, rd) ==
  \A k \in 1..Len(gs) : \A j \in 1..Len(gs[k].mem) :
      Within(GDist(gs[k].rep, Sub(D, gs[k].mem[j], l), dist, rn, rd), h)
Separation(l, gs, h, dist, rn, rd) ==
  \A k \in 1..Len(gs) : \A j \in (k + 1)..Len(gs) : Beyond(GDist(gs[k].rep, gs[j].rep, dist, rn, rd), h)

(* C11: every subsequence is with the nearest representative of the groups founded before it, if near enough *)
Founder(D, g) == g.mem[CHOOSE j \in 1..Len(g.mem) : \A i \in 1..Len(g.mem) : Pos(D, g.mem[j]) <= Pos(D, g.mem[i])]

Greedy(D, l, gs, h, dist, rn, rd) ==
  LET F == [k \in 1..Len(gs) |-> Pos(D, Founder(D, gs[k]))]
      R == [k \in 1..Len(gs) |-> Sub(D, Founder(D, gs[k]), l)]
  IN  \A k \in 1..Len(gs) :
        /\ gs[k].rep = R[k]
        /\ \A j \in 1..Len(gs[k].mem) :
             LET c == gs[k].mem[j]
                 p == Pos(D, c)
                 x == Sub(D, c, l)
                 before == {m \in 1..Len(gs) : F[m] < p}
             IN  IF p = F[k]
                 THEN \A m \in before : Beyond(GDist(R[m], x, dist, rn, rd), h)
                 ELSE LET own == GDist(R[k], x, dist, rn, rd)
                      IN  /\ Within(own, h)
                          /\ \A m \in before : own <= GDist(R[m], x, dist, rn, rd)

-----------------------------------------------------------------------------
(* The algorithm: one subsequence at a time.  Ties go to the earliest group (what the code does). *)
PlaceOne(gs, D, l, c, h, dist, rn, rd) ==
  LET x == Sub(D, c, l)
      best == FoldLeft(LAMBDA acc, k :
                         LET d == GDist(gs[k].rep, x, dist, rn, rd)
                         IN  IF acc.k = 0 \/ d < acc.d THEN [k |-> k, d |-> d] ELSE acc,
                       [k |-> 0, d |-> 0], Ids(Len(gs)))
  IN  IF best.k = 0 \/ ~Within(best.d, h)
      THEN Append(gs, [rep |-> x, cnt |-> 1, mem |-> <<c>>])
      ELSE [gs EXCEPT ![best.k].cnt = @ + 1, ![best.k].mem = Append(@, c)]

GroupLength(D, l, tn, td, dist, rn, rd) ==
  LET h == HalfThreshold(tn, td, D.u, l, dist)
  IN  FoldLeft(LAMBDA gs, c : PlaceOne(gs, D, l, c, h, dist, rn, rd), <<>>, Coords(D, l))

\* All lengths: entry l-1 for length l
GroupAll(D, tn, td, dist, rn, rd) ==
  [k \in 1..(Max2(ItemLen(D), 1) - 1) |-> GroupLength(D, k + 1, tn, td, dist, rn, rd)]

GroupTotal(ls) == SeqSum([k \in 1..Len(ls) |-> Len(ls[k])])
=============================================================================
