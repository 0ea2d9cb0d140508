-------------------------------- MODULE Dist --------------------------------
(* Distances between series of integers (numerators over a common denominator), before the final root and scaling.
   Pairwise distance of length L over denominator u:  sqrt(SqDist / L) / u.
   Warped distance with longer length M:              sqrt(DTW) / (2 M u). *)
EXTENDS Arith

INFC == 1073741824      \* "no alignment": larger than every cost that is compared

Sq(x) == x * x

SqDist(a, b) == FoldLeft(LAMBDA acc, i : acc + Sq(a[i] - b[i]), 0, Ids(Len(a)))

\* Band for series whose longer length is len; the ratio is the rational rn/rd
Band(len, rn, rd) == Min2((len * rn) \div rd, len - 1)

\* Longer series m, shorter n: is there any alignment within the band?
Alignable(m, n, rn, rd) == Abs(m - n) <= Band(Max2(m, n), rn, rd)

-----------------------------------------------------------------------------
(* Definition: least total over all monotone alignments (warping paths) within the band.
   A path is a sequence of cells from <<1,1>> to <<m,n>>, each step advancing one or both indices by one. *)
RECURSIVE PathsTo(_, _, _)
PathsTo(i, j, r) ==
  IF i < 1 \/ j < 1 \/ Abs(i - j) > r THEN {}
  ELSE IF i = 1 /\ j = 1 THEN {<< <<1, 1>> >>}
  ELSE {Append(p, <<i, j>>) : p \in PathsTo(i-1, j, r) \cup PathsTo(i, j-1, r) \cup PathsTo(i-1, j-1, r)}

PathCost(a, b, p) == FoldLeft(LAMBDA acc, c : acc + Sq(a[c[1]] - b[c[2]]), 0, p)

DTWDef(a, b, r) ==
  LET costs == {PathCost(a, b, p) : p \in PathsTo(Len(a), Len(b), r)}
  IN  IF costs = {} THEN INFC ELSE CHOOSE c \in costs : \A d \in costs : c <= d

-----------------------------------------------------------------------------
(* The same by dynamic programming, row by row (what the code does, without abandoning). *)
DTWRow1(a, b, r) ==
  FoldLeft(LAMBDA cur, j : Append(cur, IF j - 1 > r THEN INFC
                                       ELSE (IF j = 1 THEN 0 ELSE cur[j-1]) + Sq(a[1] - b[j])),
           <<>>, Ids(Len(b)))

DTWNextRow(prev, a, b, i, r) ==
  FoldLeft(LAMBDA cur, j :
             Append(cur,
                    IF Abs(i - j) > r THEN INFC
                    ELSE LET best == IF j = 1 THEN prev[1] ELSE Min3(prev[j], prev[j-1], cur[j-1])
                         IN  IF best >= INFC THEN INFC ELSE best + Sq(a[i] - b[j])),
           <<>>, Ids(Len(b)))

DTW(a, b, r) ==
  LET last == FoldLeft(LAMBDA prev, i : DTWNextRow(prev, a, b, i, r), DTWRow1(a, b, r), From(2, Len(a)))
  IN  last[Len(b)]

Warped(a, b, rn, rd) == DTW(a, b, Band(Max2(Len(a), Len(b)), rn, rd))

\* Least value of each row of the cost matrix: early abandoning stops when it exceeds the cutoff
RowMin(row) == SeqMin(row)

-----------------------------------------------------------------------------
(* Envelopes and the lower bounds built on them. *)
EnvLower(t, r) == [i \in 1..Len(t) |-> SeqMin(SubSeq(t, Max2(1, i - r), Min2(Len(t), i + r)))]
EnvUpper(t, r) == [i \in 1..Len(t) |-> SeqMax(SubSeq(t, Max2(1, i - r), Min2(Len(t), i + r)))]

\* One-sided bound: points of b outside the envelope of a
Keogh(a, b, r) ==
  LET lo == EnvLower(a, r)  up == EnvUpper(a, r)
  IN  FoldLeft(LAMBDA acc, i : acc + (IF b[i] > up[i] THEN Sq(b[i] - up[i])
                                      ELSE IF b[i] < lo[i] THEN Sq(b[i] - lo[i]) ELSE 0),
               0, Ids(Min2(Len(a), Len(b))))

-----------------------------------------------------------------------------
(* Comparisons of distances as the code returns them: a distance is logged as an interval of its square,
   [lo, hi] * 10^-e  (lo, hi big naturals, e a natural number), or as infinite. *)
Pow10(e) == BNorm([i \in 1..(e \div 4 + 1) |-> IF i <= e \div 4 THEN 0 ELSE 10^(e % 4)])

\* num / den (naturals) lies in the interval; on the model, a distance has an exact square lo/of instead
RatIn(num, den, d) ==
  IF "of" \in DOMAIN d THEN BMul(num, d.of) = BMul(d.lo, den)
  ELSE LET x == BMul(num, Pow10(d.e)) IN BLeq(BMul(d.lo, den), x) /\ BLeq(x, BMul(d.hi, den))

IsInf(d) == d.inf
\* The logged distance is sqrt(c / (L u^2))
IsPairwise(d, c, len, u) == ~d.inf /\ RatIn(Big(c), BMul(Big(len), Big(u * u)), d)
\* The logged distance is sqrt(c) / (2 M u), or infinite if c is
IsWarped(d, c, m, u) == IF c >= INFC THEN d.inf
                        ELSE ~d.inf /\ RatIn(Big(c), BMul(Big(4 * m * m), Big(u * u)), d)
=============================================================================
