------------------------------- MODULE Arith -------------------------------
(* Integers, exact rationals and natural numbers of any size (TLC's own are 32 bit). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, Abs(a) % Abs(b))
LCM(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div GCD(a, b)) * Abs(b)

Ids(n) == [i \in 1..n |-> i]
From(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
SeqSum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
SeqMin(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), s[1], s)
SeqMax(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), s[1], s)

-----------------------------------------------------------------------------
(* Natural numbers as sequences of digits in base 10^4, least significant first, no leading (last) zero; <<>> is 0. *)
Base == 10000

RECURSIVE BNorm(_)
BNorm(x) == IF x = <<>> THEN x
            ELSE IF x[Len(x)] = 0 THEN BNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)

RECURSIVE BCarry(_, _)          \* digits may exceed the base: propagate carries
BCarry(x, c) == IF x = <<>> THEN Big(c)
                ELSE LET v == x[1] + c IN <<v % Base>> \o BCarry(Tail(x), v \div Base)

BAdd(x, y) == LET n == Max2(Len(x), Len(y))
                  d(z, i) == IF i <= Len(z) THEN z[i] ELSE 0
              IN BNorm(BCarry([i \in 1..n |-> d(x, i) + d(y, i)], 0))

BMulDigit(x, d) == BNorm(BCarry([i \in 1..Len(x) |-> x[i] * d], 0))

RECURSIVE BMul(_, _)
BMul(x, y) == IF y = <<>> THEN <<>>
              ELSE BAdd(BMulDigit(x, y[1]),
                        LET rest == BMul(x, Tail(y)) IN IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(x, y, i) == IF i = 0 THEN 0
                     ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE BCmpFrom(x, y, i - 1)
BCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE BCmpFrom(x, y, Len(x))
BLeq(x, y) == BCmp(x, y) <= 0
BLt(x, y) == BCmp(x, y) < 0

\* a*b compared with c*d, all naturals
CmpProd(a, b, c, d) == BCmp(BMul(Big(a), Big(b)), BMul(Big(c), Big(d)))

-----------------------------------------------------------------------------
(* Tables of rationals: [u |-> common denominator, rows |-> integer numerators], canonical when gcd(u, all entries) = 1. *)
RowGCD(row, g) == FoldLeft(LAMBDA acc, x : GCD(acc, x), g, row)
TabGCD(rows, g) == FoldLeft(LAMBDA acc, row : IF acc = 1 THEN 1 ELSE RowGCD(row, acc), g, rows)

Canon(u, rows) ==
  LET g == TabGCD(rows, u)
  IN  IF g = 1 THEN [u |-> u, rows |-> rows]
      ELSE [u |-> u \div g,
            rows |-> [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |->
                       \* \div rounds towards minus infinity, but here it is exact
                       rows[i][j] \div g]]]

TabMin(rows) == SeqMin([i \in 1..Len(rows) |-> SeqMin(rows[i])])
TabMax(rows) == SeqMax([i \in 1..Len(rows) |-> SeqMax(rows[i])])
Scale(row, k) == IF k = 1 THEN row ELSE [i \in 1..Len(row) |-> row[i] * k]
=============================================================================
