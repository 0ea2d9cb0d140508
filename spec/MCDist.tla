------------------------------- MODULE MCDist -------------------------------
(* Model checking of Dist and Search on all small series: the dynamic programming computes the definition, the bounds are
   bounds, and no cutoff changes an answer (C15, C16); the deque algorithm computes the envelopes (C17). *)
EXTENDS Search, Lemire

CONSTANTS Vals, MaxLen, Ratios, Cuts

Series == UNION {[1..k -> Vals] : k \in 1..MaxLen}

VARIABLES a, b, r, chosen
vars == <<a, b, r, chosen>>
Init == a \in Series /\ b = a /\ r \in Ratios /\ chosen = FALSE
Next == ~chosen /\ chosen' = TRUE /\ b' \in Series /\ UNCHANGED <<a, r>>
Spec == Init /\ [][Next]_vars

M == Max2(Len(a), Len(b))
Bnd == Band(M, r[1], r[2])
W == Warped(a, b, r[1], r[2])

DPIsDefinition == W = DTWDef(a, b, Bnd)
InfiniteIffNoAlignment == (W >= INFC) = ~Alignable(Len(a), Len(b), r[1], r[2])
Symmetric == W = Warped(b, a, r[1], r[2])
ZeroOnSelf == a = b => W = 0
MonotoneInBand == \A q \in Ratios : r[1] * q[2] <= q[1] * r[2] => Warped(a, b, q[1], q[2]) <= W
Pairwise == Len(a) = Len(b) => W <= SqDist(a, b)
BandInRange == Bnd \in 0..(M - 1)

KeoghIsBound == Keogh(a, b, Bnd) <= W /\ Keogh(b, a, Bnd) <= W
\* A distance below the cutoff is computed exactly, any other stays at or beyond the cutoff
CutoffsHideNothing ==
  \A c \in Cuts :
    LET cut == [c |-> c, m |-> M]
        d == Cascade(a, b, r[1], r[2], cut)
        w == AbandoningDTW(a, b, Bnd, M, cut)
    IN  /\ (W < c => d = W /\ w = W)
        /\ (W >= c => d >= c /\ w >= c)
EnvelopesByDeque == LET e == LemireEnv(a, Min2(Bnd, Len(a) - 1)) IN e.ok /\ e.lo = EnvLower(a, Bnd) /\ e.up = EnvUpper(a, Bnd)
MCRatios == {<<0, 1>>, <<1, 4>>, <<2, 5>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}
=============================================================================
