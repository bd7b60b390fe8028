-------------------------------- MODULE Robust --------------------------------
(* S01: robust statistics as definitions over a data set (a sequence of integers) and its weights; every quantity is an
   exact integer (the statistic times a small power of two). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS MaxN, MaxV, MaxW
VARIABLES x, w
vars == <<x, w>>
Abs(a) == IF a < 0 THEN -a ELSE a
Sorted(s) == SortSeq(s, <)
Total(s) == FoldSeq(+, 0, s)
N == Len(x)
\* twice the median
Med2(s) == LET q == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN 2 * q[(n + 1) \div 2] ELSE q[n \div 2] + q[n \div 2 + 1]
\* four times the median absolute deviation
Mad4(s) == LET m == Med2(s) IN Med2([i \in DOMAIN s |-> Abs(2 * s[i] - m)])
\* four times the quartile k (linear interpolation between order statistics)
Quart4(s, k) == LET q == Sorted(s) p == (Len(s) - 1) * k i == p \div 4 r == p % 4 IN 4 * q[i + 1] + (IF r = 0 THEN 0 ELSE r * (q[i + 2] - q[i + 1]))
Trimean16(s) == Quart4(s, 1) + 2 * Quart4(s, 2) + Quart4(s, 3)
\* the weight of all data no larger than v
Weight(s, u, v) == FoldSeq(+, 0, [i \in DOMAIN s |-> IF s[i] <= v THEN u[i] ELSE 0])
HighMedian(s, u) == Min({s[j] : j \in {j \in DOMAIN s : 2 * Weight(s, u, s[j]) > Total(u)}})
\* intervals between data that hold a majority of the data, and the shortest of them
Held(s, a, b) == {i \in DOMAIN s : a <= s[i] /\ s[i] <= b}
Majority(s) == {ab \in ToSet(s) \X ToSet(s) : ab[1] <= ab[2] /\ 2 * Cardinality(Held(s, ab[1], ab[2])) > Len(s)}
Short(s) == Min({ab[2] - ab[1] : ab \in Majority(s)})
Shortest(s) == {ab \in Majority(s) : ab[2] - ab[1] = Short(s)}
SumIn(s, a, b) == FoldSeq(+, 0, [i \in DOMAIN s |-> IF i \in Held(s, a, b) THEN s[i] ELSE 0])
\* distances between pairs, and the one with exactly k others no larger than it before it in order
Pairs(s) == {ij \in (DOMAIN s) \X (DOMAIN s) : ij[1] < ij[2]}
Dist(s, ij) == Abs(s[ij[1]] - s[ij[2]])
Upto(s, d) == Cardinality({ij \in Pairs(s) : Dist(s, ij) <= d})
TargetK(s) == LET h == Len(s) \div 2 + 1 IN ((h * (h - 1)) \div 2) - 1
OrderDist(s, k) == Min({d \in {Dist(s, ij) : ij \in Pairs(s)} : Upto(s, d) > k})
QDist(s) == OrderDist(s, TargetK(s))

All(s, u) == [x |-> s, w |-> u, med2 |-> Med2(s), mad4 |-> Mad4(s), tri16 |-> Trimean16(s),
              hm |-> IF Total(u) = 0 THEN -1 ELSE HighMedian(s, u), hm1 |-> HighMedian(s, [i \in DOMAIN s |-> 1]),
              short |-> Short(s), centers |-> {<<ab[1] + ab[2], SumIn(s, ab[1], ab[2]), Cardinality(Held(s, ab[1], ab[2]))>> : ab \in Shortest(s)},
              q |-> IF Len(s) < 2 THEN -1 ELSE QDist(s)]

Init == \E n \in 1..MaxN : x \in [1..n -> 0..MaxV] /\ w \in [1..n -> 0..MaxW]
Next == UNCHANGED vars
\* laws of the definitions
Laws == /\ 2 * Min(ToSet(x)) <= Med2(x) /\ Med2(x) <= 2 * Max(ToSet(x))
        /\ 0 <= Mad4(x) /\ Mad4(x) <= 4 * (Max(ToSet(x)) - Min(ToSet(x)))
        /\ Mad4(x) <= 4 * Short(x)                    \* half of the data are closer to the median than the shortest majority is long
        /\ 16 * Min(ToSet(x)) <= Trimean16(x) /\ Trimean16(x) <= 16 * Max(ToSet(x))
        /\ Short(x) <= Max(ToSet(x)) - Min(ToSet(x)) /\ Shortest(x) /= {}
        /\ Short(x) = LET q == Sorted(x) h == N \div 2 + 1 IN Min({q[i + h - 1] - q[i] : i \in 1..(N - h + 1)})
        /\ (Total(w) > 0 => LET h == HighMedian(x, w) IN
              /\ 2 * Weight(x, w, h) > Total(w) /\ 2 * Weight(x, w, h - 1) <= Total(w))
        /\ (N >= 2 => /\ QDist(x) <= Short(x) /\ (QDist(x) = 0 => \E i, j \in 1..N : i /= j /\ x[i] = x[j]))
=============================================================================
