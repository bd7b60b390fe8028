---------------------------- MODULE RobustSelect ----------------------------
(* S01: the two selections the code makes without listing all distances or sorting all weights.
   The distance of rank K among all pairs, by narrowing a range of columns in every row around any trial pair whatsoever,
   and the high median, by halving a range of the sorted data.  Both reach the definitions of Robust.tla. *)
EXTENDS Robust
VARIABLES left, right, found, imin, imax, lw, rw, hmed
svars == <<left, right, found, imin, imax, lw, rw, hmed>>
S == Sorted(x)
Rows == 1..(N - 1)
Candidates == {ij \in Rows \X (1..N) : left[ij[1]] <= ij[2] /\ ij[2] <= right[ij[1]]}
D(ij) == S[ij[2]] - S[ij[1]]
InitS == Init /\ N >= 2 /\ left = [i \in Rows |-> i + 1] /\ right = [i \in Rows |-> N] /\ found = -1 /\ imin = 1 /\ imax = N + 1 /\ lw = 0 /\ rw = 0 /\ hmed = 0
Narrow(ij) == LET t == D(ij)
                  below == [i \in Rows |-> Max({left[i] - 1} \cup {j \in left[i]..right[i] : S[j] - S[i] < t})]
                  upto == [i \in Rows |-> Max({left[i] - 1} \cup {j \in left[i]..right[i] : S[j] - S[i] <= t})]
                  nb == FoldSeq(+, 0, [i \in Rows |-> below[i] - i])
                  nu == FoldSeq(+, 0, [i \in Rows |-> upto[i] - i])
              IN IF nb > TargetK(x) THEN right' = below /\ UNCHANGED <<left, found>>
                 ELSE IF nu <= TargetK(x) THEN left' = [i \in Rows |-> upto[i] + 1] /\ UNCHANGED <<right, found>>
                 ELSE found' = t /\ UNCHANGED <<left, right>>
WS == LET order == CHOOSE p \in Permutations(1..N) : \A i \in 1..(N - 1) : x[p[i]] <= x[p[i + 1]] IN [i \in 1..N |-> w[order[i]]]
SumW(a, b) == FoldSeq(+, 0, [i \in 1..N |-> IF a <= i /\ i < b THEN WS[i] ELSE 0])
Halve(t) == LET l == lw + SumW(imin, t) r == rw + SumW(t + 1, imax) IN
            IF 2 * l > Total(w) THEN rw' = r + WS[t] /\ imax' = t /\ UNCHANGED <<lw, imin, hmed>>
            ELSE IF 2 * r >= Total(w) THEN lw' = l + WS[t] /\ imin' = t + 1 /\ UNCHANGED <<rw, imax, hmed>>
            ELSE hmed' = t /\ UNCHANGED <<lw, rw, imin, imax>>
NextS == UNCHANGED vars /\ \/ found = -1 /\ (\E ij \in Candidates : Narrow(ij)) /\ UNCHANGED <<imin, imax, lw, rw, hmed>>
                           \/ found /= -1 /\ hmed = 0 /\ Total(w) > 0 /\ (\E t \in imin..(imax - 1) : Halve(t)) /\ UNCHANGED <<left, right, found>>
\* the search never loses what it is looking for, always ends, and finds it
FoundRight == found /= -1 => found = QDist(x)
NotLost == found = -1 => \E ij \in Candidates : D(ij) = QDist(x)
HighRight == (hmed /= 0 => S[hmed] = HighMedian(x, w) \/ WS[hmed] = 0) /\ (hmed = 0 /\ Total(w) > 0 => imin < imax)
Progress == [][found' /= found \/ hmed' /= hmed \/ imax' - imin' < imax - imin
               \/ FoldSeq(+, 0, [i \in Rows |-> right'[i] - left'[i]]) < FoldSeq(+, 0, [i \in Rows |-> right[i] - left[i]])]_svars
=============================================================================
