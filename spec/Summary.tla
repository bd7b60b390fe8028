------------------------------- MODULE Summary -------------------------------
(* G04: the summary of a pulse record.  A record is a sequence of samples above a base level; positions count from 0, as in
   the code.  Means, roots and slopes are left as their exact integer parts. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS NS, NPS, MaxV     \* exhaustive checking: samples, presamples, largest value
VARIABLES x, k, st          \* a record, samples read, what one pass over it accumulates
vars == <<x, k, st>>

\* (folds, not recursion: records are long)
SumOver(lo, hi, F(_)) == FoldLeftDomain(LAMBDA acc, i : acc + F(lo + i - 1), 0, [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> 0])
Max2(a, b) == IF a > b THEN a ELSE b
MaxSeq(y) == FoldLeft(Max2, y[1], y)
MinSeq(y) == FoldLeft(LAMBDA a, b : IF a < b THEN a ELSE b, y[1], y)
FirstAt(y, P(_)) == IF \E j \in DOMAIN y : P(j) THEN (CHOOSE j \in DOMAIN y : P(j) /\ \A i \in 1..(j - 1) : ~P(i)) - 1 ELSE -1
At(y, j) == y[j + 1]
\* is A > B, for sums A = 100 d d and B = 1849 v; too close to call in floating point is "unsure"
Beyond(d, v) == IF d <= 0 THEN "no" ELSE LET A == 100 * d * d B == 1849 * v dif == IF A > B THEN A - B ELSE B - A
                IN IF v /= 0 /\ dif <= B \div 32 THEN "unsure" ELSE IF A > B THEN "yes" ELSE "no"

\* the largest of slopes that are reached twice, two samples apart (in tenths), from position pk on
Slope(y, j) == 2 * At(y, j) + At(y, j - 1) - At(y, j - 3) - 2 * At(y, j - 4)
Kernel(y, j, c) == c[1] * At(y, j) + c[2] * At(y, j - 1) + c[3] * At(y, j - 2) + c[4] * At(y, j - 3) + c[5] * At(y, j - 4)
Steepest(y, pk, c, reject) == LET s == [i \in 1..(Len(y) - pk - 4) |-> Kernel(y, pk + i + 3, c)]
    IN IF reject THEN MaxSeq([i \in 1..(Len(s) - 2) |-> IF s[i] < s[i + 2] THEN s[i] ELSE s[i + 2]]) ELSE MaxSeq(s)
Default == <<2, 1, 0, -1, -2>>
\* Savitzky-Golay, 100000 times
SG == <<-11905, 30952, 28571, -2381, -45238>>

\* what the record y, with npre samples before the trigger of which the last ign are ignored and a usual peak at pk, is summarised to
Def(y, npre, ign, pk) ==
    LET n == Len(y)
        e == npre - ign
        ps == SumOver(0, e - 1, LAMBDA j : At(y, j))
        pss == SumOver(0, e - 1, LAMBDA j : At(y, j) * At(y, j))
        shift == Beyond(e * At(y, npre - 1) - ps, e * pss - ps * ps)
        peak == MaxSeq(y)
        sense == ps < e * peak                          \* the peak exceeds the baseline
        pv == IF sense THEN peak - ((2 * ps + e) \div (2 * e)) ELSE 0
        s0 == npre + 2 - (IF shift = "yes" THEN 1 ELSE 0)
        m == n - npre + 1
        \* thresholds of a tenth and nine tenths of the peak value, rounded down
        low == (pv * e + 10 * ps) \div (10 * e)
        high == (9 * pv * e + 10 * ps) \div (10 * e)
        k1 == FirstAt(y, LAMBDA j : j > npre /\ y[j] > low)
        k2 == FirstAt(y, LAMBDA j : j > k1 /\ y[j] > high)
    IN [e |-> e, ps |-> ps, pss |-> pss, shift |-> shift, min |-> MinSeq(y), pv |-> pv,
        idx |-> IF sense THEN FirstAt(y, LAMBDA j : y[j] = peak) ELSE 0, sense |-> sense,
        m |-> m, qs |-> SumOver(npre - 1, n - 1, LAMBDA j : At(y, j)), qss |-> SumOver(npre - 1, n - 1, LAMBDA j : At(y, j) * At(y, j)),
        prompt |-> SumOver(s0, s0 + 5, LAMBDA j : At(y, j)),
        \* a rise of so many samples over so many units, or else one sample
        rise |-> IF ~sense \/ k1 < 0 \/ k2 < 0 THEN <<>> ELSE IF At(y, k2 - 1) > At(y, k1) THEN <<k2 - 1 - k1, At(y, k2 - 1) - At(y, k1)>> ELSE <<>>,
        deriv |-> Steepest(y, pk, Default, TRUE)]
\* by the other implementation: the peak is looked for after the trigger, means are over the samples after the trigger, ...
Line(y, npre, ign) == LET e == npre - ign IN [k1 |-> SumOver(0, e - 1, LAMBDA j : j), k2 |-> SumOver(0, e - 1, LAMBDA j : j * j), kx |-> SumOver(0, e - 1, LAMBDA j : j * At(y, j))]
Def2(y, npre, ign) ==
    LET n == Len(y)
        post == SubSeq(y, npre + 1, n)
        e == npre - ign
        ps == SumOver(0, e - 1, LAMBDA j : At(y, j))
        peak == MaxSeq(post)
        full == SumOver(0, npre - 1, LAMBDA j : At(y, j))
        top == MaxSeq(y)
        above(j, f) == 10 * (npre * y[j] - full) > f * (npre * top - full)
        tie(j, f) == 10 * (npre * y[j] - full) = f * (npre * top - full)
        a == FirstAt(y, LAMBDA j : j > npre /\ above(j, 1))
        b == FirstAt(y, LAMBDA j : j > npre /\ above(j, 9))
    IN [idx |-> npre + FirstAt(post, LAMBDA j : post[j] = peak),
        pv |-> IF ps < e * peak THEN peak - ((2 * ps + e) \div (2 * e)) ELSE 0,
        line |-> Line(y, npre, ign),
        m |-> n - npre, qs |-> SumOver(npre, n - 1, LAMBDA j : At(y, j)), qss |-> SumOver(npre, n - 1, LAMBDA j : At(y, j) * At(y, j)),
        \* the rise is defined if two or more samples lie between the thresholds, and rising
        rise |-> IF npre < 4 \/ npre * top = full \/ a < 0 \/ b < 0 \/ (\E j \in DOMAIN y : tie(j, 1) \/ tie(j, 9)) THEN <<>>
                 ELSE IF b - 1 > a /\ At(y, b - 1) > At(y, a) THEN <<b - 1 - a, At(y, b - 1) - At(y, a), npre * top - full, npre>> ELSE <<>>]

\* ---- one pass over the record, as the compiled implementation makes
Fresh(npre) == [ps |-> 0, pss |-> 0, qs |-> 0, qss |-> 0, prompt |-> 0, peak |-> 0, idx |-> 0, min |-> 99999, s |-> npre + 2, t |-> npre + 8, shift |-> "no"]
Step(s, v, j, npre, ign) ==
    LET s1 == [s EXCEPT !.peak = IF v > @ THEN v ELSE @, !.idx = IF v > s.peak THEN j ELSE @, !.min = IF v < @ THEN v ELSE @,
                        !.ps = IF j < npre - ign THEN @ + v ELSE @, !.pss = IF j < npre - ign THEN @ + v * v ELSE @,
                        !.prompt = IF s.s <= j /\ j < s.t THEN @ + v ELSE @,
                        !.qs = IF j >= npre - 1 THEN @ + v ELSE @, !.qss = IF j >= npre - 1 THEN @ + v * v ELSE @]
        e == npre - ign
        b == Beyond(e * v - s1.ps, e * s1.pss - s1.ps * s1.ps)
    IN IF j /= npre - 1 THEN s1 ELSE IF b = "yes" THEN [s1 EXCEPT !.shift = b, !.s = @ - 1, !.t = @ - 1] ELSE [s1 EXCEPT !.shift = b]
Init == \E npre \in NPS : \E ign \in {0, npre - 1} : x \in [1..NS -> 0..MaxV] /\ k = <<0, npre, ign>> /\ st = Fresh(npre)
Next == /\ k[1] < NS /\ UNCHANGED x
        /\ k' = [k EXCEPT ![1] = @ + 1]
        /\ st' = Step(st, At(x, k[1]), k[1], k[2], k[3])
OnePass == k[1] = NS => LET d == Def(x, k[2], k[3], 0) IN
    /\ d.ps = st.ps /\ d.pss = st.pss /\ d.qs = st.qs /\ d.qss = st.qss /\ d.prompt = st.prompt /\ d.min = st.min /\ d.shift = st.shift
    /\ d.sense = (d.ps < d.e * st.peak) /\ (d.sense => d.idx = st.idx)
\* laws: raising the level of a record changes neither its pulse nor its timing
Raise(y, c) == [j \in DOMAIN y |-> y[j] + c]
LevelFree == k[1] = 0 => LET d == Def(x, k[2], k[3], 0) r == Def(Raise(x, 3), k[2], k[3], 0) IN
    /\ d.pv = r.pv /\ d.shift = r.shift /\ d.sense = r.sense /\ d.idx = r.idx /\ d.deriv = r.deriv /\ d.rise = r.rise
    /\ d.e * d.pss - d.ps * d.ps = r.e * r.pss - r.ps * r.ps
\* both implementations see the same peak if it comes after the trigger
SamePeak == k[1] = 0 => LET d == Def(x, k[2], k[3], 0) r == Def2(x, k[2], k[3]) IN d.sense /\ d.idx >= k[2] => d.pv = r.pv /\ d.idx = r.idx
\* samples of no interest: those cut off at either end do not matter, apart from the count of samples
Bounded == k[1] = 0 => LET d == Def(x, k[2], k[3], 0) IN d.pv >= 0 /\ d.min <= MaxSeq(x) /\ (d.rise # <<>> => (d.rise[1] >= 1 /\ d.rise[2] >= 1))
=============================================================================
