------------------------------- MODULE Chosen -------------------------------
(* H01: which pulses an analysis uses: histograms, count rates, first good pulses, lists of energies and average pulses of
   raw-data channels.  Energies, times and samples are integers in units of the binding; NaN stands for not a number.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Chans, Cats, NaN, NPre, NSamp
VARIABLES p,      \* channel -> pulses [e, f, t, a (mean value), rec], constant but for the setup of histories
          out,    \* channel -> pulses cut
          cat,    \* channel -> categories of pulses
          avg,    \* channel -> <<>> (none yet) or the average pulse, [num, den]
          bad
vars == <<p, out, cat, avg, bad>>
All(c) == DOMAIN p[c]
Good(c) == All(c) \ out[c]
\* ---- selection: category "" is any
Members(c, k) == {i \in Good(c) : k = "" \/ cat[c][i] = k}
Use(c, q, k, t0, t1, g) == {i \in Members(c, k) \cap g[c] : p[c][i].t > t0 /\ p[c][i].t < t1 /\ p[c][i][q] # NaN}
\* bins are half open but for the last
InBin(v, edges, b) == edges[b] <= v /\ (v < edges[b + 1] \/ (b + 1 = Len(edges) /\ v = edges[b + 1]))
Counts(S, v(_), edges) == [b \in 1..Len(edges) - 1 |-> Cardinality({i \in S : InBin(v(i), edges, b)})]
Hist(c, q, k, t0, t1, g, edges) == Counts(Use(c, q, k, t0, t1, g), LAMBDA i : p[c][i][q], edges)
Shown == Chans \ bad
GroupHist(q, k, t0, t1, g, edges) == [b \in 1..Len(edges) - 1 |-> MapThenSumSet(LAMBDA c : Hist(c, q, k, t0, t1, g, edges)[b], Shown)]
Rate(c, onlygood, edges) == Counts(IF onlygood THEN Good(c) ELSE All(c), LAMBDA i : p[c][i].t, edges)
Sorted(S) == SetToSortSeq(S, <)
FirstN(c, k, n) == LET s == Sorted(Members(c, k)) IN SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE LET s == Sorted(Good(Head(cs))) IN [i \in 1..Len(s) |-> p[Head(cs)][s[i]].e] \o Cat(Tail(cs))
Energies == Cat(Sorted(Shown))
\* ---- averages
Within(c, lo, hi, gain) == {i \in Good(c) : gain * lo <= p[c][i].a /\ p[c][i].a <= gain * hi}
Sum(S, v(_)) == MapThenSumSet(v, S)
\* the mean record, less its mean before the trigger (the last "ignored" samples before it aside)
Mean(c, S, sub, ign) == LET n == Cardinality(S)  np == NPre - ign
                            at(j) == Sum(S, LAMBDA i : p[c][i].rec[j])
                            base == IF sub THEN Sum(1..np, LAMBDA j : at(j)) ELSE 0
                        IN [num |-> [j \in 1..NSamp |-> np * at(j) - base], den |-> n * np]
\* twice the median
Med2(c, S) == LET s == SortSeq([k \in 1..Cardinality(S) |-> p[c][Sorted(S)[k]].a], <)  n == Len(s)
              IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
\* good pulses within 5% of the median size, at most the first n of them
Typical(c, n) == LET s == Sorted({i \in Good(c) : 20 * Abs(2 * p[c][i].a - Med2(c, Good(c))) < Med2(c, Good(c))}) IN ToSet(SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n))
Done(c) == avg[c] # <<>> /\ \E j \in 1..NSamp : avg[c].num[j] # 0
Averaged(c, S, sub, ign, force) == IF Done(c) /\ ~force THEN avg[c] ELSE Mean(c, S, sub, ign)
\* ---- actions
CutThose(c, S) == out' = [out EXCEPT ![c] = S] /\ UNCHANGED <<p, cat, avg, bad>>
Assign(c, ks) == cat' = [cat EXCEPT ![c] = ks] /\ UNCHANGED <<p, out, avg, bad>>
MarkBad(c) == bad' = bad \cup {c} /\ UNCHANGED <<p, out, cat, avg>>
MarkGood(c) == bad' = bad \ {c} /\ UNCHANGED <<p, out, cat, avg>>
\* an automatic average needs some good pulse close to the median; the group sets the channel aside, the channel itself refuses
Fails(c, n) == Good(c) = {} \/ Typical(c, n) = {}
AvgAuto(cs, isgroup, n, sub, ign, force) ==
    LET ok == {c \in cs : ~Fails(c, n)}
    IN /\ avg' = [c \in Chans |-> IF c \in ok THEN Averaged(c, Typical(c, n), sub, ign, force) ELSE avg[c]]
       /\ bad' = IF isgroup THEN bad \cup (cs \ ok) ELSE bad
       /\ UNCHANGED <<p, out, cat>>
AvgMask(m, sub, ign, force) ==
    /\ avg' = [c \in Chans |-> IF c \in Shown THEN Averaged(c, m[c], sub, ign, force) ELSE avg[c]]
    /\ UNCHANGED <<p, out, cat, bad>>

\* ---- exhaustive checking
CONSTANTS MaxN
Tiny == [e : {0, 1, NaN}, t : {1, 2}]
Full(x) == [e |-> x.e, f |-> 0, t |-> x.t, a |-> 1, rec |-> [j \in 1..NSamp |-> j]]
Init == /\ \E n \in 1..MaxN : \E x \in [Chans -> [1..n -> Tiny]] : p = [c \in Chans |-> [i \in 1..n |-> Full(x[c][i])]]
        /\ out = [c \in Chans |-> {}] /\ bad = {} /\ avg = [c \in Chans |-> <<>>]
        /\ cat = [c \in Chans |-> [i \in All(c) |-> "none"]]
NextSmall == \/ \E c \in Chans : MarkBad(c) \/ MarkGood(c)
             \/ \E c \in Chans : \E S \in SUBSET All(c) : CutThose(c, S)
             \/ \E c \in Chans : \E k \in [All(c) -> Cats] : Assign(c, k)
Ev == [c \in Chans |-> All(c)]
E3 == <<0, 1, 2>>
Plus(x, y) == [b \in DOMAIN x |-> x[b] + y[b]]
Total(x) == Sum(DOMAIN x, LAMBDA b : x[b])
\* parts add up: by category, by function and its complement, by time, by channel; nothing is counted twice
ByCategory == \A c \in Chans, b \in 1..2 : Hist(c, "e", "", 0, 9, Ev, E3)[b] = Sum(Cats, LAMBDA k : Hist(c, "e", k, 0, 9, Ev, E3)[b])
ByTime == \A c \in Chans : Plus(Hist(c, "e", "", 0, 2, Ev, E3), Hist(c, "e", "", 1, 9, Ev, E3)) = Hist(c, "e", "", 0, 9, Ev, E3)
ByPart == \A c \in Chans : \A S \in SUBSET All(c) :
            Plus(Hist(c, "e", "", 0, 9, [Ev EXCEPT ![c] = S], E3), Hist(c, "e", "", 0, 9, [Ev EXCEPT ![c] = All(c) \ S], E3)) = Hist(c, "e", "", 0, 9, Ev, E3)
Everything == \A c \in Chans : Total(Hist(c, "e", "", 0, 9, Ev, E3)) = Cardinality({i \in Good(c) : p[c][i].e # NaN})
ByChannel == Total(GroupHist("e", "", 0, 9, Ev, E3)) = Cardinality({<<c, i>> \in UNION {{<<d, j>> : j \in Good(d)} : d \in Shown} : p[c][i].e # NaN})
Firsts == \A c \in Chans : FirstN(c, "", 1) = (IF Good(c) = {} THEN <<>> ELSE <<CHOOSE i \in Good(c) : \A j \in Good(c) : i <= j>>)
=============================================================================
