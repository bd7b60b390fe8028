------------------------------ MODULE RangeCuts ------------------------------
(* C03: cutting pulses on ranges of their quantities.  Quantities are integers (units of the binding); a field of cuts
   holds the pulses it excludes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Fields,       \* the cut fields
          MaxV, MaxN,
          Peak          \* samples from the trigger to the latest usual peak (automatic cuts)
VARIABLES raw,          \* quantity -> values of the pulses
          cut,          \* field -> pulses excluded by it
          saved         \* limits of automatic cuts in force (in half units), or NotSaved
vars == <<raw, cut, saved>>

NoLim == -999
NotSaved == <<>>
Inf == 9999
NotNum == -7777         \* not a number: lies within no limits
None == <<"none">>
Pair(a, b) == <<"pair", a, b>>
Ranges(inv, rs) == <<"ranges", inv, rs>>
\* whether a value is excluded.  A pair asks for a < v < b, a list for some a <= v <= b (or for none, inverted)
AtLeast(v, a) == v /= NotNum /\ v >= a
AtMost(v, b) == v /= NotNum /\ v <= b
InClosed(r, v) == (r[1] = NoLim \/ AtLeast(v, r[1])) /\ (r[2] = NoLim \/ AtMost(v, r[2]))
Excluded(al, v) == CASE al[1] = "none" -> FALSE
                     [] al[1] = "pair" -> (al[2] /= NoLim /\ ~AtLeast(v, al[2] + 1)) \/ (al[3] /= NoLim /\ ~AtMost(v, al[3] - 1))
                     [] al[1] = "ranges" -> LET in == \E k \in DOMAIN al[3] : InClosed(al[3][k], v) IN IF al[2] THEN in ELSE ~in
Out(al, vs) == {i \in DOMAIN vs : Excluded(al, vs[i])}

\* quantities derived from stored ones
Sorted(s) == SortSeq(s, <)
Med2(s) == LET q == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN 2 * q[(n + 1) \div 2] ELSE q[n \div 2] + q[n \div 2 + 1]
Gaps(t) == [i \in DOMAIN t |-> IF i = 1 THEN Inf ELSE t[i] - t[i - 1]]
Pulses == DOMAIN raw["energy"]
Quantity(f) == CASE f = "min_value" -> [i \in Pulses |-> raw["min"][i] - raw["pretrigger_mean"][i]]
                 [] f = "timestamp_diff_sec" -> Gaps(raw["timestamp_sec"])
                 [] f = "subframecount_diff_sec" -> Gaps(raw["sub"])
                 [] OTHER -> raw[f]
Bad(c) == UNION {c[f] : f \in Fields}
Good(c) == Pulses \ Bad(c)
Cleared == [f \in Fields |-> {}]
\* doubled values about the median of good pulses: limits are doubled as well
Dbl(al) == CASE al[1] = "none" -> al [] al[1] = "pair" -> Pair(IF al[2] = NoLim THEN NoLim ELSE 2 * al[2], IF al[3] = NoLim THEN NoLim ELSE 2 * al[3])
             [] OTHER -> Ranges(al[2], [k \in DOMAIN al[3] |-> <<IF al[3][k][1] = NoLim THEN NoLim ELSE 2 * al[3][k][1], IF al[3][k][2] = NoLim THEN NoLim ELSE 2 * al[3][k][2]>>])
Dep == "pretrigger_mean_departure_from_median"
Vseq(S) == LET q == SetToSeq(S) IN [k \in DOMAIN q |-> raw["pretrigger_mean"][q[k]]]
Departure(c, al) == IF Good(c) = {} \/ al = None THEN {} ELSE
    LET m == Med2(Vseq(Good(c))) IN Out(Dbl(al), [i \in Pulses |-> 2 * raw["pretrigger_mean"][i] - m])
Apply1(c, ctl) == LET c1 == [f \in Fields |-> c[f] \cup (IF f \in DOMAIN ctl /\ f /= Dep THEN Out(ctl[f], Quantity(f)) ELSE {})]
                  IN IF Dep \in DOMAIN ctl THEN [c1 EXCEPT ![Dep] = @ \cup Departure(c1, ctl[Dep])] ELSE c1

Param(f, q, al) == cut' = [cut EXCEPT ![f] = @ \cup Out(al, Quantity(q))] /\ UNCHANGED <<raw, saved>>
Apply(ctl, clear, force) == /\ UNCHANGED raw
    /\ IF ~force /\ Bad(cut) /= {} THEN UNCHANGED <<cut, saved>>
       ELSE cut' = Apply1(IF clear THEN Cleared ELSE cut, ctl) /\ saved' = IF clear THEN NotSaved ELSE saved
Clear == cut' = Cleared /\ saved' = NotSaved /\ UNCHANGED raw
\* automatic cuts with the limits k (a multiple of the noise level, in half units)
\* pct: no more than the pulses above this percentile (50 or 100; 0 is not given) go for their baseline's noise
Lim(k) == 2 * k + 1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LimPt(k, pct) == IF pct = 0 THEN Lim(k) ELSE MaxOf({Lim(k), IF pct = 50 THEN Med2(raw["pretrigger_rms"]) ELSE 2 * MaxOf(Range(raw["pretrigger_rms"]))})
AutoOut(k, pct, f) == {i \in Pulses : CASE f = "peak_time_ms" -> raw[f][i] <= 0 \/ 4 * raw[f][i] >= 5 * Peak
                                  [] f = "rise_time_ms" -> raw[f][i] <= 0 \/ 10 * raw[f][i] >= 11 * Peak
                                  [] f = "pretrigger_rms" -> 2 * raw[f][i] >= LimPt(k, pct)
                                  [] f = "postpeak_deriv" -> 2 * raw[f][i] >= Lim(k)
                                  [] OTHER -> FALSE}
Auto(k, pct, clear, force) == /\ UNCHANGED raw
    /\ IF saved /= NotSaved /\ ~force THEN UNCHANGED <<cut, saved>>
       ELSE saved' = <<k, LimPt(k, pct)>> /\ cut' = LET c == IF clear THEN Cleared ELSE cut IN [f \in Fields |-> c[f] \cup AutoOut(k, pct, f)]
Reopen == UNCHANGED vars

\* ---- exhaustive checking on few fields
Vals(n) == [1..n -> 0..MaxV]
WithNaN(a) == {a, [a EXCEPT ![1] = NotNum]}
Names == {"energy", "pretrigger_mean", "min", "timestamp_sec", "sub", "pretrigger_rms", "peak_time_ms", "rise_time_ms", "postpeak_deriv", "pulse_average", "peak_value"}
Init == \E n \in 1..MaxN : \E a, b \in Vals(n) : \E e \in WithNaN(a) : raw = [q \in Names |-> IF q = "energy" THEN e ELSE IF q \in {"min", "sub", "peak_time_ms"} THEN a ELSE b] /\ cut = Cleared /\ saved = NotSaved
Lims == {NoLim} \cup 0..MaxV
Alloweds == {None} \cup {Pair(a, b) : a, b \in Lims} \cup {Ranges(v, <<<<a, b>>>>) : a, b \in Lims, v \in BOOLEAN}
NextSmall == \/ \E al \in Alloweds, q \in {"energy", "min_value"} : Param(q, q, al)
             \/ \E al \in Alloweds, c, f \in BOOLEAN : Apply([x \in {"energy", Dep} |-> IF x = Dep THEN al ELSE Pair(NoLim, MaxV)], c, f)
             \/ Clear \/ \E c, f \in BOOLEAN : Auto(1, 0, c, f)
\* laws: a pair excludes what neither limit allows; inverted ranges exclude what the ranges do not; clearing clears
Complementary == \A al \in Alloweds : al[1] = "ranges" => Out(al, raw["energy"]) = Pulses \ Out(Ranges(~al[2], al[3]), raw["energy"])
OneSided == \A a, b \in Lims : Out(Pair(a, b), raw["energy"]) = Out(Pair(a, NoLim), raw["energy"]) \cup Out(Pair(NoLim, b), raw["energy"])
\* a quantity that is not a number never passes a limit
NumbersPass == \A i \in Pulses : raw["energy"][i] = NotNum => \A al \in Alloweds : al[1] = "pair" /\ al # Pair(NoLim, NoLim) => i \in Out(al, raw["energy"])
Unlimited == Out(Pair(NoLim, NoLim), raw["energy"]) = {} /\ Out(Ranges(FALSE, <<<<NoLim, NoLim>>>>), raw["energy"]) = {}
Grows == [][(\A f \in Fields : cut[f] \subseteq cut'[f]) \/ (saved' = NotSaved \/ saved' /= saved \/ saved'[1] = 1)]_vars
=============================================================================
