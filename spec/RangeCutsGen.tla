---------------------------- MODULE RangeCutsGen ----------------------------
(* Histories of range cuts, of cuts from a list of limits and of automatic cuts, with cleared and reopened data. *)
EXTENDS RangeCuts, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES hist
gvars == <<raw, cut, saved, hist>>
RE(S, x) == {RandomElement(S)}
Obs == [raw |-> raw, cut |-> {<<f, cut[f]>> : f \in Fields}, good |-> Good(cut), saved |-> saved]
Log(a) == hist' = Append(hist, a @@ [obs |-> Obs'])
InitG == raw = [q \in Names |-> <<>>] /\ cut = Cleared /\ saved = NotSaved /\ hist = <<>>
Dice(S, n, x) == {[f \in S |-> [j \in 1..n |-> RandomElement(0..99)]]}
\* a random list of limits from thrown dice
Limit(d, lo, hi) == IF d >= 85 THEN NoLim ELSE lo + (d % (hi - lo + 1))
Mk(d, lo, hi) == IF d[1] < 5 THEN None ELSE IF d[1] < 55 THEN Pair(Limit(d[2], lo, hi), Limit(d[3], lo, hi))
                 ELSE Ranges(d[4] >= 65, [k \in 1..(1 + (d[5] % 3)) |-> <<Limit(d[4 + 2 * k], lo, hi), Limit(d[5 + 2 * k], lo, hi)>>])
Lo(f) == CASE f = Dep -> -2 [] f = "min_value" -> -MaxV [] f = "peak_time_ms" -> -2 [] f = "timestamp_diff_sec" -> -4 [] OTHER -> 0
Hi(f) == CASE f = Dep -> 2 [] f = "min_value" -> 2 [] f = "timestamp_diff_sec" -> 4 [] OTHER -> MaxV
\* limits seldom exclude everything in a long history: most lists are wide
Wide(d, f) == IF d[1] < 70 THEN (IF d[2] < 50 THEN Pair(NoLim, Hi(f) - (d[3] % 3)) ELSE Pair(Lo(f) - 1 + (d[3] % 2), IF d[4] < 50 THEN NoLim ELSE Hi(f) + 1)) ELSE Mk(d, Lo(f), Hi(f))
Quantities == {"energy", "min_value", "timestamp_sec", "timestamp_diff_sec", "pretrigger_mean", "pretrigger_rms", "peak_value", "postpeak_deriv", "pulse_average", "peak_time_ms", "rise_time_ms"}
Setup == \E n \in RE({1, 2, 5, 9}, hist), ds \in Dice(Names, MaxN, hist) :
    /\ raw' = [q \in Names |-> [i \in 1..n |-> IF q \in {"energy", "pulse_average"} /\ ds[q][i] >= 91 THEN NotNum ELSE (IF q = "peak_time_ms" THEN -2 ELSE 0) + (ds[q][i] % (MaxV + 1))
                + (IF q = "sub" THEN 3 * i * (MaxV + 1) ELSE 0)]]
    /\ cut' = Cleared /\ saved' = NotSaved /\ Log([act |-> "setup"])
GParam == \E f \in RE(Fields, hist), q \in RE(Quantities, hist), own \in RE(BOOLEAN, hist), d \in {[j \in 1..12 |-> RandomElement(0..99)]} :
    \E g \in {IF own /\ f \in Quantities THEN f ELSE q} : \E al \in {Mk(d, Lo(g), Hi(g))} : Param(f, g, al) /\ Log([act |-> "param", f |-> f, q |-> g, al |-> al])
GApply == \E k \in RE({0, 1, 2, 4, 13}, hist), clear, force \in BOOLEAN, ds \in Dice(Fields \ {"told"}, 12, hist), r \in RE(0..99, hist) :
    /\ clear = (r % 3 = 0) /\ force = (r < 60)
    /\ \E S \in RE(kSubset(IF k = 13 THEN Cardinality(Fields) - 1 ELSE k, Fields \ {"told"}), hist) : \E ctl \in {[f \in S |-> Wide(ds[f], f)]} :
          Apply(ctl, clear, force) /\ Log([act |-> "apply", ctl |-> {<<f, ctl[f]>> : f \in S}, clear |-> clear, force |-> force])
GClear == Clear /\ Log([act |-> "clear"])
GAuto == \E k \in RE(2..MaxV, hist), pct \in RE({0, 0, 50, 100}, hist), r \in RE(0..99, hist), clear, force \in BOOLEAN :
    clear = (r % 3 = 0) /\ force = (r < 50) /\ Auto(k, pct, clear, force) /\ Log([act |-> "auto", k |-> k, pct |-> pct, clear |-> clear, force |-> force])
GReopen == Reopen /\ Log([act |-> "reopen"])
NextG == IF hist = <<>> THEN Setup
         ELSE (TRUE /\ (GParam \/ (\E k \in {1} : GParam) \/ GApply \/ (\E k \in {1} : GApply) \/ GAuto \/ GReopen)) \/ (Len(hist) % 4 = 0 /\ GClear)
CutsOfPulses == \A f \in Fields : cut[f] \subseteq Pulses
ToldAlone == saved # NotSaved => \A i \in Good(cut) : raw["peak_time_ms"][i] > 0 \/ cut["peak_time_ms"] = {}
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
