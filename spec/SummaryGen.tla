------------------------------ MODULE SummaryGen ------------------------------
(* Files of records, summarised with one setting after another; and slopes of single records. *)
EXTENDS Summary, TLC, Json, Randomization
CONSTANTS Depth, MaxRec
VARIABLES conf, recs, res, hist
gvars == <<conf, recs, res, hist, x, k, st>>
RE(S, h) == {RandomElement(S)}
InitG == conf = <<>> /\ recs = <<>> /\ res = <<>> /\ hist = <<>> /\ x = <<>> /\ k = <<>> /\ st = <<>>
Log(a) == hist' = Append(hist, a @@ [obs |-> res'])
\* the kinds of records: pulses that rise in some samples and decay, noise, constants, drops, spikes, and pulses on tails
Shape(kind, j, rise, h, d) ==       \* j: samples since the trigger
    CASE kind \in {"pulse", "tail"} -> (IF j < 0 THEN 0 ELSE IF j < rise THEN ((j + 1) * h) \div rise ELSE (h * 16) \div (16 + 2 * (j - rise))) + (IF d % 4 = 0 THEN d % 3 ELSE 0)
      [] kind = "early" -> (IF j < -1 THEN 0 ELSE IF j < rise THEN ((j + 2) * (h % 101)) \div (rise + 1) ELSE ((h % 101) * 16) \div (16 + 2 * (j - rise)))
      [] kind = "noise" -> d % 7 [] kind = "flat" -> 0 [] kind = "low" -> IF j = -3 THEN 0 ELSE 5
      [] kind = "drop" -> IF j < 0 THEN 30 ELSE 20 [] kind = "spike" -> IF j = rise + 3 THEN h ELSE 0 [] OTHER -> d % 41
Kinds == <<"pulse", "pulse", "pulse", "pulse", "tail", "early", "early", "noise", "flat", "low", "drop", "spike", "any">>
Rec(c, d, z) == LET kind == Kinds[1 + (d[1] % 13)] rise == 1 + (d[2] % 6) h == 1 + (d[3] * (IF d[4] % 3 = 0 THEN 1 ELSE 40))
    IN [j \in 1..c.n |-> Shape(kind, j - 1 - c.npre, rise, h, z[j]) + (IF z[j] >= 50 /\ kind \in {"pulse", "early", "tail"} THEN z[j] % 3 ELSE 0) + (IF kind = "tail" THEN (20 * (c.n - j)) \div c.n ELSE 0)]
Setup == \E n \in RE(34..44, hist), npre \in RE(6..11, hist), nr \in RE(1..MaxRec, hist), tb \in RE({1, 10}, hist), base \in RE({0, 0, 100, 1000, 1000, 30000, 60000}, hist),
            per \in RE(1..5, hist), inv \in RE({"no", "no", "file", "flag"}, hist) :
         \E ds \in {[i \in 1..nr |-> [j \in 1..4 |-> RandomElement(0..99)]]}, zs \in {[i \in 1..nr |-> [j \in 1..n |-> RandomElement(0..99)]]} :
            /\ conf' = [n |-> n, npre |-> npre, tb |-> tb, base |-> base, per |-> per, inv |-> inv]
            /\ recs' = [i \in 1..nr |-> Rec([n |-> n, npre |-> npre], ds[i], zs[i])]
            /\ res' = <<>> /\ hist' = <<[act |-> "setup", conf |-> conf', recs |-> recs']>>
\* the most common position of the maximum, the earliest if there are several
PeakOf(a, b) == LET ps == [i \in DOMAIN recs |-> LET y == SubSeq(recs[i], a + 1, conf.n - b) IN a + FirstAt(y, LAMBDA j : y[j] = MaxSeq(y))]
                    cnt(v) == Cardinality({i \in DOMAIN ps : ps[i] = v})
                IN CHOOSE v \in Range(ps) : \A w \in Range(ps) : cnt(w) < cnt(v) \/ (cnt(w) = cnt(v) /\ v <= w)
Summarise(how, a, b, ign, pk) ==
    /\ pk >= a /\ pk <= conf.n - b - 7
    /\ res' = [how |-> how, pk |-> pk, a |-> a, b |-> b, r |-> [i \in DOMAIN recs |-> LET y == SubSeq(recs[i], a + 1, conf.n - b) IN
           [def |-> Def(y, conf.npre - a, ign, pk - a), alt |-> IF how = "compiled" THEN <<>> ELSE Def2(y, conf.npre - a, ign)]]]
    /\ UNCHANGED <<conf, recs>>
\* means that are all zero count as absent
Done == res # <<>> /\ (conf.base > 0 \/ \E i \in DOMAIN recs : res.r[i].def.ps > 0)
GSum == \E how \in RE({"compiled", "compiled", "python"}, hist), a \in RE({0, 0, 0, 1, 2}, hist), b \in RE({0, 0, 1, 3}, hist), ign \in RE({-1, 0, 1, 2}, hist), j \in RE({-1, -1, 0, 2, 5}, hist), force \in RE({TRUE, TRUE, FALSE}, hist) :
    \E e \in {IF ign < 0 THEN 3 ELSE ign} : \E pk \in {IF j < 0 THEN PeakOf(a, b) ELSE conf.npre + j} :
       IF Done /\ ~force THEN UNCHANGED <<conf, recs, res>> /\ Log([act |-> "sum", how |-> how, a |-> a, b |-> b, ign |-> ign, pk |-> j, force |-> force])
       ELSE Summarise(how, a, b, e, pk) /\ Log([act |-> "sum", how |-> how, a |-> a, b |-> b, ign |-> ign, pk |-> j, force |-> force])
GReopen == res # <<>> /\ UNCHANGED <<conf, recs, res>> /\ Log([act |-> "reopen"])
GSegment == \E per \in RE(1..7, hist) : conf' = [conf EXCEPT !.per = per] /\ UNCHANGED <<recs, res>> /\ Log([act |-> "segment", per |-> per])
\* the slope of single records, with any kernel
GSlope == \E i \in RE(DOMAIN recs, hist), ign \in RE(0..20, hist), kern \in RE({"", "", "SG", "own"}, hist), c \in {[j \in 1..5 |-> RandomElement(-3..3)]}, rej \in RE(BOOLEAN, hist) :
    UNCHANGED <<conf, recs, res>> /\ hist' = Append(hist, [act |-> "slope", i |-> i, ign |-> ign, kern |-> kern, c |-> c, rej |-> rej, obs |-> res,
        out |-> Steepest(recs[i], ign, CASE kern = "SG" -> SG [] kern = "own" -> c [] OTHER -> Default, rej)])
NextG == UNCHANGED <<x, k, st>> /\ IF hist = <<>> THEN Setup ELSE (TRUE /\ (GSum \/ GReopen \/ GSegment \/ GSlope))
OneRecord == res # <<>> => \A i \in DOMAIN recs : res.r[i].def.min <= res.r[i].def.min + res.r[i].def.pv
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
