------------------------------ MODULE NoiseGen ------------------------------
EXTENDS Noise, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES mode, hist
RE(S, x) == {RandomElement(S)}
Obs == IF mode = "acc" THEN [k \in Slots |-> [m |-> acc[k].m, over |-> acc[k].over, n |-> Len(acc[k].terms), terms |-> acc[k].terms]]
       ELSE [st |-> st, ds |-> ds, bad |-> bad]
Log(a) == mode' = mode /\ hist' = Append(hist, a @@ [obs |-> Obs'])
Query(a) == UNCHANGED vars /\ Log(a)
InitG == rec = <<<<0, 0>>>> /\ cont = FALSE /\ st = Zero /\ ds = Zero /\ bad = FALSE /\ acc = [k \in Slots |-> [m |-> 2, over |-> FALSE, last |-> <<>>, terms |-> <<>>]]
         /\ mode = "none" /\ hist = <<>>
Some(n, S) == [t \in 1..n |-> RandomElement(S)]
Record(n, r) == [t \in 1..n |-> IF RandomElement(1..r) = 1 THEN RandomElement({5, 6, 7}) ELSE RandomElement(0..3)]
SetupRec == \E n \in RE({4, 4, 4, 5, 6, 8, 12}, hist), k \in RE({2, 7, 14, 16, 24, 40}, hist), r \in RE({1000, 100, 100, 20}, hist) : \E rs \in {[i \in 1..k |-> Record(n, r)]}, c \in RE(BOOLEAN, hist) :
    /\ rec' = rs /\ cont' = c /\ UNCHANGED <<acc, st, ds, bad>> /\ mode' = "rec" /\ hist' = <<[act |-> "setup", mode |-> "rec", rec |-> rs, cont |-> c, obs |-> [st |-> st, ds |-> ds, bad |-> bad]]>>
SetupAcc == UNCHANGED vars /\ mode' = "acc" /\ hist' = <<[act |-> "setup", mode |-> "acc", obs |-> 0]>>
Setup == \E r \in RE(1..3, hist) : IF r = 1 THEN SetupAcc ELSE SetupRec
\* ---- accumulators
Kinds(n) == IF n = 4 THEN {"none", "hann", "bartlett", "welch", "ramp"} ELSE IF n = 2 THEN {"none", "ramp"} ELSE IF n = 12 THEN {"none", "bartlett"} ELSE {"none", "bartlett", "welch", "ramp"}
GNew == \E k \in RE(Slots, hist), m \in RE({1, 2, 2, 3, 4, 6}, hist), over \in RE({FALSE, FALSE, TRUE}, hist) : New(k, m, over) /\ Log([act |-> "new", k |-> k, m |-> m, over |-> over])
GAdd == \E k \in RE(Slots, hist) : \E kind \in RE(Kinds(2 * acc[k].m), hist), d \in RE({0, 0, 0, 0, 1, 2}, hist), nan \in RE({0, 0, 0, 0, 0, 1}, hist) :
    \E n \in {IF acc[k].over THEN acc[k].m ELSE 2 * acc[k].m + d} : \E x \in {Some(n, -4..4)} :
       IF nan = 1 /\ ~acc[k].over THEN Query([act |-> "nan", k |-> k, x |-> x, kind |-> kind])
       ELSE Add(k, x, Window(kind, 2 * acc[k].m)) /\ Log([act |-> "add", k |-> k, x |-> x, kind |-> kind, w |-> Window(kind, 2 * acc[k].m), fits |-> acc[k].over \/ d = 0])
GLong == \E k \in RE(Slots, hist) : \E kind \in RE(Kinds(2 * acc[k].m), hist), n \in RE(0..30, hist) :
    IF LongFits(acc[k], n) /\ (acc[k].over => (n - 1) \div acc[k].m \in {0, 1, 2, 3, 5})
    THEN \E x \in {Some(n, -4..4)} : Long(k, x, Window(kind, 2 * acc[k].m)) /\ Log([act |-> "long", k |-> k, x |-> x, kind |-> kind, w |-> Window(kind, 2 * acc[k].m)])
    ELSE Query([act |-> "idle"])
GCopy == \E k, j \in Slots : k # j /\ Copy(k, j) /\ Log([act |-> "copy", k |-> k, j |-> j])
GRebin == \E k \in RE(Slots, hist) : \E nb \in RE(1..acc[k].m + 1, hist) : Query([act |-> "rebin", k |-> k, nb |-> nb, fits |-> nb <= acc[k].m, bins |-> IF nb <= acc[k].m THEN Bins(acc[k].m, nb) ELSE <<>>])
GWhole == \E m \in RE({1, 2, 3, 4, 6}, hist), segs \in RE({1, 1, 2, 3, 4}, hist), d \in RE({0, 0, 1}, hist) : \E x \in {Some(2 * segs * m + d, -4..4)}, kind \in RE(Kinds(2 * m), hist) :
    Query([act |-> "whole", x |-> x, segs |-> segs, m |-> m, kind |-> kind, terms |-> Whole(x, segs, kind)])
GBroken == \E n \in RE(1..6, hist), k \in RE(1..4, hist), fl \in RE(BOOLEAN, hist) : \E rs \in {[i \in 1..k |-> Some(n, -4..4)]} :
    Query([act |-> "broken", rec |-> rs, float |-> fl, ac |-> AcBroken(rs, n, 0, n * k, 99)])
\* ---- records
Excursions == {1000, 1000, 6, 5, 3, 2}
GNoise == \E e \in RE(Excursions, hist), force \in RE(BOOLEAN, hist), grp \in RE(BOOLEAN, hist) :
    IF NS \in {4, 5} /\ AnyPsd(rec, cont, NS, e) /\ AnyAc(rec, cont, NS, 0, Total, e)
    THEN Noise(e, force, grp) /\ Log([act |-> "noise", exc |-> e, force |-> force, grp |-> grp, fails |-> NoiseFails(force, grp)])
    ELSE Query([act |-> "idle"])
GWhite == \E v \in RE({1, 3, 16}, hist), force \in RE(BOOLEAN, hist), grp \in RE(BOOLEAN, hist) : White(v, force, grp) /\ Log([act |-> "white", v |-> v, force |-> force, grp |-> grp])
Seg(r) == IF cont THEN (IF r < 30 THEN NS ELSE RandomElement({2, 4, 4, 5, 6, 8, 12})) ELSE NS
GPsd == \E r \in RE(0..99, hist), e \in RE(Excursions, hist) : \E seg \in {Seg(r)} :
    IF seg <= Total /\ AnyPsd(rec, cont, seg, e)
    THEN \E kind \in RE(Kinds(Even(seg)), hist) : ComputePsd(kind, seg, e) /\ Log([act |-> "psd", kind |-> kind, w |-> Window(kind, Even(seg)), seg |-> seg, exc |-> e, psd |-> Psd(rec, cont, seg, kind, e)])
    ELSE IF ~cont /\ r < 10 THEN Query([act |-> "seg", seg |-> NS + 1 + (r % 2)]) ELSE Query([act |-> "idle"])
Stretch(r) == IF r < 50 THEN <<0, Total>> ELSE LET a == RandomElement(0..Total - 1) IN <<a, RandomElement(a..Total)>>
Huge == 1000000
GAc == \E r \in RE(0..99, hist), q \in RE(0..99, hist), e \in RE(Excursions, hist), l \in RE(1..14, hist) : \E ab \in {Stretch(r)}, lags \in {IF q < 25 THEN NS ELSE IF q < 35 THEN Absent ELSE l} :
    \E k \in {IF lags # Absent THEN lags ELSE IF cont THEN Huge ELSE NS} :
    IF AnyAc(rec, cont, k, ab[1], ab[2], e)
    THEN ComputeAc(k, ab[1], ab[2], e) /\ Log([act |-> "ac", lags |-> lags, range |-> IF r < 40 THEN <<>> ELSE ab, exc |-> e, fails |-> LagsOf(rec, cont, k, ab[1], ab[2]) = 0,
                                              ac |-> IF LagsOf(rec, cont, k, ab[1], ab[2]) = 0 THEN <<>> ELSE Autocorr(rec, cont, k, ab[1], ab[2], e)])
    ELSE Query([act |-> "idle"])
\* noise read anew, without a place to store results; only the first of the records if asked
GAlone == \E c \in RE(BOOLEAN, hist), u \in RE(1..Len(rec) + 3, hist), r \in RE(0..99, hist), e \in RE(Excursions, hist), l \in RE(1..8, hist) :
    \E rs \in {SubSeq(rec, 1, IF r < 50 \/ u > Len(rec) THEN Len(rec) ELSE u)} : \E lags \in {IF c THEN l ELSE 1 + (l % NS)}, b \in {NS * Len(rs)} :
    IF AnyPsd(rs, c, NS, e) /\ AnyAc(rs, c, lags, 0, b, e)
    THEN \E kind \in RE(Kinds(Even(NS)), hist) :
         Query([act |-> "alone", cont |-> c, use |-> IF r < 50 THEN 0 ELSE u, kind |-> kind, w |-> Window(kind, Even(NS)), exc |-> e, psd |-> Psd(rs, c, NS, kind, e), lags |-> lags, fails |-> LagsOf(rs, c, lags, 0, b) = 0,
                ac |-> IF LagsOf(rs, c, lags, 0, b) = 0 THEN <<>> ELSE Autocorr(rs, c, lags, 0, b, e)])
    ELSE Query([act |-> "idle"])
GLags == \E l \in RE({4, 5}, hist), e \in RE(Excursions, hist) :
    IF AnyPsd(rec, TRUE, l, e) /\ AnyAc(rec, TRUE, l, 0, Total, e) /\ LagsOf(rec, TRUE, l, 0, Total) # 0
    THEN Query([act |-> "lags", lags |-> l, exc |-> e, psd |-> Psd(rec, TRUE, l, "hann", e), ac |-> Autocorr(rec, TRUE, l, 0, Total, e)]) ELSE Query([act |-> "idle"])
\* longer noise, for more lags
GMany == \E q \in RE(0..99, hist) : \E l \in {IF q < 20 THEN 33 + (q % 3) ELSE IF q < 40 THEN 17 + (q % 3) ELSE 2 + (q % 12)}, d \in RE({0, 0, 1, 2, 6}, hist) : \E k \in {(15 * l + 3) \div 4 + d} : \E rs \in {[i \in 1..k |-> [t \in 1..4 |-> RandomElement({0, 0, 1})]]} :
    Query([act |-> "many", rec |-> rs, lags |-> l, ac |-> Autocorr(rs, TRUE, l, 0, 4 * k, 1000)])
NextG == IF hist = <<>> THEN Setup
         ELSE IF mode = "acc" THEN TRUE /\ (GNew \/ GAdd \/ (\E j \in {1} : GAdd) \/ (\E j \in {2} : GAdd) \/ GLong \/ GCopy \/ GRebin \/ GWhole \/ GBroken)
         ELSE TRUE /\ (GMany \/ GNoise \/ (\E j \in {1} : GNoise) \/ GWhite \/ GPsd \/ (\E j \in {1} : GPsd) \/ GAc \/ (\E j \in {1} : GAc) \/ GAlone \/ GLags \/ Query([act |-> "reopen"]))
Sane == mode = "rec" => (ds.ac = <<>> \/ Len(ds.ac) = NS)
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
