----------------------------- MODULE CrosstalkGen -----------------------------
EXTENDS Crosstalk, TLC, Json, Randomization
CONSTANTS Depth, Elsewhere
VARIABLES hist
RE(S, x) == {RandomElement(S)}
SetOf(f) == {<<k, f[k]>> : k \in DOMAIN f}
Obs == [nn |-> {<<c, SetOf(nn[c])>> : c \in Chans}, flags |-> {<<c, SetOf(flags[c])>> : c \in Chans}, bad |-> bad]
Log(a) == hist' = Append(hist, a @@ [obs |-> Obs'])
InitG == arr = [c \in Chans |-> <<>>] /\ nn = [c \in Chans |-> Empty] /\ flags = [c \in Chans |-> Empty] /\ bad = {} /\ hist = <<>>
RECURSIVE Times(_, _)
Times(g, k) == IF k = 0 THEN <<>> ELSE LET s == Times(g, k - 1) IN Append(s, (IF k = 1 THEN 0 ELSE s[k - 1]) + g[k])
Setup == \E g \in {[c \in Chans |-> [k \in 1..RandomElement({1, 2, 5, 9}) |-> RandomElement({0, 1, 2, 3, 5, 9, 14})]]} :
    /\ arr' = [c \in Chans |-> Times(g[c], Len(g[c]))] /\ UNCHANGED <<nn, flags, bad>> /\ Log([act |-> "setup", arr |-> SetOf(arr')])
Position(n, w, x) == [d \in 1..n |-> RandomElement(0..w[d])]
Mapped(r, x) == {c \in Chans \cup Elsewhere : c \in Chans \/ RandomElement({0, 1}) = 1} \ (IF r < 20 THEN {RandomElement(Chans)} ELSE {})
GSet == \E cat \in RE(Cats, hist), n \in RE({1, 1, 2, 2, 3}, hist), w \in {[d \in 1..3 |-> RandomElement({0, 1, 2, 4})]}, force \in RE(BOOLEAN, hist), r \in RE(0..99, hist) :
    \E cs \in {Mapped(r, hist)} : \E map \in {[c \in cs |-> Position(n, w, hist)]}, one \in RE({0} \cup (cs \cap Chans), hist) :
    \E scope \in {IF r % 3 = 0 THEN one ELSE 0} :
       SetNN(scope, cat, map, force) /\ Log([act |-> "set", scope |-> scope, cat |-> cat, map |-> SetOf(map), force |-> force])
GFlag == \E key \in RE(Keys, hist), comb \in RE(BOOLEAN, hist), dists \in RE({{1}, {1}, {1, 2}, {2}, {0}, {1, 2, 3, 4}, {7}}, hist), prior \in RE({0, 1, 2, 4, 8}, hist), post \in RE({0, 1, 3, 6}, hist),
            force \in RE(BOOLEAN, hist), r \in RE(0..2, hist), one \in RE(Chans, hist) :
    \E scope \in {IF r = 0 THEN one ELSE 0} :
       Flag(scope, key, comb, dists, prior, post, force) /\ Log([act |-> "flag", scope |-> scope, key |-> key, comb |-> comb, dists |-> dists, prior |-> prior, post |-> post, force |-> force])
GBad == \E c \in RE(Chans, hist) : MarkBad(c) /\ Log([act |-> "bad", c |-> c])
GGood == \E c \in RE(Chans, hist) : MarkGood(c) /\ Log([act |-> "good", c |-> c])
NextG == IF hist = <<>> THEN Setup ELSE TRUE /\ (GSet \/ (\E k \in {1} : GSet) \/ GFlag \/ (\E k \in {1} : GFlag) \/ (\E k \in {2} : GFlag) \/ GBad \/ GGood \/ (Reopen /\ Log([act |-> "reopen"])))
Real == \A c \in Chans : \A f \in DOMAIN flags[c] : flags[c][f] \subseteq Pulses(c)
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
