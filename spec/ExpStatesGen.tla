---------------------------- MODULE ExpStatesGen ----------------------------
EXTENDS ExpStates, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES hist, late
RE(S) == {RandomElement(S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
Sq(S) == SetToSortSeq(S, <)
Obs == [labels |-> Shown(nlog), raw |-> RawShown(nlog), nrec |-> {<<c, nrec[c]>> : c \in Chans}, bad |-> bad,
        fresh |-> {c \in Chans : rlog[c] = nlog /\ c \notin bad},
        view |-> {<<c, {<<L, Sq(InState(c, L, rlog[c], nrec[c]))>> : L \in ToSet(Shown(rlog[c]))}>> : c \in Chans},
        rawview |-> {<<c, {<<l, Sq(RawIn(c, l, nlog, nrec[c]))>> : l \in ToSet(RawShown(nlog))}>> : c \in Chans},
        late |-> late]
Log(a) == hist' = Append(hist, a @@ [obs |-> Obs'])
Times(t, ds) == FoldLeft(LAMBDA acc, d : Append(acc, (IF acc = <<>> THEN t ELSE acc[Len(acc)]) + d), <<>>, ds)
LatestT == Max({LastT} \cup {LastR(c) : c \in Chans})

InitG == /\ log = <<>> /\ recs = [c \in Chans |-> <<>>] /\ nlog = 0 /\ nrec = [c \in Chans |-> 0] /\ rlog = [c \in Chans |-> 0]
         /\ bad = {} /\ alias = [l \in Labels |-> l] /\ used = FALSE /\ inc = [c \in Chans |-> <<>>]
         /\ hist = <<>> /\ late = {}
KeepLate == UNCHANGED late
\* marks come soon after the last one, or at a time around the latest record
GMark == used /\ \E l \in RE(Labels), dt \in RE({0, 1, 2, 3, 5}), near \in RE({TRUE, FALSE}) :
            LET d == IF near /\ LatestT > LastT THEN LatestT - LastT + dt - 1 ELSE dt
            IN Mark(d, l) /\ KeepLate /\ Log([act |-> "mark", t |-> LastT + d, l |-> l])
GRecs == used /\ \E c \in RE(Chans), n \in RE({0, 1, 2, 3, 5}), dm \in RE({1, 3, 8}) : \E ds \in RandomSubset(1, [1..n -> {0, 1, 2, dm}]) : \E ts \in {Times(LastR(c), ds)} :
            Records(c, ts) /\ KeepLate /\ Log([act |-> "records", c |-> c, ts |-> ts])
GRefresh == used /\ Refresh /\ late' = late \cup {c \in Chans \ bad : Late(c, rlog[c], Len(log), nrec[c])} /\ Log([act |-> "refresh"])
GBad == used /\ \E c \in RE(Chans) : MarkBad(c) /\ KeepLate /\ Log([act |-> "markbad", c |-> c])
GGood == used /\ \E c \in bad : MarkGood(c) /\ KeepLate /\ Log([act |-> "markgood", c |-> c])
\* before the analysis is opened
GPre == ~used /\ Len(hist) = 0 /\
        \E n \in RE(1..4) : \E ls \in RandomSubset(1, [1..n -> Labels]), ds \in RandomSubset(1, [1..n -> 0..4]) :
        \E ts \in {Times(0, ds)} :
        /\ log' = [i \in 1..n |-> [t |-> ts[i], l |-> ls[i]]]
        /\ \E m \in RE(1..6) : \E D \in {{[d |-> SetToSeq(RandomSubset(1, [1..m -> {0, 1, 2, 5}]))[1], c |-> c] : c \in Chans}} :
              recs' = [c \in Chans |-> Times(0, (CHOOSE x \in D : x.c = c).d)]
        /\ UNCHANGED <<nlog, nrec, rlog, bad, alias, used, inc, late>>
        /\ hist' = Append(hist, [act |-> "write", log |-> log', recs |-> {<<c, recs'[c]>> : c \in Chans}, excl |-> Excl])
GAlias == ~used /\ Len(hist) > 0 /\ \E S \in {RSub(Labels)}, a \in RE(Labels \cup {"merged"}), k \in RE(0..1) :
            S # {} /\ alias' = [l \in Labels |-> IF l \in S THEN a ELSE alias[l]] /\ UNCHANGED <<log, recs, nlog, nrec, rlog, bad, used, inc, late>>
            /\ hist' = Append(hist, [act |-> "alias", S |-> S, a |-> a, k |-> k])
GOpen == ~used /\ Len(hist) > 0 /\ Refresh /\ KeepLate /\ Log([act |-> "open"])
NextG == GPre \/ GAlias \/ GOpen \/ GOpen \/ GMark \/ GRecs \/ GRecs \/ GRefresh \/ GRefresh \/ GBad \/ GGood
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
