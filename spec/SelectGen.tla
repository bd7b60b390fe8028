----------------------------- MODULE SelectGen -----------------------------
EXTENDS Select, TLC, Json, Randomization
CONSTANTS Depth, NRec, XRange, NMarks, Bounds, Edges, Grows
VARIABLES hist
RE(S) == {RandomElement(S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
Log(a) == hist' = Append(hist, a @@ [out |-> out', bad |-> bad', shown |-> SelectSeq(Order, LAMBDA c : c \notin bad')])
\* records: values x, and times that never decrease
XS == XRange \cup {NaN}
Recs(n, t0, xs, ds) == [i \in 1..n |-> [x |-> xs[i], u |-> t0 + FoldLeft(LAMBDA a, d : a + d, 0, SubSeq(ds, 1, i))]]
RandRecs(n, t0) == CHOOSE r \in {Recs(n, t0, xs, ds) : xs \in RandomSubset(1, [1..n -> XS]), ds \in RandomSubset(1, [1..n -> 0..2])} : TRUE
InitG == /\ \E n1 \in RE([Chans -> 1..NRec]) :
            \E m \in RE(1..NMarks) : \E ls \in RandomSubset(1, [1..m -> Labels \cup Excl]), ds \in RandomSubset(1, [1..m -> 0..6]) :
              \E F \in {[c \in Chans |-> RandRecs(n1[c], 0)]} :
                /\ InitWith(F, [i \in 1..m |-> [l |-> ls[i], t |-> FoldLeft(LAMBDA a, d : a + d, 0, SubSeq(ds, 1, i))]])
                /\ hist = <<[act |-> "open", recs |-> [i \in DOMAIN Order |-> F[Order[i]]], marks |-> marks, chans |-> Order, excl |-> Excl, out |-> "ok", bad |-> {}, shown |-> Order]>>
LabelPool == KnownStates
RandSel(k) == CASE k = "all" -> {[k |-> "all", b |-> <<>>, l |-> <<>>]}
            [] k = "nocut" -> {[k |-> "nocut", b |-> <<>>, l |-> <<>>]}
            [] k = "slice" -> {[k |-> "slice", b |-> b, l |-> <<>>] : b \in RandomSubset(1, [1..1 -> Bounds \X Bounds])}
            [] k = "slices" -> UNION {{[k |-> "slices", b |-> b, l |-> <<>>] : b \in RandomSubset(1, [1..n -> Bounds \X Bounds])} : n \in RE(0..3)}
            [] k = "state" -> {[k |-> "state", b |-> <<>>, l |-> <<l>>] : l \in RE(LabelPool)}
            [] k = "states" -> UNION {{[k |-> "states", b |-> <<>>, l |-> l] : l \in RandomSubset(1, [1..n -> LabelPool])} : n \in RE(1..3)}
Kinds == {"all", "nocut", "slice", "slices"} \cup IF LabelPool = {} THEN {} ELSE {"state", "states"}
HKinds == {"all", "all2"} \cup IF LabelPool = {} THEN {} ELSE {"state", "states"}
RandCut(S) == {[n |-> n, neg |-> b, dflt |-> FALSE] : n \in RE(S), b \in RE({FALSE, FALSE, TRUE})}
\* the cut asked for, or none: then the default of the channel
Effective(c, g) == IF g.dflt THEN Default(c) ELSE [n |-> g.n, neg |-> g.neg]
CutOrDefault(S) == IF RandomElement(1..3) = 1 THEN {[n |-> "", neg |-> FALSE, dflt |-> TRUE]} ELSE RandCut(S)

GCutAdd == \E c \in RE(Chans), n \in RE(CutNames), p \in RE(Preds), ow \in RE(BOOLEAN), d \in RE(BOOLEAN) :
   CutAdd(c, n, p, ow, d) /\ Log([act |-> "cutadd", c |-> c, n |-> n, p |-> p, ow |-> ow, def |-> d])
GGroupCutAdd == \E n \in RE(CutNames), p \in RE(Preds), ow \in RE({TRUE, TRUE, FALSE}), d \in RE(BOOLEAN) :
   GroupCutAdd(n, p, ow, d) /\ Log([act |-> "groupcutadd", n |-> n, p |-> p, ow |-> ow, def |-> d])
GSetDef == \E c \in RE(Chans), n \in RE(CutNames \cup {"cutNone"}) : SetDefault(c, n) /\ Log([act |-> "setdef", c |-> c, n |-> n])
GGroupSetDef == \E n \in RE(CutNames \cup {"cutNone"}) : GroupSetDefault(n) /\ Log([act |-> "groupsetdef", n |-> n])
GBad == \E B \in RE(SUBSET Chans) : SetBad(B) /\ Log([act |-> "setbad"])
GGrow == Grows /\ \E n1 \in RE([Chans -> 0..3]) : \E N \in {[c \in Chans |-> RandRecs(n1[c], file[c][Len(file[c])].u)]} :
     (\A c \in Chans : Len(file[c]) < 3 * NRec) /\ Grow(N) /\ Log([act |-> "grow", new |-> [i \in DOMAIN Order |-> N[Order[i]]]])
GGet == \E c \in RE(Chans), k \in RE(Kinds) : \E s \in RandSel(k), g \in CutOrDefault(AllCuts(c)) :
   UNCHANGED vars /\ Log([act |-> "get", c |-> c, s |-> s, g |-> g, idx |-> Get(c, s, Effective(c, g))])
GGetUnknown == \E c \in RE(Chans) : CutNames \ AllCuts(c) # {} /\ \E n \in RE(CutNames \ AllCuts(c)), k \in RE({"all", "slice"}) : \E s \in RandSel(k) :
   out' = "refused" /\ UNCHANGED <<file, vis, marks, cuts, dflt, bad>> /\ Log([act |-> "getunknown", c |-> c, s |-> s, n |-> n])
GHist == \E c \in RE(Chans), k \in RE(HKinds), e \in RE(Edges), f \in RE(1..2) : \E s \in RandSel(IF k = "all2" THEN "all" ELSE k), g \in CutOrDefault(AllCuts(c)) :
   UNCHANGED vars /\ Log([act |-> "hist", c |-> c, s |-> s, g |-> g, e |-> e, f |-> f, h |-> Hist(c, s, Effective(c, g), e, f)])
\* group histograms: the channels shown, or those named
CommonCuts(S) == {n \in CutNames \cup {"cutNone"} : \A c \in S : n \in AllCuts(c)}
GGroupHist == \E k \in RE(HKinds), e \in RE(Edges), named \in RE({FALSE, FALSE, TRUE}) : \E S \in {IF named THEN RSub(Chans) ELSE Chans \ bad} :
   S # {} /\ \E s \in RandSel(IF k = "all2" THEN "all" ELSE k), g \in CutOrDefault(CommonCuts(S)) :
     LET q == SelectSeq(Order, LAMBDA c : c \in S)
         hs == [i \in DOMAIN q |-> Hist(q[i], s, Effective(q[i], g), e, 1)]
     IN UNCHANGED vars /\ Log([act |-> "grouphist", s |-> s, g |-> g, e |-> e, named |-> named, q |-> q, hs |-> hs, sum |-> SumHist(hs, Len(e) - 1)])
\* stored in HDF5: for each channel shown, each state and all records; with no cut asked for, the default where all channels shown agree
ExportCut(S) == IF Cardinality({dflt[c] : c \in S}) = 1 THEN CutOrDefault(CommonCuts(S)) ELSE RandCut(CommonCuts(S))
GExport == \E e \in RE(Edges), what \in RE({"hists", "times"}) : LET S == Chans \ bad IN S # {} /\ \E g \in ExportCut(S) :
     LET q == ShownSeq
         L == SetToSeq(KnownStates)
         A == [k |-> "all", b |-> <<>>, l |-> <<>>]
         St(l) == [k |-> "state", b |-> <<>>, l |-> <<l>>]
         al == [i \in DOMAIN q |-> Hist(q[i], A, Effective(q[i], g), e, 1)]
         st == [j \in DOMAIN L |-> [i \in DOMAIN q |-> Hist(q[i], St(L[j]), Effective(q[i], g), e, 1)]]
     IN UNCHANGED vars /\ Log([act |-> "export", what |-> what, g |-> g, used |-> Effective(q[1], g), e |-> e, q |-> q, L |-> L, all |-> al, st |-> st,
           sumall |-> SumHist(al, Len(e) - 1), sumst |-> [j \in DOMAIN L |-> SumHist(st[j], Len(e) - 1)],
           idx |-> [j \in DOMAIN L |-> [i \in DOMAIN q |-> Get(q[i], St(L[j]), Effective(q[i], g))]],
           idxall |-> [i \in DOMAIN q |-> Get(q[i], A, Effective(q[i], g))]])
NextG == GCutAdd \/ GGroupCutAdd \/ GSetDef \/ GGroupSetDef \/ GBad \/ GGrow \/ GGet \/ GGet \/ GGet \/ GGet \/ GGetUnknown \/ GHist \/ GHist \/ GGroupHist \/ GExport
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
