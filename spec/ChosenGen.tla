------------------------------ MODULE ChosenGen ------------------------------
EXTENDS Chosen, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES ign, hist
RE(S, x) == {RandomElement(S)}
SetOf(f) == {<<k, f[k]>> : k \in DOMAIN f}
Obs == [out |-> SetOf(out), avg |-> SetOf(avg), bad |-> bad]
Log(a) == hist' = Append(hist, a @@ [obs |-> Obs']) /\ ign' = ign
InitG == p = [c \in Chans |-> <<>>] /\ out = [c \in Chans |-> {}] /\ cat = [c \in Chans |-> <<>>] /\ avg = [c \in Chans |-> <<>>] /\ bad = {} /\ ign = 0 /\ hist = <<>>
\* no mean of two of these sizes has another at exactly 5%
Sizes == {90, 93, 95, 97, 99, 121, 124, 127, 130}
RECURSIVE Timed(_, _)
Timed(s, k) == IF k = 0 THEN <<>> ELSE LET r == Timed(s, k - 1) IN Append(r, [s[k] EXCEPT !.t = @ + (IF k = 1 THEN 0 ELSE r[k - 1].t)])
Pulse(x, b) == [e |-> RandomElement({NaN, 0, 1, 2, 3, 4, 5, 6, 7}), f |-> RandomElement(0..7), t |-> RandomElement({0, 0, 1, 2, 5}), a |-> RandomElement(Sizes), rec |-> [j \in 1..NSamp |-> b + RandomElement(0..99)]]
Setup == \E b \in RE({0, 1000, 30000}, hist) : \E ps \in {[c \in Chans |-> [k \in 1..RandomElement({1, 2, 5, 9}) |-> Pulse(k, b)]]}, i \in RE({0, 1, 3}, hist) :
    /\ p' = [c \in Chans |-> Timed(ps[c], Len(ps[c]))] /\ cat' = [c \in Chans |-> [k \in 1..Len(ps[c]) |-> "uncategorized"]]
    /\ UNCHANGED <<out, avg, bad>> /\ hist' = <<[act |-> "setup", p |-> SetOf(p'), ign |-> i, obs |-> Obs']>> /\ ign' = i
Part(S, w) == {i \in S : RandomElement(0..99) < w}
Query(a) == UNCHANGED vars /\ Log(a)
GCut == \E c \in RE(Chans, hist), w \in RE({10, 10, 30, 60, 100}, hist) : \E S \in {Part(All(c), w)} : CutThose(c, S) /\ Log([act |-> "cut", c |-> c, out |-> S])
GCat == \E c \in RE(Chans, hist) : \E ks \in {[i \in All(c) |-> RandomElement(Cats)]} : Assign(c, ks) /\ Log([act |-> "cat", c |-> c, cat |-> ks])
GBad == \E c \in RE(Chans, hist) : MarkBad(c) /\ Log([act |-> "bad", c |-> c])
GGood == \E c \in RE(Chans, hist) : MarkGood(c) /\ Log([act |-> "good", c |-> c])
RECURSIVE Edges(_, _, _)
Edges(e, g, k) == IF k = 0 THEN <<e>> ELSE LET s == Edges(e, g, k - 1) IN Append(s, s[k] + g[k])
GHist == \E one \in RE(Chans, hist), q \in RE({"e", "f"}, hist), k \in RE(Cats \cup {""}, hist), t \in {[j \in 1..2 |-> RandomElement(-1..20)]}, r \in {[j \in 1..8 |-> RandomElement(0..99)]} :
    \E g \in {[c \in Chans |-> IF r[1] < 50 THEN All(c) ELSE Part(All(c), r[2])]}, edges \in {Edges(RandomElement({-2, 0, 0, 1, 3}), [j \in 1..4 |-> RandomElement({1, 1, 2, 3})], RandomElement(1..4))} :
    \E t0 \in {IF r[3] < 40 THEN 0 ELSE t[1]}, t1 \in {IF r[4] < 40 THEN 99 ELSE t[2]} :
       Query([act |-> "hist", one |-> one, q |-> q, k |-> k, t0 |-> t0, t1 |-> t1, g |-> SetOf(g), hasg |-> r[1] >= 50, edges |-> edges,
              own |-> Hist(one, q, k, t0, t1, g, edges), each |-> {<<c, Hist(c, q, k, t0, t1, g, edges)>> : c \in Shown}, group |-> GroupHist(q, k, t0, t1, g, edges)])
GRate == \E c \in RE(Chans, hist), og \in RE(BOOLEAN, hist), e \in RE(-2..3, hist), w \in RE({1, 2, 4}, hist), k \in RE(1..5, hist) : \E edges \in {Edges(e, [j \in 1..k |-> w], k)} :
       Query([act |-> "rate", c |-> c, good |-> og, edges |-> edges, counts |-> Rate(c, og, edges), w |-> w])
GFirst == \E c \in RE(Chans, hist), k \in RE(Cats \cup {""}, hist), n \in RE({1, 2, 3, 5, 50}, hist) : Query([act |-> "first", c |-> c, k |-> k, n |-> n, idx |-> FirstN(c, k, n)])
GAscii == Shown # {} /\ Query([act |-> "ascii", all |-> Energies])
GMasks == \E lo \in RE({80, 90, 93, 97}, hist), w \in RE({0, 7, 30, 50}, hist), gain \in {[c \in Chans |-> RandomElement({1, 1, 1, 2})]}, sub, force \in BOOLEAN, r \in RE(0..99, hist) :
    \E h \in {IF r < 50 THEN [c \in Chans |-> 1] ELSE gain} : \E m \in {[c \in Chans |-> Within(c, lo, lo + w, h[c])]} :
    /\ sub = (r % 3 # 0) /\ force = (r % 4 # 0)
    /\ IF \A c \in Shown : m[c] # {} \/ (Done(c) /\ ~force)
       THEN AvgMask(m, sub, ign, force) /\ Log([act |-> "avgm", m |-> SetOf(m), lo |-> lo, hi |-> lo + w, gain |-> SetOf(h), gains |-> r >= 50, sub |-> sub, force |-> force, done |-> TRUE])
       ELSE UNCHANGED vars /\ Log([act |-> "avgm", m |-> SetOf(m), lo |-> lo, hi |-> lo + w, gain |-> SetOf(h), gains |-> r >= 50, sub |-> sub, force |-> force, done |-> FALSE])
GAuto == \E n \in RE({1, 2, 3, 7000, 7000}, hist), one \in RE(Chans \cup {0}, hist), sub, force \in BOOLEAN, r \in RE(0..99, hist) :
    /\ sub = (r % 3 # 0) /\ force = (r % 4 # 0)
    /\ \E cs \in {IF one = 0 THEN Shown ELSE {one}} : AvgAuto(cs, one = 0, n, sub, ign, force)
           /\ Log([act |-> "avg", one |-> one, n |-> n, sub |-> sub, force |-> force, fails |-> {c \in cs : Fails(c, n)}])
NextG == IF hist = <<>> THEN Setup
         ELSE TRUE /\ (GCut \/ GCat \/ GHist \/ (\E j \in {1} : GHist) \/ (\E j \in {2} : GHist) \/ GRate \/ GFirst \/ GAscii \/ GMasks \/ (\E j \in {1} : GMasks) \/ GAuto \/ (\E j \in {1} : GAuto)
                       \/ (IF Len(hist) % 3 = 0 THEN GBad ELSE GGood) \/ (IF Len(hist) % 3 = 0 THEN GGood ELSE Query([act |-> "reopen"])))
Counted == \A i \in 1..Len(hist) : hist[i].act = "hist" => \A b \in DOMAIN hist[i].group : hist[i].group[b] = Sum(hist[i].each, LAMBDA x : x[2][b])
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
