------------------------------ MODULE CalibGen ------------------------------
EXTENDS Calib, TLC, Json, Randomization
CONSTANTS Depth, Storing
VARIABLES hist
RE(S) == {RandomElement(S)}
View(c) == [pts |-> c.pts, curve |-> c.curve, nl |-> c.nl, approx |-> c.approx, gpr |-> c.gpr, kind |-> Kind(c), probes |-> Probes(c), probes3 |-> Probes3(c), prop |-> Proportional(c)]
Obs(S) == [cals |-> {<<s, View(cal[s])>> : s \in S}, keys |-> DOMAIN store]
Log(a, S) == hist' = Append(hist, a @@ [out |-> out', obs |-> Obs(S)'])
InitG == Init /\ hist = <<>>
RName(x) == IF RandomElement(x) <= 2 THEN "" ELSE RandomElement(Names)
\* mostly along a rising curve
GAdd == \E s \in RE(Slots), k \in RE(1..20), j \in RE({0, 0, -1, 1, 0}), wild \in RE(1..12), n \in {RName(1..4)}, dp \in RE(DPHs), d \in RE(DEs), ow \in RE({TRUE, TRUE, FALSE}) :
        \E ph \in {IF wild = 1 THEN RandomElement(2..61) ELSE (3 * k) + j} :
        LET p == [n |-> n, ph |-> ph, e |-> 100 * k, dph |-> dp, de |-> d]
        IN Clear(cal[s], p) /\ Add(s, p, ow) /\ Log([act |-> "add", s |-> s, p |-> p, ow |-> ow], {s})
GAddF == \E s \in RE(Slots), i \in RE(DOMAIN Feats), j \in RE(-1..1), dp \in RE(DPHs), d \in RE(DEs), ow \in RE({TRUE, TRUE, FALSE}) :
        LET p == [n |-> Feats[i].n, ph |-> ((3 * Feats[i].e) \div 100) + j, e |-> Feats[i].e, dph |-> dp, de |-> d]
        IN Clear(cal[s], p) /\ Add(s, p, ow) /\ Log([act |-> "addf", s |-> s, p |-> p, ow |-> ow], {s})
\* once more for an existing point: by name or by energy
GUpdate == \E s \in RE(Slots) : cal[s].pts /= <<>> /\ \E q \in RE(PtSet(cal[s])), j \in RE(-2..2), m \in RE({-100, 0, 0, 100}), named \in RE(BOOLEAN), dp \in RE(DPHs), d \in RE(DEs), ow \in RE({TRUE, TRUE, FALSE}) :
        LET p == [n |-> IF named THEN q.n ELSE "", ph |-> q.ph + j, e |-> q.e + m, dph |-> dp, de |-> d]
        IN p.ph > 0 /\ p.e > 0 /\ q.e % 100 = 0 /\ Clear(cal[s], p) /\ Add(s, p, ow) /\ Log([act |-> "add", s |-> s, p |-> p, ow |-> ow], {s})
GAddUnknown == RandomElement(1..4) = 1 /\ \E s \in RE(Slots) : AddUnknown(s) /\ Log([act |-> "addunknown", s |-> s], {s})
GRmName == RandomElement(1..2) = 1 /\ \E s \in RE(Slots) : \E n \in RE((Names \cup {Feats[i].n : i \in DOMAIN Feats} \cup {q.n : q \in PtSet(cal[s])}) \ {""}) : RmName(s, n) /\ Log([act |-> "rmname", s |-> s, n |-> n], {s})
GRmPrefix == RandomElement(1..3) = 1 /\ \E s \in RE(Slots), x \in RE(Heads) : RmPrefix(s, x) /\ Log([act |-> "rmprefix", s |-> s, x |-> x], {s})
GRmEnergy == RandomElement(1..2) = 1 /\ \E s \in RE(Slots), k \in RE(1..20), d \in RE({1, 50, 100, 101, 250, 450, 650}) : RmEnergy(s, 100 * k, d) /\ Log([act |-> "rmenergy", s |-> s, e |-> 100 * k, d |-> d], {s})
GSet == \E s \in RE(Slots), w \in RE({"curve", "curve", "nl", "approx", "gpr"}), ct \in RE(ToSet(Curves)), b \in RE(BOOLEAN), n \in RE(10..13) :
        /\ (IF w = "curve" THEN SetCurve(s, ct) ELSE IF w = "nl" THEN SetNL(s, n) ELSE IF w = "approx" THEN SetApprox(s, b) ELSE SetGPR(s, b))
        /\ Log([act |-> "set", s |-> s, w |-> w, ct |-> ct, b |-> b, n |-> n], {s})
GNew == RandomElement(1..8) = 1 /\ \E s \in RE(Slots), ct \in RE(ToSet(Curves)), n \in RE(10..13), a \in RE(BOOLEAN), g \in RE(BOOLEAN) : New(s, ct, n, a, g) /\ Log([act |-> "new", s |-> s, ct |-> ct, n |-> n, a |-> a, g |-> g], {s})
GCopy == \E s \in RE(Slots), d \in RE(Slots) : s /= d /\ CopyTo(s, d) /\ Log([act |-> "copy", s |-> s, d |-> d], Slots)
GUse == \E s \in RE(Slots) : Use(s) /\ Log([act |-> "use", s |-> s], {s})
GUseAll == Use(CHOOSE s \in Slots : TRUE) /\ Log([act |-> "useall"], Slots)
GSave == Storing /\ \E s \in RE(Slots), k \in RE(Keys) : Save(s, k) /\ Log([act |-> "save", s |-> s, k |-> k], {s})
GLoad == Storing /\ \E s \in RE(Slots), k \in RE(Keys) : Load(k, s) /\ Log([act |-> "load", s |-> s, k |-> k], {s})
GReopen == Storing /\ Use(CHOOSE s \in Slots : TRUE) /\ hist' = Append(hist, [act |-> "reopen", out |-> "ok", obs |-> [cals |-> {}, keys |-> DOMAIN store], stored |-> {<<k, View(store[k])>> : k \in DOMAIN store}])
NextG == GAdd \/ GAdd \/ (\E k \in {1} : GAdd) \/ (\E k \in {2} : GAdd) \/ (\E k \in {3} : GAdd) \/ GAddF \/ GUpdate \/ GAddUnknown \/ GRmName \/ GRmPrefix \/ GRmEnergy \/ GSet \/ (\E k \in {1} : GSet) \/ GNew \/ GCopy \/ GUse \/ (\E k \in {1} : GUse) \/ GUseAll \/ GSave \/ GLoad \/ GReopen
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
