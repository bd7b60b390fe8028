------------------------------ MODULE CutsGen ------------------------------
(* Random behaviours of Cuts, each step recorded with everything a user can see afterwards. *)
EXTENDS Cuts, TLC, Json, Randomization
CONSTANTS Depth, CatPool
VARIABLES hist

\* A random subset of S of any size
RS(S) == {RandomSubset(RandomElement(0..Cardinality(S)), S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
RE(S) == {RandomElement(S)}

Obs(q, s) == [bad |-> [c \in C |-> [n \in DOMAIN bits |-> {p \in P : n \in bad[c][p]}]],
        cat |-> [c \in C |-> [n \in DOMAIN cfld |-> [p \in P |-> cfld[n].cats[cat[c][p][n]]]]],
        cats |-> [n \in DOMAIN cfld |-> cfld[n].cats],
        nused |-> Cardinality(Used),
        q |-> q, s |-> s,
        qok |-> (q \subseteq DOMAIN bits) /\ SelOK(s),
        good |-> IF (q \subseteq DOMAIN bits) /\ SelOK(s) THEN [c \in C |-> Good(c, q, s)] ELSE <<>>,
        badq |-> IF (q \subseteq DOMAIN bits) /\ SelOK(s) THEN [c \in C |-> Bad(c, q, s)] ELSE <<>>]

SelPool == {<<n, k>> : n \in CNames \cup {"calibration"}, k \in CatPool \cup {"in", "out"}}
\* at most one category asked per field; sometimes unknown
Sels1(P0) == {{RandomElement(P0)}}

Log(a) == \E q \in RE({{}, BNames, DOMAIN bits', RSub(DOMAIN bits'), RSub(BNames)}) :
          \E s \in RE({{}} \cup Sels1(SelPool) \cup {{<<n, RandomElement(ToSet(cfld'[n].cats))>> : n \in RSub(DOMAIN cfld')}}) :
             hist' = Append(hist, a @@ [out |-> out', obs |-> Obs(q, s)'])

InitG == Init /\ hist = <<>>
AnyB == BNames \cup DOMAIN bits
AnyC == CNames \cup DOMAIN cfld

GRegB   == \E n \in RE(BNames), m \in RE(BNames), two \in {TRUE, FALSE} :
             LET names == IF two THEN <<n, m>> ELSE <<n>> IN RegB(names) /\ Log([act |-> "regb", names |-> names])
GUnregB == \E n \in RE(AnyB), m \in RE(AnyB), two \in {TRUE, FALSE} :
             LET names == IF two THEN <<n, m>> ELSE <<n>> IN UnregB(names) /\ Log([act |-> "unregb", names |-> names])
GRegC   == \E n \in RE(CNames), cs \in RE(CatSeqs), d \in RE(Defaults) : RegC(n, cs, d) /\ Log([act |-> "regc", name |-> n, cats |-> cs, def |-> d])
GUnregC == \E n \in RE(AnyC) : UnregC(n) /\ Log([act |-> "unregc", name |-> n])
GCutB   == \E c \in RE(C), n \in RE(AnyB), S \in RS(P), i \in RE({TRUE, FALSE}) : CutB(c, n, S) /\ Log([act |-> "cutb", c |-> c, name |-> n, S |-> S, byint |-> i])
GCutB2  == DOMAIN bits /= {} /\ \E c \in RE(C), n \in RE(DOMAIN bits), S \in RS(P), i \in RE({TRUE, FALSE}) : CutB(c, n, S) /\ Log([act |-> "cutb", c |-> c, name |-> n, S |-> S, byint |-> i])
GCutC   == DOMAIN cfld /= {} /\ \E c \in RE(C), n \in RE(DOMAIN cfld) :
             \E ks \in RS(ToSet(cfld[n].cats) \cup {RandomElement(CatPool)}) :
             \E f \in RandomSubset(1, [ks -> SUBSET P]) :
               LET a == {<<k, f[k]>> : k \in ks} IN CutC(c, n, a) /\ Log([act |-> "cutc", c |-> c, name |-> n, assign |-> a])
GCutC2  == DOMAIN cfld /= {} /\ \E c \in RE(C), n \in RE(DOMAIN cfld) :   \* conflict-free assignments
             \E f \in RandomSubset(1, [P -> DOMAIN cfld[n].cats \cup {0}]) :
               LET a == {<<cfld[n].cats[i], {p \in P : f[p] = i}>> : i \in {i \in DOMAIN cfld[n].cats : \E p \in P : f[p] = i}}
               IN CutC(c, n, a) /\ Log([act |-> "cutc", c |-> c, name |-> n, assign |-> a])
GCodes  == DOMAIN cfld /= {} /\ \E c \in RE(C), n \in RE(DOMAIN cfld) : \E f \in RandomSubset(1, [P -> DOMAIN cfld[n].cats]) :
             CutCodes(c, n, f) /\ Log([act |-> "codes", c |-> c, name |-> n, labels |-> [p \in P |-> cfld[n].cats[f[p]]]])
GClear  == \E c \in RE(C), S \in {{}, RSub(AnyB), {RandomElement(AnyB)}} : Clear(c, S) /\ Log([act |-> "clear", c |-> c, names |-> S])
GReopen == Reopen /\ Log([act |-> "reopen"])

NextG == GRegB \/ GUnregB \/ GRegC \/ GUnregC \/ GCutB \/ GCutB2 \/ GCutC \/ GCutC2 \/ GCodes \/ GClear \/ GReopen
\* registry-heavy behaviours (C02)
GRegBs  == \E s \in {SetToSeq(RSub(BNames))} : RegB(s) /\ Log([act |-> "regb", names |-> s])
GRegNew == BNames \ DOMAIN bits /= {} /\ \E n \in RE(BNames \ DOMAIN bits) : RegB(<<n>>) /\ Log([act |-> "regb", names |-> <<n>>])
NextR == GRegB \/ GRegNew \/ GRegBs \/ GUnregB \/ GRegC \/ GRegC \/ GRegC \/ GUnregC \/ GCutB2 \/ GCodes \/ GReopen
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
