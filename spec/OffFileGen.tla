---------------------------- MODULE OffFileGen ----------------------------
EXTENDS OffFile, TLC, Json, Randomization
CONSTANTS Depth, NBs, NSs
VARIABLES hist
RE(S) == {RandomElement(S)}
Log(a) == hist' = Append(hist, a @@ [out |-> out', n |-> seen', size |-> bytes', R |-> R, held |-> [k \in DOMAIN held' |-> [i \in 1..(held'[k].hi - held'[k].lo + 1) |-> Record(held'[k].lo + i - 1)]]])
InitG == /\ ver \in RE({"0.1.0", "0.2.0", "0.3.0"}) /\ nb \in RE(NBs) /\ ns \in RE(NSs)
         /\ head = FALSE /\ bytes = 0 /\ seen = -1 /\ held = <<>> /\ out = "ok"
         /\ hist = <<[act |-> "start", ver |-> ver, nb |-> nb, ns |-> ns, basis |-> [z \in 1..ns |-> [j \in 1..nb |-> Basis(z, j)]],
                      proj |-> [j \in 1..nb |-> [z \in 1..ns |-> Proj(j, z)]]]>>
GHead == WriteHeader /\ \E k \in RE(0..4) : Log([act |-> "header", k |-> k])
\* whole records, torn records, single bytes
GAppend == \E q \in RE(0..4), d \in RE({0, 0, 0, 1, 2, R - 1, R \div 2, 28}) : LET k == q * R + d IN
   k > 0 /\ bytes + k < 40 * R /\ Append_(k) /\ Log([act |-> "append", k |-> k, rows |-> [i \in 1..((bytes + k) \div R + 1) |-> Record(i)]])
\* the rest of a torn record
GMend == (bytes % R) # 0 /\ LET k == R - (bytes % R) IN Append_(k) /\ Log([act |-> "append", k |-> k, rows |-> [i \in 1..((bytes + k) \div R + 1) |-> Record(i)]])
GOpen == \E k \in RE(0..1) : Open /\ Log([act |-> "open", k |-> k])
GRefresh == Refresh /\ Log([act |-> "refresh"])
GHold == seen > 0 /\ \E lo \in RE(1..seen) : \E hi \in RE(lo..seen) : Len(held) < 3 /\ Hold(lo, hi) /\ Log([act |-> "hold", lo |-> lo, hi |-> hi])
Reading == seen >= 0 /\ UNCHANGED vars
GRec == Reading /\ \E i \in RE((-seen - 2)..(seen + 1)) :      \* a Python index
   LET j == IF i < 0 THEN seen + i + 1 ELSE i + 1
       ok == j \in 1..seen
   IN Log([act |-> "rec", i |-> i, ok |-> ok, rec |-> IF ok THEN Record(j) ELSE <<>>, model |-> IF ok THEN Modeled(j) ELSE <<>>, pre |-> IF ok THEN PreSamples(j) ELSE 0])
GSlice == Reading /\ \E a \in RE(0..(seen + 2)), b \in RE(0..(seen + 2)), st \in RE(1..3) :
   LET hi == IF b < seen THEN b ELSE seen
       m == IF hi <= a THEN 0 ELSE (hi - a + st - 1) \div st
   IN Log([act |-> "slice", a |-> a, b |-> b, st |-> st, recs |-> [k \in 1..m |-> Record(a + (k - 1) * st + 1)]])
GAll == Reading /\ Log([act |-> "all", recs |-> [k \in 1..seen |-> Record(k)]])
NextG == GHead \/ GAppend \/ GAppend \/ GMend \/ GOpen \/ GRefresh \/ GRefresh \/ GHold \/ GRec \/ GSlice \/ GAll
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
