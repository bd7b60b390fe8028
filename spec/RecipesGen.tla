----------------------------- MODULE RecipesGen -----------------------------
EXTENDS Recipes, TLC, Json, Randomization
CONSTANTS Depth, MaxBang
VARIABLES hist
RE(S) == {RandomElement(S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
Obs == [names |-> {<<n, Column(defs, book[n])>> : n \in DOMAIN book}, defs |-> [d \in DOMAIN defs |-> Column(defs, d)], book |-> {<<n, book[n]>> : n \in DOMAIN book}]
Log(a) == hist' = Append(hist, a @@ [out |-> out', obs |-> Obs'])
InitG == Init /\ hist = <<>>
NameFor(op) == IF op \in CutOps THEN {n \in Names : IsCut(n)} ELSE {n \in Names : ~IsCut(n)}
\* ingredients: known ones mostly
Pool(op) == {n \in Base \cup DOMAIN book : op = "and" => IsCut(n)}
GAddWith(S(_), ows) == \E op \in RE(DOMAIN Ops) : S(op) # {} /\
   \E n \in RE(NameFor(op)), ow \in RE(ows), sty \in RE(0..3) : \E g \in RandomSubset(1, [1..Ops[op] -> S(op)]) :
     /\ (\A i \in DOMAIN g : Known(g[i])) => \A r \in DOMAIN Rows : LET v == TempColumn(op, g)[r] IN v < 1000000 /\ v > -1000000
     /\ Add(n, op, g, ow) /\ Log([act |-> "add", name |-> n, op |-> op, ings |-> g, ow |-> ow, sty |-> sty])
GAdd == GAddWith(Pool, {TRUE, TRUE, FALSE})
GAdd2 == GAddWith(LAMBDA op : {n \in DOMAIN book : (op = "and") => IsCut(n)}, {TRUE})
GAddU == GAddWith(LAMBDA op : Base \cup Names, {TRUE, FALSE})
GTemp == \E op \in RE(DOMAIN Ops) : Pool(op) # {} /\ \E g \in RandomSubset(1, [1..Ops[op] -> Pool(op)]) :
     (\A i, j \in DOMAIN g : g[i] = g[j] => i = j) /\ Temp(op, g) /\ Log([act |-> "temp", op |-> op, ings |-> g, val |-> TempColumn(op, g)])
GBang == LET K == {n \in DOMAIN book : IsCut(n)} IN K # {} /\ \E n \in RE(K), k \in RE(0..MaxBang) : UNCHANGED <<defs, book>> /\ out' = "ok" /\
     Log([act |-> "bang", name |-> n, k |-> k, val |-> [r \in DOMAIN Rows |-> IF k % 2 = 0 THEN Value(defs, book[n], r) ELSE 1 - Value(defs, book[n], r)]])
GReload == Reload /\ \E k \in RE(0..1) : Log([act |-> "reload", k |-> k])
GBadName == \E n \in RE(Names) : UNCHANGED <<defs, book>> /\ out' = "refused" /\ Log([act |-> "badname", name |-> n])
NextG == GAdd \/ GAdd \/ GAdd2 \/ GAdd2 \/ GAddU \/ GTemp \/ GBang \/ GReload \/ GBadName
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
