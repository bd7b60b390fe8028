------------------------------ MODULE Crosstalk ------------------------------
(* K01: a pulse is flagged as crosstalking if some neighbour of its channel has a pulse in the time window around it.
   Neighbours are found per category from a map of positions: the n-th nearest are those at the n-th distance possible on the
   map.  Times are in units of the binding; windows end halfway between units.                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Chans, Cats, Keys
VARIABLES arr,      \* channel -> arrival times of its pulses (not a variable of histories)
          nn,       \* channel -> category -> set of neighbours [ch, sq, rank]; absent categories are not in the domain
          flags,    \* channel -> field -> set of flagged pulses; absent fields are not in the domain
          bad
vars == <<arr, nn, flags, bad>>
Pulses(c) == DOMAIN arr[c]
\* ---- positions
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Dims(map) == DOMAIN map[CHOOSE c \in DOMAIN map : TRUE]
Extent(map, d) == LET v == {map[c][d] : c \in DOMAIN map} IN Max2(v) - Min2(v)
RECURSIVE SumSq(_, _)
SumSq(v, k) == IF k = 0 THEN 0 ELSE v[k] * v[k] + SumSq(v, k - 1)
\* every squared distance that two places on the map could have
RECURSIVE Possible(_, _)
Possible(map, k) == IF k = 0 THEN {0} ELSE {a + i * i : a \in Possible(map, k - 1), i \in 0..Extent(map, k)}
Dist(map, a, b) == SumSq([d \in Dims(map) |-> map[a][d] - map[b][d]], Cardinality(Dims(map)))
Rank(map, s) == Cardinality({p \in Possible(map, Cardinality(Dims(map))) : p < s})
Neighbours(map, c) == {LET s == Dist(map, c, b) IN [ch |-> b, sq |-> s, rank |-> Rank(map, s)] : b \in DOMAIN map}
\* ---- flags
Hit(t, prior, post, perps) == \E p \in perps : \E i \in Pulses(p) : t - prior <= arr[p][i] /\ arr[p][i] <= t + post
\* only channels of the data set can be perpetrators, but bad ones can
Perps(c, cats, dists) == {n.ch : n \in UNION {{m \in nn[c][k] : m.rank \in dists} : k \in cats}} \cap Chans
Flagged(c, cats, dists, prior, post) == {i \in Pulses(c) : Hit(arr[c][i], prior, post, Perps(c, cats, dists))}
Field(key, cat) == IF cat = "" THEN key ELSE key \o "_" \o cat
Fields(c, key, comb) == {key} \cup (IF comb THEN {} ELSE {Field(key, k) : k \in DOMAIN nn[c]})
Done(c, key, comb) == Fields(c, key, comb) \subseteq DOMAIN flags[c] /\ flags[c][key] # {}
Computed(c, key, comb, dists, prior, post) == [f \in DOMAIN flags[c] \cup Fields(c, key, comb) |->
    IF f = key THEN Flagged(c, DOMAIN nn[c], dists, prior, post)
    ELSE IF f \in Fields(c, key, comb) THEN Flagged(c, {CHOOSE k \in DOMAIN nn[c] : Field(key, k) = f}, dists, prior, post)
    ELSE flags[c][f]]
\* ---- actions, over the good channels or a single one
Reach(scope) == IF scope = 0 THEN Chans \ bad ELSE {scope}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* a channel that is not on the map fails: it has a list without neighbours then
SetNN(scope, cat, map, force) ==
    LET new == {c \in Reach(scope) : force \/ cat \notin DOMAIN nn[c] \/ nn[c][cat] = {}}
        lost == new \ DOMAIN map
    IN /\ nn' = [c \in Chans |-> IF c \in lost THEN With(nn[c], cat, {}) ELSE IF c \in new THEN With(nn[c], cat, Neighbours(map, c)) ELSE nn[c]]
       /\ bad' = bad \cup lost /\ UNCHANGED <<arr, flags>>
Flag(scope, key, comb, dists, prior, post, force) ==
    /\ flags' = [c \in Chans |-> IF c \in Reach(scope) /\ DOMAIN nn[c] # {} /\ (force \/ ~Done(c, key, comb))
                                 THEN Computed(c, key, comb, dists, prior, post) ELSE flags[c]]
    /\ UNCHANGED <<arr, nn, bad>>
MarkBad(c) == bad' = bad \cup {c} /\ UNCHANGED <<arr, nn, flags>>
MarkGood(c) == bad' = bad \ {c} /\ UNCHANGED <<arr, nn, flags>>
Reopen == UNCHANGED vars

\* ---- exhaustive checking
CONSTANTS MaxT, MaxN, SmallMaps
Empty == [x \in {} |-> {}]
Init == /\ \E f \in [Chans -> UNION {[1..n -> 0..MaxT] : n \in 1..MaxN}] : (\A c \in Chans, i, j \in 1..MaxN : i < j /\ j \in DOMAIN f[c] => f[c][i] <= f[c][j]) /\ arr = f
        /\ nn = [c \in Chans |-> Empty] /\ flags = [c \in Chans |-> Empty] /\ bad = {}
NextSmall == \/ \E cat \in Cats, map \in SmallMaps, f \in BOOLEAN : SetNN(0, cat, map, f)
             \/ \E key \in Keys, comb, f \in BOOLEAN, w \in {<<0, 1>>, <<1, 1>>} : Flag(0, key, comb, {1}, w[1], w[2], f)
             \/ \E c \in Chans : MarkBad(c) \/ MarkGood(c)
\* what combined neighbours flag is what the categories flag together
Unions == \A c \in Chans : Flagged(c, DOMAIN nn[c], {1}, 0, 1) = UNION {Flagged(c, {k}, {1}, 0, 1) : k \in DOMAIN nn[c]}
Wider == \A c \in Chans : Flagged(c, DOMAIN nn[c], {1}, 0, 1) \subseteq Flagged(c, DOMAIN nn[c], {1, 2}, 1, 1)
Itself == \A c \in Chans, k \in Cats : k \in DOMAIN nn[c] => \A n \in nn[c][k] : (n.ch = c => n.sq = 0) /\ (n.rank = 0 <=> n.sq = 0)
\* flags are of existing pulses and stay unless computed anew
OnlyOnRequest == [][\A c \in Chans : \A f \in DOMAIN flags[c] : f \in DOMAIN flags'[c]]_vars
=============================================================================
