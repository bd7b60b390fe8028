------------------------------ MODULE Select ------------------------------
(* O05 (and the selecting side of O06): what a selection of records of an OFF channel returns, given the records known, the experiment states, *)
(* the cuts defined on each channel, the default cut in force there, and the channels shown.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Chans,        \* channel numbers
          Labels, Excl, \* state labels; those excluded
          CutNames,     \* names a user may give cuts ("cutNone" always exists)
          Preds         \* the predicates: [k |-> "lt"/"ge"/"odd"/"all"/"none", v |-> integer]
NaN == -99999
None == -88888          \* an absent slice bound
VARIABLES file,   \* per channel, all records written: sequence of [x, u]
          vis,    \* per channel, how many are known (the last refresh that reached it)
          marks,  \* the state log: sequence of [t, l], t non-decreasing
          cuts,   \* per channel: name -> predicate
          dflt,   \* per channel: the default cut
          bad,    \* channels marked bad
          out
vars == <<file, vis, marks, cuts, dflt, bad, out>>
static == <<file, marks>>

Order == SetToSortSeq(Chans, <)
ShownSeq == SelectSeq(Order, LAMBDA c : c \notin bad)
Pass(p, x) == CASE p.k = "all" -> TRUE
                [] p.k = "none" -> FALSE
                [] p.k = "lt" -> x # NaN /\ x < p.v
                [] p.k = "ge" -> x # NaN /\ x >= p.v
                [] p.k = "odd" -> x # NaN /\ x % 2 = 1
AllCuts(c) == DOMAIN cuts[c]
CutPass(c, g, i) == LET ok == Pass(cuts[c][g.n], file[c][i].x) IN IF g.neg THEN ~ok ELSE ok      \* g = [n, neg]

\* ---- selections of records, as sequences of record numbers (1..vis[c]) ----
Active(t) == LET S == {i \in DOMAIN marks : marks[i].t <= t} IN IF S = {} THEN 0 ELSE Max(S)
StateOf(c, i) == LET a == Active(file[c][i].u) IN IF a = 0 THEN "" ELSE IF marks[a].l \in Excl THEN "" ELSE marks[a].l
All(c) == [i \in 1..vis[c] |-> i]
StateIdx(c, l) == SelectSeq(All(c), LAMBDA i : StateOf(c, i) = l)
Clip(b, n) == IF b < 0 THEN (IF b + n < 0 THEN 0 ELSE b + n) ELSE IF b > n THEN n ELSE b
SliceIdx(n, a, b) == LET lo == IF a = None THEN 0 ELSE Clip(a, n)          \* Python's s[a:b], as 1-based numbers
                         hi == IF b = None THEN n ELSE Clip(b, n)
                     IN IF hi <= lo THEN <<>> ELSE [i \in 1..(hi - lo) |-> lo + i]
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Index(c, s) == CASE s.k = "all" -> All(c)
                 [] s.k = "nocut" -> All(c)
                 [] s.k = "slice" -> SliceIdx(vis[c], s.b[1][1], s.b[1][2])
                 [] s.k = "slices" -> Concat([j \in DOMAIN s.b |-> SliceIdx(vis[c], s.b[j][1], s.b[j][2])])
                 [] s.k = "states" -> Concat([j \in DOMAIN s.l |-> StateIdx(c, s.l[j])])
                 [] s.k = "state" -> StateIdx(c, s.l[1])
Get(c, s, g) == IF s.k = "nocut" THEN Index(c, s) ELSE SelectSeq(Index(c, s), LAMBDA i : CutPass(c, g, i))
Default(c) == [n |-> dflt[c], neg |-> FALSE]
Known(c, g) == g.n \in AllCuts(c)
KnownStates == {marks[i].l : i \in DOMAIN marks} \ Excl
StatesOK(s) == \A j \in DOMAIN s.l : s.l[j] \in KnownStates

\* ---- histograms: bins are [e1,e2), ..., the last one closed; NaN is in none ----
Bin(e, x) == IF x = NaN \/ x < e[1] \/ x > e[Len(e)] THEN 0
             ELSE IF x = e[Len(e)] THEN Len(e) - 1 ELSE Max({j \in DOMAIN e : e[j] <= x})
Hist(c, s, g, e, f) == LET I == Get(c, s, g) IN [j \in 1..(Len(e) - 1) |-> Cardinality({k \in DOMAIN I : Bin(e, IF file[c][I[k]].x = NaN THEN NaN ELSE f * file[c][I[k]].x) = j})]
SumHist(hs, n) == [j \in 1..n |-> FoldLeft(LAMBDA acc, h : acc + h[j], 0, hs)]

\* ---- operations ----
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
CutAdd(c, n, p, ow, def) ==
   IF n \in AllCuts(c) /\ ~ow THEN out' = "refused" /\ UNCHANGED <<file, vis, marks, cuts, dflt, bad>>
   ELSE /\ cuts' = [cuts EXCEPT ![c] = Put(@, n, p)]
        /\ dflt' = IF def THEN [dflt EXCEPT ![c] = n] ELSE dflt
        /\ out' = "ok" /\ UNCHANGED <<file, vis, marks, bad>>
\* over the group: each channel shown on its own; those that refuse are marked bad
GroupCutAdd(n, p, ow, def) ==
   LET S == Chans \ bad
       F == {c \in S : n \in AllCuts(c) /\ ~ow}
   IN /\ cuts' = [c \in Chans |-> IF c \in S \ F THEN Put(cuts[c], n, p) ELSE cuts[c]]
      /\ dflt' = [c \in Chans |-> IF c \in S \ F /\ def THEN n ELSE dflt[c]]
      /\ bad' = bad \cup F
      /\ out' = "ok" /\ UNCHANGED <<file, vis, marks>>
SetDefault(c, n) == IF n \in AllCuts(c) THEN dflt' = [dflt EXCEPT ![c] = n] /\ out' = "ok" /\ UNCHANGED <<file, vis, marks, cuts, bad>>
                    ELSE out' = "refused" /\ UNCHANGED <<file, vis, marks, cuts, dflt, bad>>
GroupSetDefault(n) ==
   IF \A c \in Chans \ bad : n \in AllCuts(c)
   THEN dflt' = [c \in Chans |-> IF c \in bad THEN dflt[c] ELSE n] /\ out' = "ok" /\ UNCHANGED <<file, vis, marks, cuts, bad>>
   ELSE out' = "refused" /\ UNCHANGED <<file, vis, marks, cuts, dflt, bad>>
SetBad(B) == bad' = B /\ out' = "ok" /\ UNCHANGED <<file, vis, marks, cuts, dflt>>
\* more data arrive in every file, and the group is refreshed: only the channels shown learn of them
Grow(new) == /\ file' = [c \in Chans |-> file[c] \o new[c]]
             /\ vis' = [c \in Chans |-> IF c \in bad THEN vis[c] ELSE Len(file'[c])]
             /\ out' = "ok" /\ UNCHANGED <<marks, cuts, dflt, bad>>

InitWith(F, M) == /\ file = F /\ marks = M
                  /\ vis = [c \in Chans |-> Len(file[c])]
                  /\ cuts = [c \in Chans |-> [n \in {"cutNone"} |-> [k |-> "all", v |-> 0]]]
                  /\ dflt = [c \in Chans |-> "cutNone"]
                  /\ bad = {} /\ out = "ok"

\* ---- the exhaustive small model ----
CONSTANTS MaxRec, Xs, SmallBounds, SmallMarks
SmallRecs == UNION {[1..k -> Xs] : k \in 1..MaxRec}
Init == \E F \in [Chans -> SmallRecs], M \in SmallMarks : InitWith([c \in Chans |-> [i \in DOMAIN F[c] |-> [x |-> F[c][i], u |-> i]]], M)
NextSmall == \/ \E c \in Chans, n \in CutNames, p \in Preds, d \in BOOLEAN : CutAdd(c, n, p, FALSE, d)
             \/ \E n \in CutNames, p \in Preds : GroupCutAdd(n, p, FALSE, TRUE)
             \/ \E n \in CutNames : GroupSetDefault(n)
             \/ \E B \in SUBSET Chans : SetBad(B)
             \/ (\A c \in Chans : Len(file[c]) < MaxRec + 1) /\ Grow([c \in Chans |-> <<[x |-> 1, u |-> Len(file[c]) + 1]>>])
SmallSels == {[k |-> "all", b |-> <<>>, l |-> <<>>]} \cup {[k |-> "slice", b |-> <<<<a, b>>>>, l |-> <<>>] : a \in SmallBounds, b \in SmallBounds}
             \cup {[k |-> "state", b |-> <<>>, l |-> <<l>>] : l \in Labels}
Ins(s) == ToSet(s)
\* a cut and its negation partition every selection; selections are in order; states partition the records they cover
Partition == \A c \in Chans, s \in SmallSels, n \in UNION {AllCuts(d) : d \in Chans} : n \in AllCuts(c) =>
   LET g == Get(c, s, [n |-> n, neg |-> FALSE])
       h == Get(c, s, [n |-> n, neg |-> TRUE])
   IN /\ Ins(g) \cup Ins(h) = Ins(Index(c, s)) /\ Ins(g) \cap Ins(h) = {} /\ Len(g) + Len(h) = Len(Index(c, s))
      /\ \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
StatesDisjoint == \A c \in Chans, l, m \in Labels : l # m => Ins(StateIdx(c, l)) \cap Ins(StateIdx(c, m)) = {}
HistCounts == \A c \in Chans, s \in SmallSels : LET e == <<0, 1, 3>> h == Hist(c, s, Default(c), e, 1) IN
   h[1] + h[2] = Cardinality({i \in Ins(Get(c, s, Default(c))) : file[c][i].x # NaN /\ file[c][i].x \in 0..3})
DefaultKnown == \A c \in Chans : dflt[c] \in AllCuts(c)
VisOK == \A c \in Chans : vis[c] <= Len(file[c]) /\ (c \notin bad \/ vis[c] <= Len(file[c]))
NoForget == [][\A c \in Chans : IsPrefix(file[c], file'[c]) /\ vis'[c] >= vis[c] /\ AllCuts(c) \subseteq DOMAIN cuts'[c]]_vars
=============================================================================
