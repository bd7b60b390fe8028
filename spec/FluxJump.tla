------------------------------- MODULE FluxJump -------------------------------
(* T02: correction of flux jumps.  A value is a baseline plus a whole number of flux quanta (Q units); good values have
   baselines within less than a quarter of a quantum of each other. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Q, MaxN, MaxJump
VARIABLES vals, good
vars == <<vals, good>>
\* the range of a set of values
Span(S) == Max(S) - Min(S)
Of(v, g) == {v[i] : i \in g}
\* good values are of one baseline: some choice of quanta brings them together
OneBaseline(v, g) == g = {} \/ \E r \in {v[i] % Q : i \in g} : \A i \in g : 4 * ((v[i] - r) % Q) < Q
\* what a correction may do
Whole(v, res) == Len(res) = Len(v) /\ \A i \in DOMAIN v : (res[i] - v[i]) % Q = 0
Anchored(v, res) == res[1] = v[1]
OneBranch(v, g, res) == (g /= {} /\ OneBaseline(v, g)) => 4 * Span(Of(res, g)) < Q
JumpFree(v, res) == 4 * Span(ToSet(v)) < Q => res = v
Legal(v, g, res) == Whole(v, res) /\ Anchored(v, res) /\ OneBranch(v, g, res) /\ JumpFree(v, res)
\* so a good first value settles all good values
Near(f, x) == f + ((x - f + Q \div 2) % Q) - Q \div 2
Settled(v, g, res) == (1 \in g /\ OneBaseline(v, g)) => \A i \in g : res[i] = Near(v[1], v[i])

\* the algorithm: fold into one quantum, from zero, or from a quarter below if the good values lie around zero
Fold(v, g) == LET f0 == [i \in DOMAIN v |-> v[i] % Q]
                  f1 == [i \in DOMAIN v |-> ((v[i] + Q \div 4) % Q) - Q \div 4 + Q]
                  f == IF 4 * Span(Of(f0, g)) > 3 * Q THEN f1 ELSE f0
              IN IF 4 * Span(ToSet(v)) <= 3 * Q THEN v ELSE [i \in DOMAIN v |-> f[i] - (f[1] - v[1])]

Init == \E n \in 1..MaxN : good \in (SUBSET (1..n)) \ {{}} /\ vals \in [1..n -> 0..((MaxJump + 1) * Q - 1)]
Next == UNCHANGED vars
FoldLegal == Legal(vals, good, Fold(vals, good))
FoldSettles == Settled(vals, good, Fold(vals, good))
Idempotent == OneBaseline(vals, good) => LET r == Fold(vals, good) IN \A i \in good : Fold(r, good)[i] = r[i] \/ 1 \notin good
=============================================================================
