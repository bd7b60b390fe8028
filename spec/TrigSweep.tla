------------------------------ MODULE TrigSweep ------------------------------
(* T01: the delays found by one pass over both sorted lists (the algorithm of the code) are those of the definitions. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
CONSTANTS MaxP, MaxT, MaxTime
VARIABLES P, T, i, j, last, next
vars == <<P, T, i, j, last, next>>
Lists(n) == UNION {{s \in [1..k -> 0..MaxTime] : \A q \in 2..k : s[q - 1] <= s[q]} : k \in 0..n}
None == -1
LastOf(p) == LET B == {T[k] : k \in {k \in DOMAIN T : T[k] <= p}} IN IF B = {} THEN None ELSE p - Max(B)
NextOf(p) == LET A == {T[k] : k \in {k \in DOMAIN T : T[k] > p}} IN IF A = {} THEN None ELSE Min(A) - p
\* j triggers are not after pulse i
Init == P \in Lists(MaxP) /\ T \in Lists(MaxT) /\ i = 1 /\ j = 0 /\ last = <<>> /\ next = <<>>
Advance == i <= Len(P) /\ j < Len(T) /\ T[j + 1] <= P[i] /\ j' = j + 1 /\ UNCHANGED <<P, T, i, last, next>>
Assign == /\ i <= Len(P) /\ ~(j < Len(T) /\ T[j + 1] <= P[i])
        /\ last' = Append(last, IF j = 0 THEN None ELSE P[i] - T[j])
        /\ next' = Append(next, IF j = Len(T) THEN None ELSE T[j + 1] - P[i])
        /\ i' = i + 1 /\ UNCHANGED <<P, T, j>>
Next == Advance \/ Assign
Right == \A k \in DOMAIN last : last[k] = LastOf(P[k]) /\ next[k] = NextOf(P[k])
Done == (~ENABLED Next) => Len(last) = Len(P)
Spec == Init /\ [][Next]_vars
=============================================================================
