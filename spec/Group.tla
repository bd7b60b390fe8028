------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* A group of channels, some of them marked bad for recorded reasons, and  *)
(* operations looped over the channels shown, which may fail or be         *)
(* interrupted on any of them.   Properties G01, G02 (and, with scoped     *)
(* inclusion of bad channels, O06).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Chans,       \* channel numbers
          Reasons,     \* reasons a user may give
          Ops,         \* operation names
          MarkRaised   \* whether an error raised on request is also recorded (OFF groups do, TES groups leave it to the caller)

VARIABLES bad,     \* [bad channel -> sequence of reasons, oldest first]
          did,     \* [channel -> [operation -> number of times completed]]
          scopes,  \* the scopes open, innermost last: TRUE shows bad channels, FALSE does not
          out      \* "ok", "refused", "interrupt", "error"

vars == <<bad, did, scopes, out>>

RestrictTo(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Order == SetToSortSeq(Chans, <)
GoodSeq == SelectSeq(Order, LAMBDA c : c \notin DOMAIN bad)
Including == scopes # <<>> /\ scopes[Len(scopes)]
Shown == IF Including THEN Order ELSE GoodSeq

Init == /\ bad = [c \in {} |-> <<>>]
        /\ did = [c \in Chans |-> [o \in Ops |-> 0]]
        /\ scopes = <<>>
        /\ out = "ok"

AddReason(b, S, r) == [c \in DOMAIN b \cup S |-> (IF c \in DOMAIN b THEN b[c] ELSE <<>>) \o (IF c \in S THEN <<r>> ELSE <<>>)]

MarkBad(S, r) == /\ S \subseteq Chans
                 /\ bad' = AddReason(bad, S, r)
                 /\ out' = "ok" /\ UNCHANGED <<did, scopes>>
\* a channel the group does not have: nothing happens
MarkUnknown == out' = "refused" /\ UNCHANGED <<bad, did, scopes>>
MarkGood(S) == bad' = RestrictTo(bad, DOMAIN bad \ S) /\ out' = "ok" /\ UNCHANGED <<did, scopes>>
AllGood == MarkGood(Chans)
Reopen == out' = "ok" /\ UNCHANGED <<bad, did, scopes>>

(* An operation over the channels shown, in order. plan[c] is what happens   *)
(* on channel c: "ok", "fail" (an error), "stop" (the user interrupts).      *)
(* With re, the caller has asked for the first error to be raised.           *)
FirstStop(sh, plan, re) == LET I == {i \in DOMAIN sh : plan[sh[i]] = "stop" \/ (re /\ plan[sh[i]] = "fail")}
                           IN IF I = {} THEN Len(sh) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Operation(o, sh, plan, reason, re) ==
    LET k == FirstStop(sh, plan, re)
        reached == {sh[i] : i \in 1..(k-1)}
        failed == {c \in reached : plan[c] = "fail"} \cup (IF k <= Len(sh) /\ MarkRaised THEN {c \in {sh[k]} : plan[c] = "fail"} ELSE {})
    IN /\ bad' = AddReason(bad, failed, reason)
       /\ did' = [c \in Chans |-> IF c \in reached \ failed THEN [did[c] EXCEPT ![o] = @ + 1] ELSE did[c]]
       /\ out' = (IF k > Len(sh) THEN "ok" ELSE IF plan[sh[k]] = "stop" THEN "interrupt" ELSE "error")
       /\ UNCHANGED scopes

Enter(x) == scopes' = Append(scopes, x) /\ out' = "ok" /\ UNCHANGED <<bad, did>>
Leave == scopes # <<>> /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1) /\ out' = "ok" /\ UNCHANGED <<bad, did>>

(* properties *)
TypeOK == /\ DOMAIN bad \subseteq Chans
          /\ \A c \in DOMAIN bad : Len(bad[c]) > 0
Views == /\ ToSet(GoodSeq) = Chans \ DOMAIN bad
         /\ \A i \in 1..(Len(GoodSeq)-1) : GoodSeq[i] < GoodSeq[i+1]
Inv == TypeOK /\ Views
\* a reason, once recorded, stays until the channel is marked good (checked as an action property)
ReasonsGrow == [][\A c \in DOMAIN bad \cap DOMAIN bad' : IsPrefix(bad[c], bad'[c])]_vars
\* an interrupt marks nothing that did not fail; a channel not shown is untouched by an operation
Untouched == [][\A c \in Chans : (did'[c] /= did[c]) => c \in ToSet(Shown)]_vars

\* leaving a scope restores what was shown before it
Restores == [][\A x \in BOOLEAN : scopes' = Append(scopes, x) => SubSeq(scopes', 1, Len(scopes)) = scopes]_vars
\* only an operation that is interrupted, or told to raise, leaves good channels behind it unprocessed
NothingLost == [][(out' = "ok" /\ \E c \in Chans, o \in Ops : did'[c][o] # did[c][o]) =>
                     \A c \in ToSet(Shown) : (\E o \in Ops : did'[c][o] # did[c][o]) \/ c \in DOMAIN bad']_vars

(* exhaustive small model *)
NextSmall ==
    \/ \E S \in SUBSET Chans, r \in Reasons : (\A c \in S \cap DOMAIN bad : Len(bad[c]) < 2) = TRUE /\ MarkBad(S, r)
    \/ \E S \in SUBSET Chans : MarkGood(S)
    \/ MarkUnknown
    \/ \E o \in Ops, p \in [Chans -> {"ok", "fail", "stop"}] :
          /\ (\A c \in Chans : did[c][o] < 1) /\ (\A c \in DOMAIN bad : Len(bad[c]) < 2)
          /\ \E re \in BOOLEAN : Operation(o, Shown, p, "E", re)
    \/ Len(scopes) < 2 /\ \E x \in BOOLEAN : Enter(x)
    \/ Leave
=============================================================================
