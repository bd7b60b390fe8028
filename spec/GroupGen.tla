------------------------------ MODULE GroupGen ------------------------------
(* Random behaviours of Group, each step recorded with every view a user has. *)
EXTENDS Group, TLC, Json, Randomization
CONSTANTS Depth, MaxOpen, FailTexts, InclOps,
          ReOps    \* operations that can be told to raise
VARIABLES hist
RE(S) == {RandomElement(S)}
RS(S) == {RandomSubset(RandomElement(0..Cardinality(S)), S)}
Seqd(f) == [i \in DOMAIN Order |-> f[Order[i]]]
Obs == [bad |-> {<<c, bad[c]>> : c \in DOMAIN bad}, good |-> GoodSeq, shown |-> Shown, did |-> Seqd(did),
        order |-> Order, depth |-> Len(scopes)]
Log(a) == hist' = Append(hist, a @@ [out |-> out', obs |-> Obs'])
InitG == Init /\ hist = <<>>

\* the caller names channels singly (k=0), or as a single collection (k=1), or a mixture (k=2)
GBad    == \E S \in RS(Chans), r \in RE(Reasons), k \in RE(0..3) : S /= {} /\ MarkBad(S, r) /\ Log([act |-> "bad", S |-> S, reason |-> r, k |-> k])
GBad1   == \E c \in RE(Chans), r \in RE(Reasons) : MarkBad({c}, r) /\ Log([act |-> "bad", S |-> {c}, reason |-> r, k |-> 0])
GUnk    == MarkUnknown /\ Log([act |-> "unknown"])
GGood   == \E S \in RS(Chans), k \in RE(0..2) : S /= {} /\ MarkGood(S) /\ Log([act |-> "good", S |-> S, k |-> k])
GAll    == RandomElement(1..3) = 1 /\ AllGood /\ Log([act |-> "allgood"])
GReopen == scopes = <<>> /\ \E k \in RE(0..1) : Reopen /\ Log([act |-> "reopen", k |-> k])
GOp(incl) == \E o \in RE(IF incl THEN InclOps ELSE Ops), P \in RE({{"ok"}, {"ok", "fail"}, {"fail"}, {"ok", "fail", "stop"}, {"ok", "stop"}}), t \in RE(FailTexts) :
          \E p \in RandomSubset(1, [Chans -> P]) :
          \E re \in RE(IF o \in ReOps THEN {FALSE, FALSE, TRUE} ELSE {FALSE}) :
          LET sh == IF incl THEN Order ELSE Shown
          IN Operation(o, sh, p, t, re) /\ Log([re |-> re] @@ [act |-> "op", op |-> o, plan |-> Seqd(p), text |-> t, incl |-> incl, shown |-> sh])
GOpN == GOp(FALSE)
GOpI == InclOps /= {} /\ GOp(TRUE)
GEnter == Len(scopes) < MaxOpen /\ \E x \in RE({TRUE, TRUE, TRUE, FALSE}) : Enter(x) /\ Log([act |-> "enter", x |-> x])
GLeave == Leave /\ \E k \in RE(0..1) : Log([act |-> "leave", k |-> k])

NextG1 == GBad \/ GBad1 \/ GUnk \/ GGood \/ GAll \/ GReopen
NextG2 == GBad1 \/ GGood \/ GOpN \/ GOpN \/ GOpN \/ GOpI
NextO6 == GBad1 \/ GBad1 \/ GGood \/ GAll \/ GOpN \/ GOpN \/ GOpN \/ GEnter \/ GEnter \/ GLeave
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
