------------------------------- MODULE TrigGen -------------------------------
EXTENDS Trig, TLC, Json, Randomization
CONSTANTS Depth, PStep, MaxTime, MaxLog
VARIABLES hist
RE(S) == {RandomElement(S)}
RSorted(n, hi, x) == SortSeq([k \in 1..n |-> RandomElement(0..hi)], <)
Obs == [delays |-> {<<c, [w \in What |-> delays[c][w]]>> : c \in Chans}, read |-> read]
Log(a) == hist' = Append(hist, a @@ [out |-> out', obs |-> Obs'])
GWrite == \E form \in RE(IF Kind = "off" THEN {"binary"} ELSE {"hdf5", "offsets", "binary", "both"}), n \in RE({0, 1, 1, 2, 3, 4, 6, 9} \cap 0..MaxLog), narrow \in RE(1..3) :
          \E T \in {RSorted(n, IF narrow = 1 THEN MaxTime \div 4 ELSE MaxTime, hist)} :
             Write(form, T) /\ Log([act |-> "write", form |-> form, times |-> T])
GDrop == RandomElement(1..6) = 1 /\ Write("none", <<>>) /\ Log([act |-> "write", form |-> "none", times |-> <<>>])
GCalc == \E f \in RE(BOOLEAN), F \in RE(IF Kind = "tes" THEN {What} ELSE (SUBSET What)) : Calc(F, f) /\ Log([act |-> "calc", force |-> f, F |-> F])
GReopen == Reopen /\ Log([act |-> "reopen"])
GMark == \E c \in RE(Chans) : bad \cup {c} /= Chans /\ Mark(c) /\ Log([act |-> "mark", c |-> c])
GUnmark == \E c \in RE(Chans) : Unmark(c) /\ Log([act |-> "unmark", c |-> c])
InitG == hist = <<>> /\ pulses = [c \in Chans |-> <<>>] /\ log = [form |-> "none", times |-> <<>>] /\ read = Nothing /\ delays = [c \in Chans |-> Absent] /\ bad = {} /\ out = "ok"
RPulses(x) == LET n == RandomElement({1, 1, 2, 3, 5, 8, 12}) q == RSorted(n, MaxTime \div PStep, x) IN [k \in 1..n |-> q[k] * PStep]
Setup1 == \E ps \in RandomSubset(1, {[c \in Chans |-> RPulses(<<hist, c>>)]}) :
          pulses' = ps /\ UNCHANGED <<log, read, delays, bad, out>> /\ hist' = <<[act |-> "pulses", pulses |-> {<<c, ps[c]>> : c \in Chans}]>>
NextG == IF hist = <<>> THEN Setup1
         ELSE (GWrite \/ (\E k \in {1} : GCalc) \/ (\E k \in {2} : GCalc) \/ GCalc \/ GReopen \/ GMark \/ GUnmark \/ GDrop) /\ UNCHANGED pulses
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
