--------------------------------- MODULE Trig ---------------------------------
(* T01: delays from pulses to the external triggers around them, as definitions, and as a history of an analysis that
   reads a trigger log (in one of several forms), keeps what it read, and stores the delays of each channel. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Chans,        \* channels
          Kind          \* "tes": delays are stored and computed once; "off": computed anew whenever asked
VARIABLES pulses,       \* channel -> times of its pulses
          log,          \* the trigger log on disk: [form, times]; form "none" is no log
          read,         \* what this analysis has read: -1, or the times
          delays,       \* channel -> for each of "last", "next", "near": -1 (not there) or the delays
          bad,          \* channels excluded
          out
vars == <<pulses, log, read, delays, bad, out>>

What == {"last", "next", "near"}
None == -1              \* of a delay: there is no such trigger
Nothing == <<-1>>       \* of a list: not there
Before(T, p) == {T[k] : k \in {k \in DOMAIN T : T[k] <= p}}
After(T, p) == {T[k] : k \in {k \in DOMAIN T : T[k] > p}}
LastT(T, p) == IF Before(T, p) = {} THEN None ELSE p - Max(Before(T, p))
NextT(T, p) == IF After(T, p) = {} THEN None ELSE Min(After(T, p)) - p
Near(T, p) == LET a == LastT(T, p) b == NextT(T, p) IN IF a = None THEN b ELSE IF b = None THEN a ELSE IF a < b THEN a ELSE b
Of(w, T, p) == CASE w = "last" -> LastT(T, p) [] w = "next" -> NextT(T, p) [] w = "near" -> Near(T, p)
Delays(w, P, T) == <<"d", [k \in DOMAIN P |-> Of(w, T, P[k])]>>

Absent == [w \in What |-> Nothing]
Init == (pulses \in [Chans -> {<<>>, <<1>>, <<0, 2, 2>>}]) /\ log = [form |-> "none", times |-> <<>>] /\ read = Nothing /\ delays = [c \in Chans |-> Absent] /\ bad = {} /\ out = "ok"
Write(form, T) == log' = [form |-> form, times |-> T] /\ out' = "ok" /\ UNCHANGED <<read, delays, bad>>
Times == IF read /= Nothing THEN read ELSE <<"d", log.times>>
Has(c) == \A w \in What : delays[c][w] /= Nothing
Calc(F, force) ==
  IF (read = Nothing \/ Kind = "off") /\ log.form = "none" THEN out' = "refused" /\ UNCHANGED <<log, read, delays, bad>>
  ELSE /\ out' = "ok" /\ UNCHANGED <<log, bad>>
       /\ read' = IF Kind = "tes" THEN Times ELSE Nothing
       /\ delays' = [c \in Chans |-> IF c \in bad \/ (Kind = "tes" /\ Has(c) /\ ~force) THEN delays[c]
                                     ELSE [w \in What |-> IF w \in F THEN Delays(w, pulses[c], Times[2]) ELSE delays[c][w]]]
\* the analysis is closed and opened again: stored delays stay, the log will be read again
Reopen == read' = Nothing /\ out' = "ok" /\ UNCHANGED <<log, bad>> /\ delays' = IF Kind = "tes" THEN delays ELSE [c \in Chans |-> Absent]
Mark(c) == bad' = (bad \cup {c}) /\ out' = "ok" /\ UNCHANGED <<log, read, delays>>
Unmark(c) == bad' = (bad \ {c}) /\ out' = "ok" /\ UNCHANGED <<log, read, delays>>

Logs == UNION {[1..n -> 0..3] : n \in 0..2}
Sorted(T) == \A k \in DOMAIN T : k > 1 => T[k - 1] <= T[k]
NextSmall == UNCHANGED pulses /\ (
             \/ \E T \in {T \in Logs : Sorted(T)} : Write("hdf5", T)
             \/ \E F \in (IF Kind = "tes" THEN {What} ELSE {What, {"last"}, {"next", "near"}}), f \in BOOLEAN : Calc(F, f)
             \/ Reopen \/ \E c \in Chans : Mark(c) \/ Unmark(c))

\* the nearest is the smaller of the others; delays are never negative; any delay leads to a trigger of the log
DelayOK(T, p) == LET a == LastT(T, p) b == NextT(T, p) n == Near(T, p) IN
                 /\ (a = None \/ (a >= 0 /\ p - a \in ToSet(T))) /\ (b = None \/ (b > 0 /\ p + b \in ToSet(T)))
                 /\ (n = None <=> (a = None /\ b = None)) /\ (n /= None => n \in {a, b})
                 /\ (n = None <=> T = <<>>)
                 /\ \A t \in ToSet(T) : t <= p - a \/ a = None \/ t > p
                 /\ \A t \in ToSet(T) : n <= (IF t <= p THEN p - t ELSE t - p)
Inv == \A c \in Chans : \A w \in What : delays[c][w] /= Nothing => Len(delays[c][w][2]) = Len(pulses[c])
Frame == [][ /\ \A c \in bad : delays'[c] = delays[c] \/ (Kind = "off" /\ delays'[c] = Absent)
             /\ (out' = "refused" => UNCHANGED <<log, read, delays, bad>>)
             /\ (log' /= log => delays' = delays) ]_vars
ASSUME \A T \in {T \in Logs : Sorted(T)} : \A p \in 0..4 : DelayOK(T, p)
=============================================================================
