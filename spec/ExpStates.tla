----------------------------- MODULE ExpStates -----------------------------
(* O03: an experiment-state log and the records of some channels, both growing, read now and then.

   Declarative layer: a record belongs to the label of the last mark at or before it (InState).
   Algorithm layer (inc): one half-open range of records per known mark, extended as data and marks arrive;
   checked to refine the declarative layer as long as the log and the records are read in step.  TLC shows that otherwise it does not, which is why
   refreshing has to recompute from all records. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Chans, Labels, MaxT, MaxLog, MaxRec,
          Excl        \* explicit set of excluded labels, or {"auto"}
VARIABLES log,    \* sequence of [t, l], t non-decreasing
          recs,   \* per channel, the record times, non-decreasing
          nlog, nrec,   \* how much was read at the last refresh (nrec per channel)
          rlog,   \* per channel, number of marks when it was last refreshed
          bad,    \* channels marked bad: refreshing passes them over
          alias,  \* label -> label
          used,   \* states have been calculated: no more aliasing
          inc     \* per channel: sequence of <<lo, hi>>, records lo..hi-1
vars == <<log, recs, nlog, nrec, rlog, bad, alias, used, inc>>

Ignorable == {"START", "STOP", "END", "IGNORE"}
Excluded(k) == IF Excl # {"auto"} THEN Excl
               ELSE IF {log[i].l : i \in 1..k} \subseteq Ignorable THEN {"IGNORE"} ELSE Ignorable
Al(l) == alias[l]
Active(t, k) == LET S == {i \in 1..k : log[i].t <= t} IN IF S = {} THEN 0 ELSE Max(S)
\* records 1..n of channel c in the state called L, knowing k marks
InState(c, L, k, n) == {r \in 1..n : LET i == Active(recs[c][r], k) IN i # 0 /\ log[i].l \notin Excluded(k) /\ Al(log[i].l) = L}
RawIn(c, l, k, n) == {r \in 1..n : LET i == Active(recs[c][r], k) IN i # 0 /\ log[i].l = l}
\* labels shown, in order of first appearance
Keep(k) == SelectSeq(SubSeq(log, 1, k), LAMBDA m : m.l \notin Excluded(k))
Dedup(s) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, s)
RawShown(k) == Dedup(FoldLeft(LAMBDA acc, m : Append(acc, m.l), <<>>, Keep(k)))
Shown(k) == Dedup(FoldLeft(LAMBDA acc, m : Append(acc, Al(m.l)), <<>>, Keep(k)))

LastT == IF log = <<>> THEN 0 ELSE log[Len(log)].t
LastR(c) == IF recs[c] = <<>> THEN 0 ELSE recs[c][Len(recs[c])]

\* first record of c, among lo..n, at or after t (n+1 if none)
FirstAt(c, t, lo, n) == LET S == {r \in lo..n : recs[c][r] >= t} IN IF S = {} THEN n + 1 ELSE Min(S)
\* the ranges after reading marks k0+1..k and records n0+1..n, given those from before
Extend(c, old, k0, k, n0, n) ==
  LET start(i) == FirstAt(c, log[i].t, n0 + 1, n)
      endof(i) == IF i = k THEN n + 1 ELSE start(i + 1)
  IN [i \in 1..k |-> IF i < k0 THEN old[i] ELSE IF i = k0 THEN <<old[i][1], endof(i)>> ELSE <<start(i), endof(i)>>]

Mark(dt, l)    == log' = Append(log, [t |-> LastT + dt, l |-> l]) /\ UNCHANGED <<recs, nlog, nrec, rlog, bad, alias, used, inc>>
Records(c, ts) == recs' = [recs EXCEPT ![c] = @ \o ts] /\ UNCHANGED <<log, nlog, nrec, rlog, bad, alias, used, inc>>
Alias(ls, a)   == ~used /\ alias' = [l \in Labels |-> IF l \in ls THEN a ELSE alias[l]] /\ UNCHANGED <<log, recs, nlog, nrec, rlog, bad, used, inc>>
Refresh == /\ log # <<>>
           /\ LET R == Chans \ bad IN
                /\ nlog' = Len(log)
                /\ nrec' = [c \in Chans |-> IF c \in R THEN Len(recs[c]) ELSE nrec[c]]
                /\ rlog' = [c \in Chans |-> IF c \in R THEN Len(log) ELSE rlog[c]]
                /\ inc' = [c \in Chans |-> IF c \in R THEN Extend(c, inc[c], rlog[c], Len(log), nrec[c], Len(recs[c])) ELSE inc[c]]
           /\ used' = TRUE
           /\ UNCHANGED <<log, recs, bad, alias>>
MarkBad(c)  == bad' = bad \cup {c} /\ UNCHANGED <<log, recs, nlog, nrec, rlog, alias, used, inc>>
MarkGood(c) == bad' = bad \ {c} /\ UNCHANGED <<log, recs, nlog, nrec, rlog, alias, used, inc>>

Init == /\ log = <<>> /\ recs = [c \in Chans |-> <<>>] /\ nlog = 0 /\ nrec = [c \in Chans |-> 0] /\ rlog = [c \in Chans |-> 0]
        /\ bad = {} /\ alias = [l \in Labels |-> l] /\ used = FALSE /\ inc = [c \in Chans |-> <<>>]

\* a mark read later than a record it should have closed the previous state for, or a record read later than a mark after it
Late(c, k0, k, n0) == \/ \E i \in (k0 + 1)..k : \E r \in 1..n0 : recs[c][r] >= log[i].t
                      \/ \E i \in 1..k0 : \E r \in (n0 + 1)..Len(recs[c]) : recs[c][r] < log[i].t /\ k0 > 0
NextSmall == \/ \E dt \in 0..1, l \in Labels : Len(log) < MaxLog /\ LastT + dt <= MaxT /\ Mark(dt, l)
             \/ \E c \in Chans, dt \in 0..1 : Len(recs[c]) < MaxRec /\ LastR(c) + dt <= MaxT /\ Records(c, <<LastR(c) + dt>>)
             \/ Refresh /\ ~\E c \in Chans \ bad : Late(c, rlog[c], Len(log), nrec[c])
             \/ \E c \in Chans : MarkBad(c) \/ MarkGood(c)
             \/ \E l, a \in Labels : Alias({l}, a)
\* ---- checked exhaustively ----
Partition == \A c \in Chans : \A r \in 1..nrec[c] :   \* every record is in at most one state, and in one if a non-excluded mark precedes it last
   LET In == {L \in Labels : r \in InState(c, L, rlog[c], nrec[c])} IN
     /\ Cardinality(In) <= 1
     /\ (In = {}) <=> (LET i == Active(recs[c][r], rlog[c]) IN i = 0 \/ log[i].l \in Excluded(rlog[c]))
     /\ In \subseteq ToSet(Shown(rlog[c]))
Refines == \A c \in Chans, L \in Labels :
   InState(c, L, rlog[c], nrec[c]) =
     UNION {inc[c][i][1]..(inc[c][i][2] - 1) : i \in {i \in 1..rlog[c] : log[i].l \notin Excluded(rlog[c]) /\ Al(log[i].l) = L}}
AliasMerges == \A c \in Chans, L \in Labels :
   InState(c, L, rlog[c], nrec[c]) = UNION {RawIn(c, l, rlog[c], nrec[c]) : l \in {l \in Labels \ Excluded(rlog[c]) : Al(l) = L}}
Inv == Partition /\ Refines /\ AliasMerges
=============================================================================
