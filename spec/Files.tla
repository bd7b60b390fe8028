------------------------------- MODULE Files -------------------------------
(* L03: a directory of pulse and noise files, told apart by channel number, and how lists of them are matched. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Chans,        \* channel numbers that may occur
          MaxList       \* bound for the exhaustive run
VARIABLES pulse, noise  \* channels having a pulse / noise file in the directory
vars == <<pulse, noise>>

NoList == {-1}          \* "no list given" (differs from an empty list)
\* ---- matching two lists (sequences of channel numbers, in the order given) ----
\* all = FALSE stands for noise list absent or empty: matching is then not required
Valid(l1, l2, never, use) ==
  LET c1 == ToSet(l1)
      c2 == ToSet(l2)
      both == IF l2 = <<>> THEN c1 ELSE c1 \cap c2
      ex == IF never = NoList THEN both ELSE both \ never
  IN IF use = NoList THEN ex ELSE ex \cap use
KeepIn(l, S) == SelectSeq(l, LAMBDA c : c \in S)
Sorted(S) == SetToSortSeq(S, <)
Take(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
\* what an analysis opened on the lists works on: channels in increasing order; each channel's files are its own
Opened(l1, l2, never, use, max) == Take(Sorted(Valid(l1, l2, never, use)), max)

Orders(S) == {s \in SetToSeqs(S) : TRUE}

Init == pulse = {} /\ noise = {}
WriteF(k, c)  == /\ IF k = "pulse" THEN c \notin pulse ELSE c \notin noise
                /\ IF k = "pulse" THEN pulse' = pulse \cup {c} /\ UNCHANGED noise ELSE noise' = noise \cup {c} /\ UNCHANGED pulse
RemoveF(k, c) == IF k = "pulse" THEN c \in pulse /\ pulse' = pulse \ {c} /\ UNCHANGED noise ELSE c \in noise /\ noise' = noise \ {c} /\ UNCHANGED pulse
NextSmall == \E c \in Chans, k \in {"pulse", "noise"} : WriteF(k, c) \/ RemoveF(k, c)

\* ---- checked exhaustively: the matching is what the property says, whatever the order of the lists ----
Lists == {NoList} \cup SUBSET Chans
Inv == \A never \in Lists, use \in Lists :
         LET e == Opened(SetToSeq(pulse), SetToSeq(noise), never, use, -1)
         IN /\ \A c \in Chans : (\E i \in DOMAIN e : e[i] = c) <=>
                  /\ c \in pulse
                  /\ noise /= {} => c \in noise
                  /\ never /= NoList => c \notin never
                  /\ use /= NoList => c \in use
            /\ \A i, j \in DOMAIN e : i < j => e[i] < e[j]
            /\ \A l1 \in SetToSeqs(pulse), l2 \in SetToSeqs(noise) :
                 /\ Opened(l1, l2, never, use, -1) = e
                 \* the lists that are kept hold the same channels as each other, each in its given order
                 /\ LET k1 == KeepIn(l1, Valid(l1, l2, never, use)) k2 == KeepIn(l2, Valid(l1, l2, never, use))
                    IN noise /= {} => ToSet(k1) = ToSet(k2) /\ Valid(k1, k2, never, use) = ToSet(k1)
            /\ \A m \in 0..Cardinality(Chans) : IsPrefix(Opened(SetToSeq(pulse), SetToSeq(noise), never, use, m), e)

\* ---- names: a sequence of pieces, text or channel tags (numbers); the last tag counts ----
IsTag(p) == p.tag
LastTag(name) == IF \E i \in DOMAIN name : IsTag(name[i]) THEN Max({i \in DOMAIN name : IsTag(name[i])}) ELSE 0
Parsed(name) == LET i == LastTag(name) IN [base |-> SubSeq(name, 1, i - 1), chan |-> IF i = 0 THEN -1 ELSE name[i].num, rest |-> IF i = 0 THEN <<>> ELSE SubSeq(name, i + 1, Len(name))]
Sibling(name, c) == LET p == Parsed(name) IN p.base \o <<[tag |-> TRUE, num |-> c, txt |-> ""]>> \o p.rest
=============================================================================
