-------------------------------- MODULE Cuts --------------------------------
(***************************************************************************)
(* Cut fields of a group of data sets: a registry of boolean and           *)
(* categorical fields packed into one word of NBits bits per pulse.        *)
(*                                                                         *)
(* Two layers are carried side by side.  The abstract layer (bad, cat) is  *)
(* what a user means: who was cut in which field, who is in which          *)
(* category.  The packed layer (bits, cbits, mask) is how the words are    *)
(* used.  `Packed` states that reading the words gives the abstract        *)
(* verdicts, `Disjoint`/`UsedExact` that no bit has two owners.            *)
(* Properties C01 and C02.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS NBits,        \* word size
          Chans, NP,    \* channels 1..Chans, pulses 1..NP in each
          BNames, CNames,   \* names the user may register
          Builtin,      \* boolean names registered at creation, as a sequence
          CatSeqs,      \* sequences of category names that may be registered
          Defaults      \* default categories

VARIABLES bits,     \* [registered boolean name -> its bit]
          cfld,     \* [registered categorical name -> [cats: Seq, bits: Seq of bits (high first)]]
          bad,      \* [channel -> [pulse -> set of boolean names cut]]
          cat,      \* [channel -> [pulse -> [categorical name -> index in cats]]]
          mask,     \* [channel -> [pulse -> set of bits set]]
          out       \* outcome of the last operation: "ok" or "refused"

vars == <<bits, cfld, bad, cat, mask, out>>

C == 1..Chans
P == 1..NP
AllBits == 0..(NBits-1)

RestrictF(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

Used == {bits[n] : n \in DOMAIN bits} \cup UNION {ToSet(cfld[n].bits) : n \in DOMAIN cfld}
Free == AllBits \ Used

Dedup(s) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, s)
\* default first, no duplicates
CatList(cats, def) == <<def>> \o SelectSeq(Dedup(cats), LAMBDA x : x /= def)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
BitsFor(k) == CHOOSE b \in 1..NBits : Pow2(b) >= k /\ (b = 1 \/ Pow2(b-1) < k)
LowestFree(F, k) == CHOOSE S \in SUBSET F : Cardinality(S) = k /\ \A x \in S, y \in F \ S : x < y
\* (SUBSET is only enumerated for the small exhaustive models; see Lowest below.)
RECURSIVE Lowest(_, _)
Lowest(F, k) == IF k = 0 THEN <<>> ELSE LET m == Min(F) IN <<m>> \o Lowest(F \ {m}, k - 1)

RECURSIVE RegAll(_, _, _)
RegAll(f, F, s) == IF s = <<>> THEN f
                   ELSE RegAll(With(f, Head(s), Min(F)), F \ {Min(F)}, Tail(s))

\* i-th digit (low first) of the label number, as bits of the word
CodeBits(n, idx) == LET hb == cfld[n].bits IN
    {hb[Len(hb) - j] : j \in {j \in 0..(Len(hb)-1) : ((idx - 1) \div Pow2(j)) % 2 = 1}}

Refuse == out' = "refused" /\ UNCHANGED <<bits, cfld, bad, cat, mask>>

NoneBad == [c \in C |-> [p \in P |-> {}]]

Init ==
    /\ bits = RegAll([x \in {} |-> 0], AllBits, Builtin)
    /\ cfld = [x \in {"calibration"} |-> [cats |-> <<"in", "out">>, bits |-> <<Len(Builtin)>>]]
    /\ bad = NoneBad
    /\ cat = [c \in C |-> [p \in P |-> [x \in {"calibration"} |-> 1]]]
    /\ mask = NoneBad
    /\ out = "ok"

RegB(names) ==
    LET new == SelectSeq(Dedup(names), LAMBDA n : n \notin DOMAIN bits) IN
    IF Len(new) > Cardinality(Free) THEN Refuse
    ELSE /\ bits' = RegAll(bits, Free, new)
         /\ out' = "ok"
         /\ UNCHANGED <<cfld, bad, cat, mask>>

\* Unregistering frees the bits; their contents go with the field.
UnregB(names) ==
    IF \E i \in DOMAIN names : names[i] \notin DOMAIN bits THEN Refuse
    ELSE LET gone == ToSet(names)
             gb == {bits[n] : n \in gone} IN
         /\ bits' = RestrictF(bits, DOMAIN bits \ gone)
         /\ bad' = [c \in C |-> [p \in P |-> bad[c][p] \ gone]]
         /\ mask' = [c \in C |-> [p \in P |-> mask[c][p] \ gb]]
         /\ out' = "ok"
         /\ UNCHANGED <<cfld, cat>>

RegC(n, cats, def) ==
    IF n \in DOMAIN cfld THEN out' = "ok" /\ UNCHANGED <<bits, cfld, bad, cat, mask>>
    ELSE LET cl == CatList(cats, def)
             k == BitsFor(Len(cl)) IN
         IF k > Cardinality(Free) THEN Refuse
         ELSE /\ cfld' = With(cfld, n, [cats |-> cl, bits |-> Reverse(Lowest(Free, k))])
              /\ cat' = [c \in C |-> [p \in P |-> With(cat[c][p], n, 1)]]
              /\ out' = "ok"
              /\ UNCHANGED <<bits, bad, mask>>

UnregC(n) ==
    IF n \notin DOMAIN cfld THEN Refuse
    ELSE /\ cfld' = RestrictF(cfld, DOMAIN cfld \ {n})
         /\ cat' = [c \in C |-> [p \in P |-> RestrictF(cat[c][p], DOMAIN cfld \ {n})]]
         /\ mask' = [c \in C |-> [p \in P |-> mask[c][p] \ ToSet(cfld[n].bits)]]
         /\ out' = "ok"
         /\ UNCHANGED <<bits, bad>>

CutB(c, n, S) ==
    IF n \notin DOMAIN bits THEN Refuse
    ELSE /\ bad' = [bad EXCEPT ![c] = [p \in P |-> IF p \in S THEN @[p] \cup {n} ELSE @[p]]]
         /\ mask' = [mask EXCEPT ![c] = [p \in P |-> IF p \in S THEN @[p] \cup {bits[n]} ELSE @[p]]]
         /\ out' = "ok"
         /\ UNCHANGED <<bits, cfld, cat>>

SetCat(c, n, idx) ==   \* idx: [P -> index]
    /\ cat' = [cat EXCEPT ![c] = [p \in P |-> With(@[p], n, idx[p])]]
    /\ mask' = [mask EXCEPT ![c] = [p \in P |-> (@[p] \ ToSet(cfld[n].bits)) \cup CodeBits(n, idx[p])]]
    /\ out' = "ok"
    /\ UNCHANGED <<bits, cfld, bad>>

\* assign: set of <<category name, set of pulses>>, one entry per category
CutC(c, n, assign) ==
    IF \/ n \notin DOMAIN cfld
       \/ \E a \in assign : a[1] \notin ToSet(cfld[n].cats)
       \/ \E a, b \in assign : a[1] /= b[1] /\ a[2] \cap b[2] /= {}
    THEN Refuse
    ELSE SetCat(c, n, [p \in P |->
            IF \E a \in assign : p \in a[2]
            THEN LET a == CHOOSE a \in assign : p \in a[2]
                 IN CHOOSE i \in DOMAIN cfld[n].cats : cfld[n].cats[i] = a[1]
            ELSE 1])

\* the second interface: one code per pulse
CutCodes(c, n, idx) == IF n \notin DOMAIN cfld THEN Refuse ELSE SetCat(c, n, idx)

Clear(c, names) ==   \* names = {}: every boolean field
    IF names \subseteq DOMAIN bits THEN
        LET gone == IF names = {} THEN DOMAIN bits ELSE names
            gb == {bits[n] : n \in gone} IN
        /\ bad' = [bad EXCEPT ![c] = [p \in P |-> @[p] \ gone]]
        /\ mask' = [mask EXCEPT ![c] = [p \in P |-> @[p] \ gb]]
        /\ out' = "ok"
        /\ UNCHANGED <<bits, cfld, cat>>
    ELSE Refuse

Reopen == out' = "ok" /\ UNCHANGED <<bits, cfld, bad, cat, mask>>

(* --------------------------- questions --------------------------------- *)
InCats(c, p, sel) == \A s \in sel : cfld[s[1]].cats[cat[c][p][s[1]]] = s[2]
SelOK(sel) == \A s \in sel : s[1] \in DOMAIN cfld /\ s[2] \in ToSet(cfld[s[1]].cats)
Good(c, names, sel) == {p \in P : bad[c][p] \cap (IF names = {} THEN DOMAIN bits ELSE names) = {} /\ InCats(c, p, sel)}
Bad(c, names, sel)  == {p \in P : bad[c][p] \cap (IF names = {} THEN DOMAIN bits ELSE names) /= {} /\ InCats(c, p, sel)}

(* --------------------------- properties -------------------------------- *)
TypeOK == /\ \A n \in DOMAIN bits : bits[n] \in AllBits
          /\ \A c \in C, p \in P : bad[c][p] \subseteq DOMAIN bits /\ DOMAIN cat[c][p] = DOMAIN cfld
Disjoint == /\ \A m, n \in DOMAIN bits : m /= n => bits[m] /= bits[n]
            /\ \A m, n \in DOMAIN cfld : m /= n => ToSet(cfld[m].bits) \cap ToSet(cfld[n].bits) = {}
            /\ \A m \in DOMAIN bits, n \in DOMAIN cfld : bits[m] \notin ToSet(cfld[n].bits)
JustEnough == \A n \in DOMAIN cfld :
    LET k == Len(cfld[n].bits) IN Cardinality(ToSet(cfld[n].bits)) = k /\ Pow2(k) >= Len(cfld[n].cats) /\ (k = 1 \/ Pow2(k-1) < Len(cfld[n].cats))
CodesDistinct == \A n \in DOMAIN cfld : /\ CodeBits(n, 1) = {}
    /\ \A i, j \in DOMAIN cfld[n].cats : i /= j => CodeBits(n, i) /= CodeBits(n, j)
Packed == \A c \in C, p \in P :
    /\ \A n \in DOMAIN bits : (bits[n] \in mask[c][p]) = (n \in bad[c][p])
    /\ \A n \in DOMAIN cfld : mask[c][p] \cap ToSet(cfld[n].bits) = CodeBits(n, cat[c][p][n])
    /\ mask[c][p] \subseteq Used
GoodBadPartition == \A c \in C, n \in DOMAIN bits : Good(c, {n}, {}) = P \ Bad(c, {n}, {})
Inv == TypeOK /\ Disjoint /\ JustEnough /\ CodesDistinct /\ Packed /\ GoodBadPartition

(* --------------------- exhaustive small model -------------------------- *)
NextSmall ==
    \/ \E n \in BNames : RegB(<<n>>) \/ UnregB(<<n>>)
    \/ \E n \in CNames, cs \in CatSeqs, d \in Defaults : RegC(n, cs, d)
    \/ \E n \in CNames : UnregC(n)
    \/ \E c \in C, n \in BNames, S \in SUBSET P : CutB(c, n, S)
    \/ \E c \in C, n \in CNames \cap DOMAIN cfld : \E idx \in [P -> DOMAIN cfld[n].cats] : CutCodes(c, n, idx)
    \/ \E c \in C, S \in SUBSET BNames : Clear(c, S)
=============================================================================
