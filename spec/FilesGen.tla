------------------------------ MODULE FilesGen ------------------------------
EXTENDS Files, TLC, Json, Randomization
CONSTANTS Depth, Texts, Exts
VARIABLES hist
RE(S) == {RandomElement(S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
RS(S) == {RSub(S)}
Log(a) == hist' = Append(hist, a)
\* shuffles as removal order
RECURSIVE ShufH(_, _)
ShufH(S, acc) == IF S = {} THEN acc ELSE LET x == RandomElement(S) IN ShufH(S \ {x}, Append(acc, x))
Shuf(S) == ShufH(S, <<>>)
RList(x) == IF RandomElement(x) = 1 THEN NoList ELSE RSub(Chans)
InitG == pulse \in RS(Chans) /\ noise \in RS(Chans) /\ hist = <<[act |-> "start", pulse |-> pulse, noise |-> noise]>>

GWrite == \E c \in RE(Chans), k \in RE({"pulse", "noise"}) : WriteF(k, c) /\ Log([act |-> "write", k |-> k, c |-> c])
GRemove == \E c \in RE(Chans), k \in RE({"pulse", "noise"}) : RemoveF(k, c) /\ Log([act |-> "remove", k |-> k, c |-> c])
\* lists without and with repeated channel numbers (several files of the same channel: told apart by extension)
GPair == /\ UNCHANGED vars
         /\ \E l1 \in RE({Shuf(pulse)}), l2 \in RE({Shuf(noise), <<>>, Shuf(noise)}), never \in {RList(1..2)}, use \in {RList(1..2)}, d \in RE(0..1) :
            \E a1 \in {IF d = 1 THEN l1 \o Shuf(RSub(pulse)) ELSE l1}, a2 \in {IF d = 1 /\ l2 /= <<>> THEN l2 \o Shuf(RSub(noise)) ELSE l2} :
              LET V == Valid(a1, a2, never, use)
              IN Log([act |-> "pair", l1 |-> a1, l2 |-> a2, never |-> never, use |-> use,
                      k1 |-> IF a1 = <<>> THEN <<>> ELSE KeepIn(a1, V), k2 |-> IF a1 = <<>> THEN a2 ELSE KeepIn(a2, V)])
GOpen == /\ UNCHANGED vars
         /\ \E l1 \in {Shuf(pulse)}, l2 \in RE({Shuf(noise), <<>>, Shuf(noise)}), never \in {RList(1..2)}, use \in {RList(1..2)}, m \in RE({-1, -1, 0, 1, 2, 3}) :
              LET e == Opened(l1, l2, never, use, m)
              IN l1 /= <<>> /\ Log([act |-> "open", l1 |-> l1, l2 |-> l2, never |-> never, use |-> use, max |-> m, e |-> e])
GOpenN == /\ UNCHANGED vars
          /\ \E l1 \in {Shuf(noise)}, never \in {RList(1..2)}, use \in {RList(1..2)}, m \in RE({-1, -1, 1, 2}), k \in RE(0..1) :
              LET e == Opened(l1, <<>>, never, use, m)
              IN l1 /= <<>> /\ Log([act |-> "opennoise", l1 |-> l1, never |-> never, use |-> use, max |-> m, k |-> k, e |-> e])
GSort == UNCHANGED vars /\ \E l \in {Shuf(pulse)}, use \in {RList(1..2)} :
            l /= <<>> /\ Log([act |-> "sort", l |-> l, use |-> use, e |-> Sorted(IF use = NoList THEN ToSet(l) ELSE ToSet(l) \cap use)])
GDir == UNCHANGED vars /\ Log([act |-> "dir", pulse |-> Sorted(pulse), noise |-> Sorted(noise), both |-> Sorted(pulse \cap noise)])
T(x) == [tag |-> FALSE, num |-> 0, txt |-> x]
G(n) == [tag |-> TRUE, num |-> n, txt |-> ""]
GParse == UNCHANGED vars /\ \E n \in RE(1..3) : \E f \in RandomSubset(1, [1..n -> Texts]), g \in RandomSubset(1, [1..n -> Chans \cup {-1}]), x \in RE(Exts), c \in RE(Chans) :
            LET Piece(i) == IF g[i] = -1 THEN <<T(f[i])>> ELSE <<T(f[i]), G(g[i])>>
                name == FlattenSeq([i \in 1..n |-> Piece(i)]) \o <<T(x)>>
                p == Parsed(name)
            IN Log([act |-> "parse", name |-> name, base |-> p.base, chan |-> p.chan, c |-> c, sib |-> IF p.chan = -1 THEN <<>> ELSE Sibling(name, c)])
NextG == GWrite \/ GRemove \/ GPair \/ GPair \/ GOpen \/ GOpen \/ GOpenN \/ GSort \/ GDir \/ GParse
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
