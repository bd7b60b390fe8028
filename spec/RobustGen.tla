------------------------------ MODULE RobustGen ------------------------------
EXTENDS Robust, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES hist
InitE == Init /\ hist = <<>>
NextE == FALSE /\ UNCHANGED <<x, w, hist>>
EmitAll == PrintT("@@" \o ToJson(All(x, w)))
RE(S, c) == {RandomElement(S)}
Data(n, k, c) == [i \in 1..n |-> RandomElement(0..k)]
InitG == hist = <<>> /\ x = <<0>> /\ w = <<1>>
NextG == TRUE /\ \E n \in RE({2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 23}, hist), k \in RE({1, 2, 5, 20, 1000}, hist), m \in RE({1, 3, 10, 100}, hist) :
         \E s \in {Data(n, k, hist)}, u \in {Data(n, m, <<hist, 1>>)} : hist' = Append(hist, All(s, u)) /\ x' = s /\ w' = u
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
