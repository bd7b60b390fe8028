------------------------------- MODULE FluxGen -------------------------------
(* Histories of channels whose values jump, are cut and are corrected.  Values of cut pulses are known up to whole quanta. *)
EXTENDS FluxJump, TLC, Json, Randomization
CONSTANTS Chans, Depth
VARIABLES v, g, off, hist
gvars == <<v, g, off, hist, vals, good>>
RE(S, x) == {RandomElement(S)}
Obs == [v |-> {<<c, v[c]>> : c \in Chans}, g |-> {<<c, g[c]>> : c \in Chans}, off |-> off]
Log(a) == hist' = Append(hist, a @@ [obs |-> Obs'])
InitG == vals = <<>> /\ good = {} /\ hist = <<>> /\ off = {} /\ v = [c \in Chans |-> <<>>] /\ g = [c \in Chans |-> {}]
Known(c) == [i \in DOMAIN v[c] |-> IF i \in g[c] THEN v[c][i] ELSE v[c][i] % Q]
Setup == \E n \in RE({2, 3, 5, 8, 12}, hist), wild \in RE({0, 0, 1, 2}, hist), b \in RE(0..(Q - 1), hist), jumps \in RE({0, 1, 3}, hist), orient \in RE(1..3, hist) :
         \E bs \in {[c \in Chans |-> [i \in 1..n |-> RandomElement(0..((Q \div 4) - 1))]]},
            js \in {[c \in Chans |-> [i \in 1..n |-> RandomElement(0..jumps)]]},
            gs \in {[c \in Chans |-> {1} \cup {i \in 2..n : RandomElement(0..9) >= wild}]} :
         \E ws \in {[c \in Chans |-> [i \in 1..n |-> IF i \in gs[c] THEN 0 ELSE RandomElement(0..(3 * Q))]]} :
            /\ g' = gs /\ off' = {} /\ v' = [c \in Chans |-> [i \in 1..n |-> b + bs[c][i] + js[c][i] * Q + ws[c][i]]]
            /\ hist' = <<[act |-> "setup", obs |-> Obs']>>
Slip(c, k, d) == v' = [v EXCEPT ![c] = [i \in DOMAIN v[c] |-> IF i >= k THEN v[c][i] + d * Q ELSE v[c][i]]] /\ UNCHANGED <<g, off>>
Cut(c, i) == i /= 1 /\ i <= Len(v[c]) /\ g' = [g EXCEPT ![c] = @ \ {i}] /\ UNCHANGED <<v, off>>
Correct == v' = [c \in Chans |-> IF c \in off THEN v[c] ELSE [i \in DOMAIN v[c] |-> IF i \in g[c] THEN Near(v[c][1], v[c][i]) ELSE v[c][i]]] /\ UNCHANGED <<g, off>>
GSlip == \E c \in RE(Chans, hist), k \in RE(1..12, hist), d \in RE({1, 1, 2, -1}, hist) : k <= Len(v[c]) /\ (\A i \in DOMAIN v[c] : v[c][i] + d * Q >= 0) /\ Slip(c, k, d) /\ Log([act |-> "slip", c |-> c, k |-> k, d |-> d])
GCut == \E c \in RE(Chans, hist), i \in RE(2..12, hist) : Cut(c, i) /\ Log([act |-> "cut", c |-> c, i |-> i])
GCorrect == Correct /\ Log([act |-> "correct"])
GReopen == UNCHANGED <<v, g, off>> /\ Log([act |-> "reopen"])
GMark == \E c \in RE(Chans, hist) : off' = off \cup {c} /\ off' /= Chans /\ UNCHANGED <<v, g>> /\ Log([act |-> "mark", c |-> c])
GUnmark == \E c \in RE(Chans, hist) : off' = off \ {c} /\ UNCHANGED <<v, g>> /\ Log([act |-> "unmark", c |-> c])
NextG == IF hist = <<>> THEN Setup /\ UNCHANGED <<vals, good>>
         ELSE UNCHANGED <<vals, good>> /\ (GSlip \/ (\E k \in {1} : GSlip) \/ GCut \/ GCorrect \/ (\E k \in {1} : GCorrect) \/ GReopen \/ GMark \/ GUnmark)
StillOne == \A c \in Chans : v[c] /= <<>> => OneBaseline(v[c], g[c]) /\ 1 \in g[c]
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
