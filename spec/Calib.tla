------------------------------- MODULE Calib -------------------------------
(* E01, E02: energy calibrations. A calibration is its anchor points, sorted by pulse height, and its settings:
   nothing else of its history matters. Pulse heights and energies are integers (ordinary energies are multiples of 100 eV). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Slots,       \* calibrations alive at the same time
          Names,       \* point names; "" is no name
          Heads,    \* prefixes that may be asked to be removed
          Feats,       \* known features: sequence of [n |-> name, e |-> energy]
          PHs, Es, DPHs, DEs,   \* values; -1 as an uncertainty means the default
          Keys,        \* names under which calibrations are stored
          MaxPts,
          HasPrefix      \* the pairs <<name, prefix>> such that the name starts with the prefix (strings are opaque to TLC)
VARIABLES cal,         \* slot -> calibration
          store,       \* stored calibrations: key -> calibration
          out          \* outcome of the last action: "ok" or "refused"
vars == <<cal, store, out>>

Curves == <<"loglog", "linear", "linear+0", "gain", "invgain", "loggain">>
Blank(ct, nl, ap, gp) == [pts |-> <<>>, curve |-> ct, nl |-> nl, approx |-> ap, gpr |-> gp]
Abs(x) == IF x < 0 THEN -x ELSE x
DE(p) == IF p.de = -1 THEN 0 ELSE p.de     \* the default (0.01 eV) is below the resolution of energies here
Idx(s) == DOMAIN s
SortedPts(S) == SetToSortSeq(S, LAMBDA a, b : a.ph < b.ph)
Monotone(S) == \A p, q \in S : p /= q => (p.ph < q.ph /\ p.e < q.e) \/ (p.ph > q.ph /\ p.e > q.e)
Named(c, n) == {i \in Idx(c.pts) : c.pts[i].n = n}
Close(c, p) == {i \in Idx(c.pts) : Abs(c.pts[i].e - p.e) <= DE(p)}
Nearest(c, p) == CHOOSE i \in Idx(c.pts) : \A j \in Idx(c.pts) : Abs(c.pts[i].e - p.e) <= Abs(c.pts[j].e - p.e)
\* the nearest one is not in doubt
Clear(c, p) == \A i, j \in Close(c, p) : i /= j => Abs(Abs(c.pts[i].e - p.e) - Abs(c.pts[j].e - p.e)) > 1
\* which existing point an addition updates (0: none): the one of that name, else the nearest one within its energy uncertainty
Target(c, p) == IF p.n /= "" /\ Named(c, p.n) /= {} THEN CHOOSE i \in Named(c, p.n) : TRUE
                ELSE IF Close(c, p) /= {} THEN Nearest(c, p) ELSE 0
PtSet(c) == {c.pts[i] : i \in Idx(c.pts)}
Added(c, p) == LET t == Target(c, p)
               IN IF t = 0 THEN PtSet(c) \cup {p} ELSE {c.pts[i] : i \in Idx(c.pts) \ {t}} \cup {[p EXCEPT !.n = c.pts[t].n]}
\* distinct points could be merged by the set only if they were equal, which Monotone excludes
AddOK(c, p, ow) == /\ (Target(c, p) = 0 \/ ow)
                   /\ Monotone(Added(c, p))
                   /\ Cardinality(Added(c, p)) = Len(c.pts) + (IF Target(c, p) = 0 THEN 1 ELSE 0)
Upd(s, c) == cal' = [cal EXCEPT ![s] = c] /\ UNCHANGED store

Add(s, p, ow) == IF AddOK(cal[s], p, ow) THEN Upd(s, [cal[s] EXCEPT !.pts = SortedPts(Added(cal[s], p))]) /\ out' = "ok"
                 ELSE UNCHANGED <<cal, store>> /\ out' = "refused"
AddUnknown(s) == UNCHANGED <<cal, store>> /\ out' = "refused"    \* by the name of a feature nobody knows
Without(c, I) == [c EXCEPT !.pts = SortedPts({c.pts[i] : i \in Idx(c.pts) \ I})]
\* names are unique unless empty; the removal of an unnamed point by name takes one of them (not used)
RmName(s, n) == IF Named(cal[s], n) = {} THEN UNCHANGED <<cal, store>> /\ out' = "refused"
                ELSE Upd(s, Without(cal[s], Named(cal[s], n))) /\ out' = "ok"
RmPrefix(s, x) == Upd(s, Without(cal[s], {i \in Idx(cal[s].pts) : <<cal[s].pts[i].n, x>> \in HasPrefix})) /\ out' = "ok"
RmEnergy(s, e, d) == Upd(s, Without(cal[s], {i \in Idx(cal[s].pts) : Abs(cal[s].pts[i].e - e) < d})) /\ out' = "ok"
Set(s, c) == Upd(s, c) /\ out' = "ok"
SetCurve(s, ct) == Set(s, [cal[s] EXCEPT !.curve = ct])
SetNL(s, n) == Set(s, [cal[s] EXCEPT !.nl = n])
SetApprox(s, b) == Set(s, [cal[s] EXCEPT !.approx = b])
SetGPR(s, b) == Set(s, [cal[s] EXCEPT !.gpr = b])
New(s, ct, nl, ap, gp) == Set(s, Blank(ct, nl, ap, gp))
CopyTo(s, d) == cal' = [cal EXCEPT ![d] = cal[s]] /\ UNCHANGED store /\ out' = "ok"
Use(s) == UNCHANGED <<cal, store>> /\ out' = "ok"                \* converting changes nothing
Save(s, k) == store' = [x \in DOMAIN store \cup {k} |-> IF x = k THEN cal[s] ELSE store[x]] /\ UNCHANGED cal /\ out' = "ok"
Load(k, s) == IF k \in DOMAIN store THEN cal' = [cal EXCEPT ![s] = store[k]] /\ UNCHANGED store /\ out' = "ok"
              ELSE UNCHANGED <<cal, store>> /\ out' = "refused"

\* ---- what conversion must give, where it is an exact rational function (all energies multiples of 100) ----
Exact(c) == ~c.approx \/ Len(c.pts) < 3
Plain(c) == \A i \in Idx(c.pts) : c.pts[i].e % 100 = 0
E100(p) == p.e \div 100
\* E = 100 * num / den at pulse height x
Ratio2(c, x) ==
  LET p1 == c.pts[1].ph p2 == c.pts[2].ph e1 == E100(c.pts[1]) e2 == E100(c.pts[2]) d == p2 - p1 IN
  CASE c.curve = "linear"  -> <<e1 * d + (e2 - e1) * (x - p1), d>>
    [] c.curve = "gain"    -> <<x * d * e1 * e2, (p1 * e2 * d) + ((p2 * e1) - (p1 * e2)) * (x - p1)>>
    [] c.curve = "invgain" -> <<x * ((e1 * p2 * d) + ((e2 * p1) - (e1 * p2)) * (x - p1)), p1 * p2 * d>>
Ratio1(c, x) == <<E100(c.pts[1]) * x, c.pts[1].ph>>
ProbeAt(c) == {c.pts[1].ph, c.pts[Len(c.pts)].ph, (c.pts[1].ph + c.pts[Len(c.pts)].ph) \div 2, (c.pts[Len(c.pts)].ph * 5) \div 4}
\* Three points (two and the origin for "linear+0"): the natural cubic spline s through (x_i, y_i / Q), halfway between the first two or the last two:
\* (y0+y1)/2 - 3 h0 D / (16 h1 (h0+h1)), D = (y2-y1) h0 - (y1-y0) h1, and symmetrically. A probe is <<twice the pulse height, num, den>>.
Mid3(xs, ys, Q, first) == LET h0 == xs[2] - xs[1] h1 == xs[3] - xs[2] D == ((ys[3] - ys[2]) * h0) - ((ys[2] - ys[1]) * h1)
                              h == IF first THEN h0 ELSE h1 g == IF first THEN h1 ELSE h0 y == IF first THEN ys[1] + ys[2] ELSE ys[2] + ys[3]
                          IN <<(8 * g * (h0 + h1) * y) - (3 * h * D), Q * 16 * g * (h0 + h1)>>
Small3(c) == \A i \in Idx(c.pts) : c.pts[i].ph <= 40 /\ E100(c.pts[i]) <= 12      \* 32-bit arithmetic
X3(c) == IF c.curve = "linear+0" THEN <<0, c.pts[1].ph, c.pts[2].ph>> ELSE <<c.pts[1].ph, c.pts[2].ph, c.pts[3].ph>>
E3(c) == <<E100(c.pts[1]), E100(c.pts[2]), E100(c.pts[3])>>
Probe3(c, first) ==
  LET xs == X3(c) x2 == IF first THEN xs[1] + xs[2] ELSE xs[2] + xs[3] IN
  CASE c.curve = "linear" -> <<x2>> \o Mid3(xs, E3(c), 1, first)
    [] c.curve = "linear+0" -> <<x2>> \o Mid3(xs, <<0, E100(c.pts[1]), E100(c.pts[2])>>, 1, first)
    \* gain p/e, over the common denominator e1 e2 e3
    [] c.curve = "gain" -> LET e == E3(c) m == Mid3(xs, <<xs[1] * e[2] * e[3], xs[2] * e[1] * e[3], xs[3] * e[1] * e[2]>>, 1, first) 
                           IN <<x2, x2, 2, m[1], m[2], e[1] * e[2] * e[3]>>      \* E = (x2/2) / ((m1/m2) / eee)
    \* inverse gain e/p, over p1 p2 p3
    [] c.curve = "invgain" -> LET e == E3(c) m == Mid3(xs, <<e[1] * xs[2] * xs[3], e[2] * xs[1] * xs[3], e[3] * xs[1] * xs[2]>>, 1, first)
                              IN <<x2, x2, 2, m[1], m[2], xs[1] * xs[2] * xs[3]>>   \* E = (x2/2) * (m1/m2) / ppp
Probes3(c) == IF Plain(c) /\ ~c.approx /\ Small3(c) /\ ((Len(c.pts) = 3 /\ c.curve \in {"linear", "gain", "invgain"}) \/ (Len(c.pts) = 2 /\ c.curve = "linear+0"))
              THEN {Probe3(c, f) : f \in BOOLEAN} ELSE {}
\* points in proportion (and the calibration of every curve is then the proportionality, whether exact or smoothed)
Proportional(c) == Len(c.pts) >= 2 /\ \A i \in Idx(c.pts) : c.pts[i].e * c.pts[1].ph = c.pts[1].e * c.pts[i].ph
Probes(c) == IF ~Plain(c) \/ Len(c.pts) \notin 1..2 THEN {}
             ELSE IF Len(c.pts) = 1 THEN IF c.curve \in {"gain", "invgain"} THEN {<<x>> \o Ratio1(c, x) : x \in ProbeAt(c)} ELSE {}
             ELSE IF c.curve \in {"linear", "gain", "invgain"} THEN {r \in {<<x>> \o Ratio2(c, x) : x \in ProbeAt(c)} : r[3] > 0} ELSE {}
\* what kind of law holds otherwise
Kind(c) == LET n == Len(c.pts) IN
           IF n = 0 THEN "identity"
           ELSE IF n = 1 THEN IF c.curve = "loglog" THEN "power" ELSE IF c.curve \in {"gain", "invgain"} THEN "curve" ELSE "undefined"
           ELSE IF n = 2 /\ c.curve = "loglog" THEN "geometric" ELSE IF n = 2 /\ c.curve = "loggain" THEN "loggain2"
           ELSE IF Exact(c) THEN "curve" ELSE "smooth"

Init == cal = [s \in Slots |-> Blank("loglog", 11, FALSE, TRUE)] /\ store = <<>> /\ out = "ok"
PtFrom == [n : Names, ph : PHs, e : Es, dph : DPHs, de : DEs]
NextSmall == \E s \in Slots :
   \/ \E p \in PtFrom, ow \in BOOLEAN : Add(s, p, ow)
   \/ \E n \in Names \ {""} : RmName(s, n)
   \/ \E x \in Heads : RmPrefix(s, x)
   \/ \E e \in Es, d \in {1, 101} : RmEnergy(s, e, d)
   \/ \E ct \in {"linear", "gain"} : SetCurve(s, ct)
   \/ \E d \in Slots : CopyTo(s, d)
   \/ \E k \in Keys : Save(s, k) \/ Load(k, s)
   \/ Use(s)
Small == \A s \in Slots : Len(cal[s].pts) <= MaxPts

WF(c) == /\ \A i, j \in Idx(c.pts) : i < j => c.pts[i].ph < c.pts[j].ph /\ c.pts[i].e < c.pts[j].e
         /\ \A i, j \in Idx(c.pts) : i /= j /\ c.pts[i].n = c.pts[j].n => c.pts[i].n = ""
\* the rational laws pass through the anchors, and are increasing between them
Through(c) == \A r \in Probes(c) : \A i \in Idx(c.pts) : r[1] = c.pts[i].ph => r[2] = E100(c.pts[i]) * r[3]
\* the two kinds of law agree where both speak
Lawful(c) == Proportional(c) => /\ \A r \in Probes(c) : r[2] * c.pts[1].ph * 100 = r[1] * c.pts[1].e * r[3]
                                /\ (c.curve \in {"linear", "linear+0"} => \A r \in Probes3(c) : r[2] * c.pts[1].ph * 200 = r[1] * c.pts[1].e * r[3])
Shape == \A s \in Slots : WF(cal[s])
Inv == /\ \A s \in Slots : WF(cal[s]) /\ (Plain(cal[s]) => Through(cal[s])) /\ Lawful(cal[s])
       /\ \A k \in DOMAIN store : WF(store[k])
\* an action touches one calibration or one stored name, and a refused one nothing
Frame == [][ /\ Cardinality({s \in Slots : cal'[s] /= cal[s]}) <= 1
             /\ (out' = "refused" => cal' = cal /\ store' = store)
             /\ Cardinality({k \in DOMAIN store' : k \notin DOMAIN store \/ store'[k] /= store[k]}) <= 1
             /\ DOMAIN store \subseteq DOMAIN store'
             /\ ((\E s \in Slots : cal'[s] /= cal[s]) => store' = store) ]_vars
\* adding a point leaves every other point as it was
AddFrame == [][ \A s \in Slots : Len(cal'[s].pts) = Len(cal[s].pts) + 1 => PtSet(cal[s]) \subseteq PtSet(cal'[s]) \/ \E d \in Slots : cal'[s] = cal[d] \/ \E k \in DOMAIN store : cal'[s] = store[k] ]_vars
=============================================================================
