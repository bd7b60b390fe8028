------------------------------ MODULE RawFile ------------------------------
(* L01, L02, O02: raw pulse files (LJH 2.1 and 2.2): writing (torn anywhere), reading, copying, appending, truncating, modifying, *)
(* merging, and conversion to OFF.  A record is what it was when written, wherever it is copied.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS MaxRec
VARIABLES files,   \* path -> none or [ver, meta, recs, tail]
          cm,      \* samples are below this number
          nd,      \* record contents written so far
          touched, \* the path written by the last operation
          out
vars == <<files, cm, nd, touched, out>>
None == [ver |-> 0]
Paths == DOMAIN files
Ex(p) == files[p].ver # 0
Chan(p) == IF p = 4 THEN 6 ELSE 5

\* ---- what a header means ----
Ver(h) == h.ver
IsDastard(h) == h.client \in {"DASTARD version 0.2.4", "DASTARD 0.3"}
IsAbaco(h) == h.source \in {"Abaco", "Abaco ring 2"}
Or(v, d) == IF v = -1 THEN d ELSE v
Meta(h) == LET rows == Or(h.rows, 1)
               row == Or(h.row, 0)
           IN [nS |-> h.nS, nPre |-> h.npre + (IF IsDastard(h) THEN 0 ELSE 3), tb |-> h.tb, rows |-> rows, cols |-> Or(h.cols, 1), row |-> row, col |-> Or(h.col, 0),
               div |-> Or(h.subdiv, IF IsAbaco(h) THEN 64 ELSE IF rows <= 0 THEN 1 ELSE rows), off |-> Or(h.suboff, IF IsAbaco(h) THEN 0 ELSE row),
               ts |-> h.ts, source |-> IF h.source = "" THEN "Lancero (assumed)" ELSE h.source]
RecSize(v, nS) == (IF v = 21 THEN 6 ELSE 16) + 2 * nS

\* ---- what is in a record: data id d, transformed by xf; stored time words a and b ----
Raw(d, z) == (d * 7919 + z * z * 131 + z * 31 * d + (d % 3) * 40000) % cm
Sample(d, xf, z) == CASE xf = 0 -> Raw(d, z) [] xf = 1 -> 65535 - Raw(d, z) [] OTHER -> (Raw(d, z) + 7) % 65536
\* version 2.1 stores 4-us ticks (a) and milliseconds (b); the frame count is recovered from them
Frame(m, r) == 4 + ((r.a * 4000 + r.b * 1000000 - 1) \div m.tb)
SubNum(m, r) == Frame(m, r) * m.div + m.off
Usec(m, r) == LET N == SubNum(m, r) * m.tb
                  D == 1000 * m.div
              IN (2 * N + D) \div (2 * D)
Untied(m, r) == LET N == SubNum(m, r) * m.tb IN 2 * (N % (1000 * m.div)) # 1000 * m.div
\* as read: sub-frame count and time in us
AsRead(f, r) == IF f.ver = 22 THEN r ELSE [d |-> r.d, xf |-> r.xf, a |-> SubNum(f.meta, r), b |-> Usec(f.meta, r), big |-> 0]
Recs(f) == [i \in DOMAIN f.recs |-> AsRead(f, f.recs[i])]
Segments(f, seg) == LET k == seg \div RecSize(f.ver, f.meta.nS)
                    IN IF Len(f.recs) = 0 THEN 0 ELSE 1 + ((Len(f.recs) - 1) \div k)

\* ---- operations ----
Set(p, f, o) == files' = [files EXCEPT ![p] = f] /\ touched' = p /\ out' = o
Nothing(o) == UNCHANGED files /\ touched' = 0 /\ out' = o
Create(p, h) == ~Ex(p) /\ Set(p, [ver |-> Ver(h), meta |-> Meta(h), recs |-> <<>>, tail |-> 0], "ok") /\ UNCHANGED <<cm, nd>>
Rec(d, a, b, v) == [d |-> d, xf |-> 0, a |-> a, b |-> b, big |-> IF v = 22 THEN 1 ELSE 0]
Write(p, ts) == Ex(p) /\ files[p].tail = 0 /\ nd' = nd + Len(ts) /\ UNCHANGED cm
                /\ Set(p, [files[p] EXCEPT !.recs = @ \o [i \in DOMAIN ts |-> Rec(nd + i, ts[i][1], ts[i][2], files[p].ver)]], "ok")
Tear(p, k) == Ex(p) /\ files[p].tail + k < RecSize(files[p].ver, files[p].meta.nS) /\ Set(p, [files[p] EXCEPT !.tail = @ + k], "ok") /\ UNCHANGED <<cm, nd>>
\* sel: indices of the source's records, in the order wanted
Pick(f, sel) == LET rr == Recs(f) IN [i \in DOMAIN sel |-> rr[sel[i]]]
Copy(s, d, sel, ow) == Ex(s) /\ UNCHANGED <<cm, nd>> /\
    IF s = d \/ (Ex(d) /\ ~ow) THEN Nothing("refused")
    ELSE Set(d, [ver |-> 22, meta |-> files[s].meta, recs |-> Pick(files[s], sel), tail |-> 0], "ok")
Compatible(f, g) == f.ver = 22 /\ f.meta.nS = g.meta.nS
AppendTo(s, d, sel) == Ex(s) /\ s # d /\ UNCHANGED <<cm, nd>> /\
    IF ~Ex(d) THEN Nothing("refused")
    ELSE IF ~Compatible(files[d], files[s]) THEN Nothing("refused")
    ELSE Set(d, [files[d] EXCEPT !.recs = @ \o Pick(files[s], sel), !.tail = 0], "ok")
Later(r, t) == r.big > t.big \/ (r.big = t.big /\ r.b > t.b)
UpTo(f, t) == LET later == {i \in DOMAIN f.recs : Later(f.recs[i], t)}
                  n == IF later = {} THEN Len(f.recs) ELSE Min(later) - 1
              IN n
TruncTo(s, d, n) == IF s = d \/ files[s].ver = 21 THEN Nothing("refused")
                    ELSE LET m == IF n < Len(files[s].recs) THEN n ELSE Len(files[s].recs) IN Set(d, [files[s] EXCEPT !.recs = SubSeq(@, 1, m), !.tail = 0], "ok")
Trunc(s, d, n) == Ex(s) /\ (IF s = d THEN TRUE ELSE ~Ex(d)) /\ UNCHANGED <<cm, nd>> /\ TruncTo(s, d, n)
TruncTime(s, d, t) == Ex(s) /\ (IF s = d THEN TRUE ELSE ~Ex(d)) /\ UNCHANGED <<cm, nd>> /\ TruncTo(s, d, IF files[s].ver = 21 THEN 0 ELSE UpTo(files[s], t))
Xf(x, y) == IF y = 0 THEN x ELSE y
Modify(s, d, x, ow) == Ex(s) /\ (IF x = 0 THEN TRUE ELSE {i \in DOMAIN files[s].recs : files[s].recs[i].xf # 0} = {}) /\ UNCHANGED <<cm, nd>> /\
    IF s = d \/ (Ex(d) /\ ~ow) THEN Nothing("refused")
    ELSE Set(d, [files[s] EXCEPT !.recs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.xf = Xf(@, x)]], !.tail = 0], "ok")
\* the first file is copied as it is, the others' records are added; a merge that cannot be leaves no output to rely on
CanMerge(l, d) == Len(l) = 1 \/ (files[l[1]].ver = 22 /\ \A i \in DOMAIN l : files[l[i]].meta.nS = files[l[1]].meta.nS /\ (IF i = 1 THEN TRUE ELSE Chan(l[i]) = Chan(d)))
Merge(l, d, force) == (\A i \in DOMAIN l : Ex(l[i])) /\ UNCHANGED <<cm, nd>> /\
    IF (Ex(d) /\ ~force) \/ d \in ToSet(l) THEN Nothing("refused")
    ELSE IF ~CanMerge(l, d) THEN Set(d, None, "failed")
    ELSE Set(d, [files[l[1]] EXCEPT !.recs = @ \o FoldLeft(LAMBDA acc, i : acc \o Recs(files[l[i]]), <<>>, [k \in 1..(Len(l) - 1) |-> k + 1]),
                                    !.tail = IF Len(l) = 1 THEN @ ELSE 0], "ok")
Erase(p) == Ex(p) /\ Set(p, None, "ok") /\ UNCHANGED <<cm, nd>>

\* ---- conversion to OFF: coefficients of the model, and what is left ----
Proj(j, z) == ((z * 3 + j * 4 + z * j) % 3) - 1
Basis(z, j) == ((z * 5 + j * 2 + z * j) % 3) - 1
Sum(n, Op(_)) == FoldLeft(LAMBDA a, k : a + Op(k), 0, [k \in 1..n |-> k])
Off(f, r, nb, ign) ==
    LET nS == f.meta.nS
        np == f.meta.nPre - ign
        y == [z \in 1..nS |-> Sample(r.d, r.xf, z)]
        co == [j \in 1..nb |-> Sum(nS, LAMBDA z : Proj(j, z) * y[z])]
        res == [z \in 1..nS |-> y[z] - Sum(nb, LAMBDA j : Basis(z, j) * co[j])]
        s1 == Sum(nS, LAMBDA z : res[z])
        s2 == Sum(nS, LAMBDA z : res[z] * res[z])
        p1 == Sum(np, LAMBDA z : y[z])
        pz == Sum(np, LAMBDA z : (z - 1) * y[z])
    IN [d |-> r.d, xf |-> r.xf, coefs |-> co, var |-> nS * s2 - s1 * s1,     \* residual std: sqrt(var)/nS
        mean |-> p1, np |-> np,                                              \* pretrigger mean: mean/np
        delta |-> IF np = 1 THEN 0 ELSE 6 * (2 * pz - (np - 1) * p1),        \* change over the presamples: delta/(np*(np+1))
        frame |-> LET a == AsRead(f, r).a IN a \div f.meta.div, big |-> AsRead(f, r).big, us |-> AsRead(f, r).b]
CanConvert(f, nS, ign) == f.meta.nS = nS /\ f.meta.nPre <= nS /\ ign < f.meta.nPre
Converted(l, nb, ign) == FoldLeft(LAMBDA acc, p : acc \o [i \in DOMAIN files[p].recs |-> Off(files[p], files[p].recs[i], nb, ign)], <<>>, l)

\* ---- small instance ----
Hdr(v, nS, c) == [ver |-> v, nS |-> nS, npre |-> 1, client |-> c, tb |-> 9600, rows |-> 8, cols |-> -1, row |-> 3, col |-> -1, source |-> "", subdiv |-> -1, suboff |-> -1, ts |-> 0]
Init == files = [p \in 1..2 |-> None] /\ cm = 23 /\ nd = 0 /\ touched = 0 /\ out = "ok"
Sels(f) == {<<>>, [i \in DOMAIN f.recs |-> Len(f.recs) + 1 - i]} \cup {<<i, i>> : i \in DOMAIN f.recs}
Small(p) == Ex(p) => Len(files[p].recs) <= MaxRec
NextAny == \/ \E p \in Paths, v \in {21, 22} : \E n \in (IF v = 22 THEN {2, 3} ELSE {2}) : Create(p, Hdr(v, n, "x"))
           \/ \E p \in Paths : nd < MaxRec /\ Write(p, << <<1, nd % 2>> >>)
           \/ \E p \in Paths, k \in {5} : Ex(p) /\ files[p].tail = 0 /\ Tear(p, k)
           \/ \E s, d \in Paths, ow \in BOOLEAN : Ex(s) /\ \E sel \in Sels(files[s]) : Copy(s, d, sel, ow)
           \/ \E s, d \in Paths : Ex(s) /\ \E sel \in Sels(files[s]) : AppendTo(s, d, sel)
           \/ \E s, d \in Paths, n \in {0, 1, 9} : Trunc(s, d, n)
           \/ \E s, d \in Paths : TruncTime(s, d, [big |-> 1, b |-> 0])
           \/ \E s, d \in Paths, ow \in BOOLEAN : Modify(s, d, 1, ow)
           \/ \E s, s2, d \in Paths, f \in BOOLEAN : Merge(<<s, s2>>, d, f)
           \/ \E s, d \in Paths, f \in BOOLEAN : Merge(<<s>>, d, f)
Next == NextAny /\ \A p \in Paths : Small(p)'
\* ---- checked ----
\* a data id is what was written; nothing else is in any file, and one reader's time is every reader's time
Provenance == \A p \in Paths : Ex(p) => \A i \in DOMAIN files[p].recs : files[p].recs[i].d \in 1..nd
\* whatever is read of one record by its id and origin is the same in every file of the copied kind
Whole == \A p \in Paths : Ex(p) => files[p].tail < RecSize(files[p].ver, files[p].meta.nS)
OnlyTouched == [][\A p \in Paths : files'[p] # files[p] => p = touched']_vars
RefusedUnchanged == [][out' = "refused" => UNCHANGED files]_vars
=============================================================================
