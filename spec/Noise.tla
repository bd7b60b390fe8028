-------------------------------- MODULE Noise --------------------------------
(* N01: noise autocorrelations and power spectra.  Accumulators of spectra (slot -> what was added to them), and a file of noise
   records with what was last computed and stored from it.                                                                    *)
EXTENDS Dft
CONSTANTS Slots, Absent
VARIABLES acc, rec, cont, st, ds, bad
vars == <<acc, rec, cont, st, ds, bad>>
\* =============== accumulators: [m, over, last, terms]
New(k, m, over) == acc' = [acc EXCEPT ![k] = [m |-> m, over |-> over, last |-> <<>>, terms |-> <<>>]] /\ UNCHANGED <<rec, cont, st, ds, bad>>
Fits(a, x) == Len(x) = 2 * a.m
\* a segment of an overlapped spectrum has half the length and is taken with the one before it
Add(k, x, w) == LET a == acc[k] IN
    /\ acc' = [acc EXCEPT ![k] = IF ~a.over THEN (IF Fits(a, x) THEN [a EXCEPT !.terms = Append(@, Spectrum(x, w))] ELSE a)
                                 ELSE [a EXCEPT !.last = x, !.terms = IF a.last = <<>> THEN @ ELSE Append(@, Spectrum(a.last \o x, w))]]
    /\ UNCHANGED <<rec, cont, st, ds, bad>>
Starts(a, n) == IF ~a.over THEN [j \in 1..n \div (2 * a.m) |-> (j - 1) * 2 * a.m]
                ELSE LET nk == (n - 1) \div a.m IN [j \in 1..nk |-> IF nk = 1 THEN 0 ELSE (2 * (j - 1) * (n - 2 * a.m) + nk - 1) \div (2 * (nk - 1))]
LongFits(a, n) == \A j \in DOMAIN Starts(a, n) : Starts(a, n)[j] + 2 * a.m <= n
Long(k, x, w) == LET a == acc[k]  s == Starts(a, Len(x)) IN
    /\ acc' = [acc EXCEPT ![k].terms = @ \o [j \in 1..Len(s) |-> Spectrum(SubSeq(x, s[j] + 1, s[j] + 2 * a.m), w)]]
    /\ UNCHANGED <<rec, cont, st, ds, bad>>
Copy(k, j) == acc' = [acc EXCEPT ![j] = acc[k]] /\ UNCHANGED <<rec, cont, st, ds, bad>>
\* the spectrum of all of the data: every pair of neighbouring parts of length m
Whole(x, segs, kind) == LET m == Len(x) \div (2 * segs)  w == Window(kind, 2 * m) IN [j \in 1..2 * segs - 1 |-> Spectrum(SubSeq(x, (j - 1) * m + 1, (j + 1) * m), w)]
\* =============== records
NS == Len(rec[1])
Even(n) == n - (n % 2)
Flat(rs) == FlattenSeq(rs)
Cut(x, n) == TLCEval([j \in 1..Len(x) \div n |-> SubSeq(x, (j - 1) * n + 1, j * n)])
\* segments of length seg: continuous records are cut anew; of others, one sample of an odd number is left
Segments(rs, c, seg) == IF c THEN Cut(Flat(rs), Even(seg)) ELSE [i \in DOMAIN rs |-> SubSeq(rs[i], 1, Even(seg))]
Calm(x, exc) == Max2(x) - Min2(x) <= exc
Psd(rs, c, seg, kind, exc) ==
    LET ok == SelectSeq(Segments(rs, c, seg), LAMBDA x : Calm(x, exc))  n == Even(seg)
        win == Window(kind, n)  terms == TLCEval([i \in DOMAIN ok |-> Spectrum(Centered(ok[i]), win)])
    IN [pow |-> [k \in 1..n \div 2 + 1 |-> <<Sum(DOMAIN ok, LAMBDA i : terms[i].pow[k][1]), Sum(DOMAIN ok, LAMBDA i : terms[i].pow[k][2])>>],
        w2 |-> Norm(win), sc |-> n * n, n |-> Len(ok), m |-> n \div 2]
\* whole records within samples a + 1 .. b
Within(rs, a, b) == LET n == Len(rs[1]) IN SubSeq(rs, (a + n - 1) \div n + 1, b \div n)
Lags(n, x) == [l \in 1..n |-> x[l]]
AcBroken(rs, lags, a, b, exc) ==
    LET n == Len(rs[1])  ok == SelectSeq(Within(rs, a, b), LAMBDA x : Calm(x, exc))  ys == TLCEval([i \in DOMAIN ok |-> Centered(ok[i])])
    IN [l \in 1..lags |-> <<Sum(DOMAIN ok, LAMBDA i : Lagged(ys[i], l - 1)), n * n * Len(ok) * (n - (l - 1))>>]
\* continuous data are taken in pieces of 15 times the number of lags
Multiple == 15
FewerLags(lags, a, b) == IF b - a < Multiple * lags THEN (b - a) \div Multiple ELSE lags
Quiet(y, n, exc) == \A t \in DOMAIN y : Abs(y[t]) <= n * exc
Pieces(rs, lags, a, b, exc) == LET n == Multiple * lags  ps == Cut(SubSeq(Flat(rs), a + 1, b), n) IN SelectSeq(TLCEval([i \in DOMAIN ps |-> Centered(ps[i])]), LAMBDA y : Quiet(y, n, exc))
AcCont(rs, lags, a, b, exc) ==
    LET n == Multiple * lags  ys == Pieces(rs, lags, a, b, exc)
    IN [l \in 1..lags |-> <<Sum(DOMAIN ys, LAMBDA i : Lagged(ys[i], l - 1)), n * n * Len(ys) * (n - (l - 1))>>]
\* how many lags come out, 0 if it is refused
LagsOf(rs, c, lags, a, b) == LET n == Len(rs[1]) IN
    IF ~c THEN (IF lags > n THEN 0 ELSE lags)
    ELSE IF b - a < Multiple * lags THEN (IF FewerLags(lags, a, b) < n THEN 0 ELSE FewerLags(lags, a, b)) ELSE lags
Autocorr(rs, c, lags, a, b, exc) == LET k == LagsOf(rs, c, lags, a, b) IN IF c THEN AcCont(rs, k, a, b, exc) ELSE AcBroken(rs, k, a, b, exc)
\* is anything left?
AnyAc(rs, c, lags, a, b, exc) == LET k == LagsOf(rs, c, lags, a, b) IN
    IF k = 0 THEN TRUE ELSE IF c THEN Pieces(rs, k, a, b, exc) # <<>> ELSE \E i \in DOMAIN Within(rs, a, b) : Calm(Within(rs, a, b)[i], exc)
AnyPsd(rs, c, seg, exc) == \E i \in DOMAIN Segments(rs, c, seg) : Calm(Segments(rs, c, seg)[i], exc)
\* ---- what is stored: with the records as many lags as samples (none where not computed), zero at first
Zero == [ac |-> <<>>, psd |-> Absent]
Stored(ac) == [l \in 1..NS |-> IF l <= Len(ac) THEN ac[l] ELSE <<0, 1>>]
IsZero(ac) == ac = <<>> \/ \A l \in DOMAIN ac : ac[l][1] = 0
Total == NS * Len(rec)
CanCompute == LagsOf(rec, cont, NS, 0, Total) # 0
\* through the group, a channel that fails is set aside, and one set aside is left alone
Noise(exc, force, grp) ==
    IF (grp /\ bad) \/ (~force /\ ~IsZero(ds.ac)) THEN UNCHANGED vars
    ELSE LET p == Psd(rec, cont, NS, "hann", exc) IN
         IF ~CanCompute THEN st' = [st EXCEPT !.psd = p] /\ bad' = (bad \/ grp) /\ UNCHANGED <<acc, rec, cont, ds>>
         ELSE LET r == [ac |-> Stored(Autocorr(rec, cont, NS, 0, Total, exc)), psd |-> p] IN st' = r /\ ds' = r /\ UNCHANGED <<acc, rec, cont, bad>>
NoiseFails(force, grp) == ~((grp /\ bad) \/ (~force /\ ~IsZero(ds.ac))) /\ ~CanCompute
White(v, force, grp) == /\ ds' = IF grp /\ bad THEN ds ELSE IF force \/ IsZero(ds.ac) THEN [ac |-> [l \in 1..NS |-> IF l = 1 THEN <<v, 1>> ELSE <<0, 1>>], psd |-> [white |-> v]] ELSE ds
                   /\ UNCHANGED <<acc, rec, cont, st, bad>>
\* on the records themselves: a spectrum is stored if it is as long as the records allow
ComputePsd(kind, seg, exc) == /\ st' = IF Even(seg) \div 2 = NS \div 2 THEN [st EXCEPT !.psd = Psd(rec, cont, seg, kind, exc)] ELSE st
                              /\ UNCHANGED <<acc, rec, cont, ds, bad>>
ComputeAc(lags, a, b, exc) == /\ st' = IF LagsOf(rec, cont, lags, a, b) = 0 THEN st ELSE [st EXCEPT !.ac = Stored(Autocorr(rec, cont, lags, a, b, exc))]
                              /\ UNCHANGED <<acc, rec, cont, ds, bad>>
Reopen == UNCHANGED vars

\* =============== exhaustive checking
CONSTANTS Vals, RecLen, MaxRec
Init == /\ rec \in UNION {[1..n -> [1..RecLen -> Vals]] : n \in 1..MaxRec} /\ cont \in BOOLEAN
        /\ st = Zero /\ ds = Zero /\ bad = FALSE /\ acc = [k \in Slots |-> [m |-> 1, over |-> FALSE, last |-> <<>>, terms |-> <<>>]]
NextSmall == \/ \E e \in {0, 9}, f \in BOOLEAN : NS = 4 /\ AnyPsd(rec, cont, NS, e) /\ AnyAc(rec, cont, NS, 0, Total, e) /\ Noise(e, f, TRUE)
             \/ \E f \in BOOLEAN : White(5, f, TRUE)
             \/ \E l \in 1..RecLen : ComputeAc(l, 0, Total, 9)
\* power is conserved: the powers at all frequencies (those between first and last twice) make up the sum of squares (Parseval)
Parseval(x) == LET n == Len(x)  m == n \div 2  s == [k \in 1..m + 1 |-> Power4(x, k - 1)]
               IN /\ s[1][1] + s[m + 1][1] + 2 * Sum(2..m, LAMBDA k : s[k][1]) = 4 * n * Sum(1..n, LAMBDA t : x[t] * x[t])
                  /\ s[1][2] + s[m + 1][2] + 2 * Sum(2..m, LAMBDA k : s[k][2]) = 0
Conserved == \A i \in DOMAIN rec : Len(rec[i]) \in Lengths => Parseval(rec[i]) /\ Parseval(Weighted(rec[i], Window("ramp", Len(rec[i]))))
\* lag 0 is the mean square, which no other lag exceeds; nothing of a constant
Largest == \A i \in DOMAIN rec : LET y == Centered(rec[i]) IN \A l \in 1..Len(y) - 1 : Abs(Lagged(y, l)) <= Lagged(y, 0)
ConstantFree == \A i \in DOMAIN rec : Centered(rec[i]) = Centered([t \in 1..Len(rec[i]) |-> rec[i][t] + 3])
NoDc == \A i \in DOMAIN rec : Len(rec[i]) \in Lengths => Power4(Centered(rec[i]), 0) = <<0, 0>>
AllBins == \A m \in 1..6 : \A nb \in 1..m : \A b \in 1..nb + 1 : Bins(m, nb)[b] # {}
=============================================================================
