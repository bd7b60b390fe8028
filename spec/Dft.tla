--------------------------------- MODULE Dft ---------------------------------
(* Exact power spectra of integer sequences of 2, 4, 6, 8 or 12 samples: all cosines needed lie in Z[sqrt 2]/2 or Z[sqrt 3]/2,
   so that a power is a pair <<a, b>> of integers standing for a + b sqrt(D).                                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Lengths == {2, 4, 6, 8, 12}
D(n) == IF n = 8 THEN 2 ELSE 3
\* twice the cosine of 15 degrees times a
Cos2(a) == LET b == IF a > 12 THEN 24 - a ELSE a
           IN CASE b = 0 -> <<2, 0>> [] b \in {2, 3} -> <<0, 1>> [] b = 4 -> <<1, 0>> [] b = 6 -> <<0, 0>> [] b = 8 -> <<-1, 0>> [] b \in {9, 10} -> <<0, -1>> [] OTHER -> <<-2, 0>>
Sum(S, v(_)) == MapThenSumSet(v, S)
Part(x, k, shift, j) == LET n == Len(x) IN Sum(1..n, LAMBDA t : x[t] * Cos2((k * (t - 1) * (24 \div n) + shift) % 24)[j])
Sq(p, q, d) == <<p * p + d * q * q, 2 * p * q>>
\* four times the squared modulus of coefficient k of the Fourier transform of x
Power4(x, k) == LET re == Sq(Part(x, k, 0, 1), Part(x, k, 0, 2), D(Len(x)))  im == Sq(Part(x, k, 18, 1), Part(x, k, 18, 2), D(Len(x)))
                IN <<re[1] + im[1], re[2] + im[2]>>
Weighted(x, w) == TLCEval([t \in 1..Len(x) |-> w[t] * x[t]])
Norm(w) == Sum(DOMAIN w, LAMBDA t : w[t] * w[t])
\* the spectrum of x at frequencies 0..n/2 is 2 dt pow[k] / (4 w2)
Spectrum(x, w) == LET y == Weighted(x, w) IN [pow |-> TLCEval([k \in 1..(Len(x) \div 2) + 1 |-> Power4(y, k - 1)]), w2 |-> Norm(w)]
\* ---- windows, up to a factor
Abs(x) == IF x < 0 THEN -x ELSE x
Window(kind, n) == TLCEval([t \in 1..n |-> CASE kind = "none" -> 1
    [] kind = "bartlett" -> (n - 1) - Abs(2 * (t - 1) - (n - 1))
    [] kind = "welch" -> ((n - 1) * (n - 1) - (2 * (t - 1) - (n - 1)) * (2 * (t - 1) - (n - 1))) \div 8
    [] kind = "hann" -> <<0, 1, 1, 0>>[t]
    [] kind = "ramp" -> t])
\* the bin of frequency number i among m + 1 when rebinned into nb + 1
Bin(i, m, nb) == (2 * i * nb + m) \div (2 * m)
Bins(m, nb) == [b \in 1..nb + 1 |-> {i \in 0..m : Bin(i, m, nb) = b - 1}]
\* ---- autocorrelation of x about its mean: lag l is num[l + 1] / (Len(x)^2 (Len(x) - l))
Centered(x) == LET s == Sum(DOMAIN x, LAMBDA t : x[t]) IN TLCEval([t \in 1..Len(x) |-> Len(x) * x[t] - s])
Lagged(y, l) == Sum(1..Len(y) - l, LAMBDA t : y[t] * y[t + l])
Max2(x) == CHOOSE v \in {x[t] : t \in DOMAIN x} : \A t \in DOMAIN x : x[t] <= v
Min2(x) == CHOOSE v \in {x[t] : t \in DOMAIN x} : \A t \in DOMAIN x : x[t] >= v
=============================================================================
