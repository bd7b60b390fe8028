------------------------------- MODULE Filters -------------------------------
(* F01: optimal filters.  A maker holds a signal, a model of its change with arrival time, and the noise: an autocorrelation, a
   whitener (moving-average and autoregressive coefficients) or a periodic autocorrelation (for Fourier filters).  All integers;
   a filter is given up to scale, or (arrival-time safe) by the normal equations that fix it.                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Sum(S, v(_)) == MapThenSumSet(v, S)
Dot(x, y) == Sum(DOMAIN x, LAMBDA t : x[t] * y[t])
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
GcdAll(x) == FoldLeft(LAMBDA g, v : Gcd(v, g), 0, x)
Div(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Reduced(x) == LET g == GcdAll(x) IN IF g = 0 THEN x ELSE TLCEval([t \in DOMAIN x |-> Div(x[t], g)])
Ones(n) == [t \in 1..n |-> 1]
Cut(x, pre, post) == SubSeq(x, pre + 1, Len(x) - post)
\* ---- exact linear algebra: fraction-free elimination without row exchange (all leading minors are not 0)
Exact(a, b) == IF b < 0 THEN Div(-a, -b) ELSE Div(a, b)
Upto(n) == [i \in 1..n |-> i]
\* (folds, since arguments of recursive operators are evaluated again and again)
Row(M, i, k, prev) == [j \in DOMAIN M[i] |-> IF j < k THEN 0 ELSE Exact(M[k][k] * M[i][j] - M[i][k] * M[k][j], prev)]
ElimStep(st, k) == <<TLCEval([i \in DOMAIN st[1] |-> IF i <= k THEN st[1][i] ELSE Row(st[1], i, k, st[2])]), st[1][k][k]>>
Elim(M) == FoldLeft(ElimStep, <<M, 1>>, Upto(Len(M) - 1))[1]
\* all leading minors, as long as they are not 0
RegularTo(M, n) == FoldLeft(LAMBDA st, k : IF st[2] = 0 THEN st ELSE IF st[1][k][k] = 0 THEN <<st[1], 0>> ELSE ElimStep(st, k), <<M, 1>>, Upto(n - 1))[2] # 0
                   /\ Elim(M)[n][n] # 0
\* x with M x = det b, b being the last column of the extended matrix
Back(E, d) == LET n == Len(E) IN
    FoldLeft(LAMBDA x, i : TLCEval(<<Exact(d * E[n + 1 - i][n + 1] - Sum((n + 2 - i)..n, LAMBDA j : E[n + 1 - i][j] * x[j - n - 1 + i]), E[n + 1 - i][n + 1 - i])>> \o x), <<>>, Upto(n))
Solve(M, b) == LET E == Elim(TLCEval([i \in DOMAIN M |-> Append(M[i], b[i])])) IN [det |-> E[Len(M)][Len(M)], x |-> Back(E, E[Len(M)][Len(M)])]
Times(M, x) == TLCEval([i \in DOMAIN M |-> Dot(M[i], x)])
Toep(r, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> LET k == Abs(i - j) + 1 IN IF k > Len(r) THEN 0 ELSE r[k]]])
\* T has 2 n - 1 entries, the first for the upper right corner
ToepA(T, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> T[i - j + n]]])
Circ(c, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> LET k == Abs(i - j) IN c[(IF 2 * k > n THEN n - k ELSE k) + 1]]])
Transpose(M) == [j \in 1..Len(M[1]) |-> [i \in DOMAIN M |-> M[i][j]]]
\* ---- whiteners: lower triangular banded matrices; theta[1] and phi[1] are 1 or -1 so that their inverses are integers
Band(c, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i - j >= 0 /\ i - j < Len(c) THEN c[i - j + 1] ELSE 0]])
Apply(c, v) == TLCEval([i \in DOMAIN v |-> Sum(0..Len(c) - 1, LAMBDA k : IF i - k >= 1 THEN c[k + 1] * v[i - k] ELSE 0)])
Unapply(c, v) == FoldLeft(LAMBDA x, i : Append(x, c[1] * (v[i] - Sum(1..Len(c) - 1, LAMBDA k : IF i - k >= 1 THEN c[k + 1] * x[i - k] ELSE 0))), <<>>, Upto(Len(v)))
Whiten(th, ph, v) == Unapply(th, Apply(ph, v))
SolveW(th, ph, v) == Unapply(ph, Apply(th, v))
\* the transposed operations are the same backwards
ApplyWT(th, ph, v) == Reverse(Whiten(th, ph, Reverse(v)))
SolveWT(th, ph, v) == Reverse(SolveW(th, ph, Reverse(v)))
\* ---- signals: less the mean of all but the last sample before the trigger (those not cut); zero before it
Shape(s, npre, pre) == LET m == npre - 1 - pre  base == Sum((pre + 1)..(npre - 1), LAMBDA t : s[t])
                       IN TLCEval([t \in DOMAIN s |-> IF t <= npre THEN 0 ELSE m * s[t] - base])
\* the shape before it is set to zero, for its extremes: [min, max] of the whole and of what is not cut
Raised(s, npre, pre) == LET m == npre - 1 - pre  base == Sum((pre + 1)..(npre - 1), LAMBDA t : s[t]) IN TLCEval([t \in DOMAIN s |-> m * s[t] - base])
Max2(x) == CHOOSE v \in {x[t] : t \in DOMAIN x} : \A t \in DOMAIN x : x[t] <= v
Min2(x) == CHOOSE v \in {x[t] : t \in DOMAIN x} : \A t \in DOMAIN x : x[t] >= v
\* ---- noise: [kind, ...]; the inverse of its covariance applied to b, up to a common factor det
Weigh(noise, b) == LET n == Len(b) IN
    CASE noise.kind = "auto" -> Solve(Toep(noise.r, n), b)
      [] noise.kind = "periodic" -> Solve(Circ(noise.r, n), b)
      [] noise.kind = "whitener" -> [det |-> 1, x |-> ApplyWT(noise.theta, noise.phi, Whiten(noise.theta, noise.phi, b))]
\* ---- filters of a signal of which the constant is unknown: the combination of both weighted vectors that a constant does not move
Insensitive(noise, a) == LET xs == Reduced(Weigh(noise, a).x)  x1 == Reduced(Weigh(noise, Ones(Len(a))).x)
                         IN Reduced(TLCEval([t \in DOMAIN a |-> Sum(DOMAIN a, LAMBDA k : x1[k]) * xs[t] - Sum(DOMAIN a, LAMBDA k : xs[k]) * x1[t]]))
\* the sign in which it responds to the signal
Oriented(u, a) == IF Dot(u, a) < 0 THEN [t \in DOMAIN u |-> -u[t]] ELSE u
Lag5(noise, a) == LET b == Cut(a, 2, 2) IN Oriented(Insensitive(noise, b), b)
\* what it gives for the signal at five lags
Five(u, a) == [i \in 1..5 |-> Dot(u, SubSeq(a, i, i + Len(u) - 1))]
\* normal equations of an arrival-time-safe filter: columns weighted (over det), and their products with the columns
Normal(noise, a, d) == LET M == <<a, d, Ones(Len(a))>>  W == TLCEval([k \in 1..3 |-> Weigh(noise, M[k])])
                       IN [det |-> W[1].det, X |-> [k \in 1..3 |-> W[k].x], B |-> TLCEval([i \in 1..3 |-> [j \in 1..3 |-> Dot(M[i], W[j].x)]])]
Det3(B) == B[1][1] * (B[2][2] * B[3][3] - B[2][3] * B[3][2]) - B[1][2] * (B[2][1] * B[3][3] - B[2][3] * B[3][1]) + B[1][3] * (B[2][1] * B[3][2] - B[2][2] * B[3][1])
\* ---- limiting the band: the factor <<num, den>> of each frequency; hard limits lie between two frequencies (h: above the h-th), 0: none
Gain(k, h, f3) == IF h # 0 /\ k > h - 1 THEN <<0, 1>> ELSE IF f3 # 0 THEN <<f3 * f3, f3 * f3 + k * k>> ELSE <<1, 1>>
Gains(n, h, f3) == [k \in 1..n \div 2 + 1 |-> Gain(k - 1, h, f3)]
\* =============== exhaustive checking
CONSTANTS Vals, Len5, Noises, Coefs
VARIABLES s, nz
vars == <<s, nz>>
Init == s \in [1..Len5 -> Vals] /\ nz \in Noises /\ RegularTo(Toep(nz.r, Len5), Len5)
Next == \E t \in 1..Len5 : \E v \in Vals : s' = [s EXCEPT ![t] = v] /\ UNCHANGED nz
R == Toep(nz.r, Len5)
u == Oriented(Insensitive(nz, s), s)
Solves == LET y == Solve(R, s) IN Times(R, y.x) = [t \in DOMAIN s |-> y.det * s[t]]
NoDc == Sum(DOMAIN u, LAMBDA t : u[t]) = 0
\* stationary: changes v that neither signal nor constant notice are uncorrelated to the filter's noise
Changes == {v \in [1..Len5 -> -1..1] : Dot(v, s) = 0 /\ Sum(DOMAIN v, LAMBDA t : v[t]) = 0}
Optimal == \A v \in Changes : Dot(v, Times(R, u)) = 0
\* so that none of those is less noisy (if the covariance is positive)
Least == \A v \in Changes : LET w == [t \in DOMAIN u |-> u[t] + v[t]] IN Dot(w, Times(R, w)) >= Dot(u, Times(R, u))
Shifted == Insensitive(nz, [t \in DOMAIN s |-> 2 * s[t] + 3]) = Insensitive(nz, s)
Whitened == \A th, ph \in Coefs : /\ SolveW(th, ph, Whiten(th, ph, s)) = s /\ SolveWT(th, ph, ApplyWT(th, ph, s)) = s
                                  /\ Times(Band(th, Len5), Whiten(th, ph, s)) = Times(Band(ph, Len5), s)
                                  /\ Dot(Whiten(th, ph, s), Reverse(s)) = Dot(s, ApplyWT(th, ph, Reverse(s)))
Triangle == LET N3 == Normal(nz, s, [t \in DOMAIN s |-> t])
            IN \A i, j \in 1..3 : N3.B[i][j] = N3.B[j][i]
=============================================================================
