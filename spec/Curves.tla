-------------------------------- MODULE Curves --------------------------------
(* I01: splines and functions.  A spline has knots x (integers, steps 1 to 3), values there, and second derivatives there, given
   over a common determinant.  A smoothing spline minimises the weighted squares of its deviations plus lambda times its
   curvature (Reinsch's equations).  Functions are expressions, whose derivatives are expressions.                             *)
EXTENDS LinAlg
Steps(xs) == [i \in 1..Len(xs) - 1 |-> xs[i + 1] - xs[i]]
Rise(ys) == [i \in 1..Len(ys) - 1 |-> ys[i + 1] - ys[i]]
\* ---- interpolation.  ends: <<first slope given?, slope, last slope given?, slope>>
Matrix(h, n, e) == TLCEval([i \in 1..n |-> [j \in 1..n |->
    IF i = 1 THEN (IF e[1] THEN CASE j = 1 -> 2 * h[1] [] j = 2 -> h[1] [] OTHER -> 0 ELSE IF j = 1 THEN 1 ELSE 0)
    ELSE IF i = n THEN (IF e[3] THEN CASE j = n -> 2 * h[n - 1] [] j = n - 1 -> h[n - 1] [] OTHER -> 0 ELSE IF j = n THEN 1 ELSE 0)
    ELSE CASE j = i - 1 -> h[i - 1] [] j = i -> 2 * (h[i - 1] + h[i]) [] j = i + 1 -> h[i] [] OTHER -> 0]])
\* six times the slope of a step (steps divide 6)
Slope6(h, d, i) == (6 \div h[i]) * d[i]
Rhs(h, d, n, e) == TLCEval([i \in 1..n |-> IF i = 1 THEN (IF e[1] THEN Slope6(h, d, 1) - 6 * e[2] ELSE 0)
                                           ELSE IF i = n THEN (IF e[3] THEN 6 * e[4] - Slope6(h, d, n - 1) ELSE 0)
                                           ELSE Slope6(h, d, i) - Slope6(h, d, i - 1)])
Spline(xs, ys, e) == LET h == Steps(xs)  n == Len(xs) IN LSolve(Matrix(h, n, e), Rhs(h, Rise(ys), n, e))
Natural == <<FALSE, 0, FALSE, 0>>
\* six times the slopes at both ends, over det
FirstSlope(xs, ys, s) == LET h == Steps(xs) IN s.det * Slope6(h, Rise(ys), 1) - h[1] * (2 * s.x[1] + s.x[2])
LastSlope(xs, ys, s) == LET h == Steps(xs)  n == Len(xs) IN s.det * Slope6(h, Rise(ys), n - 1) + h[n - 1] * (s.x[n - 1] + 2 * s.x[n])
\* three times the curvature, over det^2
Bending(xs, s) == LET h == Steps(xs) IN LSum(DOMAIN h, LAMBDA i : h[i] * (s.x[i] * s.x[i] + s.x[i] * s.x[i + 1] + s.x[i + 1] * s.x[i + 1]))
\* ---- smoothing, steps 1 or 2, variances v, lambda = ln / ld; q2: twice the second differences
Q2(h, i, j) == CASE i = j -> 2 \div h[j] [] i = j + 1 -> -(2 \div h[j]) - (2 \div h[j + 1]) [] i = j + 2 -> 2 \div h[j + 1] [] OTHER -> 0
ReinschM(h, v, n, ln, ld) == TLCEval([j \in 1..n - 2 |-> [k \in 1..n - 2 |->
    ld * (CASE j = k -> 4 * (h[j] + h[j + 1]) [] LAbs(j - k) = 1 -> 2 * h[(IF j > k THEN j ELSE k)] [] OTHER -> 0)
    + 3 * ln * LSum(1..n, LAMBDA i : Q2(h, i, j) * v[i] * Q2(h, i, k))]])
Smooth(xs, ys, v, ln, ld) == LET h == Steps(xs)  n == Len(xs)
                                 s == LSolve(ReinschM(h, v, n, ln, ld), [j \in 1..n - 2 |-> 6 * LSum(1..n, LAMBDA i : Q2(h, i, j) * ys[i])])
                                 \* (second derivatives are ld x / det)
                             IN [det |-> s.det, m |-> [i \in 1..n |-> IF i \in {1, n} THEN 0 ELSE ld * s.x[i - 1]],
                                 g |-> TLCEval([i \in 1..n |-> 2 * s.det * ys[i] - ln * v[i] * LSum(1..n - 2, LAMBDA j : Q2(h, i, j) * s.x[j])])]
\* g over 2 det.  the part of its own value that each smoothed value takes: variance over v
Unit(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
Leverage(xs, v, ln, ld) == TLCEval([i \in DOMAIN xs |-> Smooth(xs, Unit(Len(xs), i), v, ln, ld).g[i]])
\* the weighted line: [det, a, b] for (a + b x) / det; weights w
LineFit(xs, ys, w) == LET T(f(_)) == LSum(DOMAIN xs, f)  s0 == T(LAMBDA i : w[i])  s1 == T(LAMBDA i : w[i] * xs[i])  s2 == T(LAMBDA i : w[i] * xs[i] * xs[i])
                          t0 == T(LAMBDA i : w[i] * ys[i])  t1 == T(LAMBDA i : w[i] * xs[i] * ys[i])
                      IN [det |-> s0 * s2 - s1 * s1, a |-> s2 * t0 - s1 * t1, b |-> s0 * t1 - s1 * t0]
\* ---- expressions
Num(v) == <<"c", v>>
X == <<"p", 1>>
RECURSIVE D(_)
D(t) == CASE t[1] = "c" -> Num(0)
          [] t[1] = "p" -> <<"*", Num(t[2]), <<"p", t[2] - 1>>>>
          \* powers and constants in halves
          [] t[1] = "h" -> <<"*", <<"hc", t[2]>>, <<"h", t[2] - 2>>>>
          [] t[1] = "hc" -> Num(0)
          [] t[1] = "exp" -> <<"exp">>
          [] t[1] = "log" -> <<"p", -1>>
          [] t[1] = "neg" -> <<"neg", D(t[2])>>
          [] t[1] = "+" -> <<"+", D(t[2]), D(t[3])>>
          [] t[1] = "-" -> <<"-", D(t[2]), D(t[3])>>
          [] t[1] = "*" -> <<"+", <<"*", D(t[2]), t[3]>>, <<"*", t[2], D(t[3])>>>>
          [] t[1] = "/" -> <<"/", <<"-", <<"*", D(t[2]), t[3]>>, <<"*", t[2], D(t[3])>>>>, <<"*", t[3], t[3]>>>>
          [] t[1] = "o" -> <<"*", <<"o", D(t[2]), t[3]>>, D(t[3])>>
\* values modulo a prime, and with an infinitesimal: <<value, derivative>>, or <<>> where it is not defined
P == 97
Inverses == TLCEval([b \in 1..P - 1 |-> CHOOSE c \in 1..P - 1 : (b * c) % P = 1])
InvP(b) == Inverses[b]
DMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<(a[1] * b[1]) % P, (a[1] * b[2] + a[2] * b[1]) % P>>
DInv(a) == IF a = <<>> THEN <<>> ELSE IF a[1] = 0 THEN <<>> ELSE <<InvP(a[1]), (P - ((a[2] * InvP((a[1] * a[1]) % P)) % P)) % P>>
RECURSIVE DPow(_, _)
DPow(a, n) == IF a = <<>> THEN <<>> ELSE IF n < 0 THEN DPow(TLCEval(DInv(a)), -n) ELSE IF n = 0 THEN <<1, 0>> ELSE DMul(a, TLCEval(DPow(a, n - 1)))
DAdd(a, b, k) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<(a[1] + k * b[1] + P) % P, (a[2] + k * b[2] + P) % P>>
RECURSIVE Dual(_, _)
Dual(t, x) == CASE t[1] = "c" -> IF x = <<>> THEN <<>> ELSE <<(t[2] + P) % P, 0>>
                [] t[1] = "p" -> DPow(x, t[2])
                [] t[1] = "neg" -> DAdd(<<0, 0>>, Dual(t[2], x), -1)
                [] t[1] = "+" -> DAdd(TLCEval(Dual(t[2], x)), TLCEval(Dual(t[3], x)), 1)
                [] t[1] = "-" -> DAdd(TLCEval(Dual(t[2], x)), TLCEval(Dual(t[3], x)), -1)
                [] t[1] = "*" -> DMul(TLCEval(Dual(t[2], x)), TLCEval(Dual(t[3], x)))
                [] t[1] = "/" -> DMul(TLCEval(Dual(t[2], x)), TLCEval(DInv(TLCEval(Dual(t[3], x)))))
                [] t[1] = "o" -> LET y == TLCEval(Dual(t[3], x)) IN IF y = <<>> THEN <<>> ELSE Dual(t[2], y)
\* =============== exhaustive checking
CONSTANTS Vals, N, MaxStep, Trees
VARIABLES xs, ys, tree
vars == <<xs, ys, tree>>
Leaves == {Num(2), Num(-1), X, <<"p", 2>>, <<"p", -1>>, <<"p", 3>>}
Ops == {"+", "-", "*", "/", "o"}
Small == Leaves \cup {<<"neg", a>> : a \in Leaves} \cup {<<o, a, b>> : o \in Ops, a \in Leaves, b \in Leaves}
Init == /\ ys \in [1..N -> (IF Trees THEN {0} ELSE Vals)] /\ tree = X
        /\ xs \in {[i \in 1..N |-> 1 + LSum(1..i - 1, LAMBDA k : h[k])] : h \in [1..N - 1 -> 1..MaxStep]}
Next == \/ tree = X /\ ~Trees /\ \E i \in 1..N : \E v \in Vals : ys' = [ys EXCEPT ![i] = v] /\ UNCHANGED <<xs, tree>>
        \/ tree = X /\ Trees /\ tree' \in {<<o, a, b>> : o \in Ops, a \in Leaves \cup {<<"o", <<"p", 2>>, <<"+", X, Num(2)>>>>, <<"/", X, <<"p", 3>>>>}, b \in Small} /\ UNCHANGED <<xs, ys>>
NS == Spline(xs, ys, Natural)
Lines == Trees \/ \A a, b \in -1..2 : LET l == [i \in 1..N |-> a + b * xs[i]] IN \A i \in 1..N : Spline(xs, l, Natural).x[i] = 0
Cubics == Trees \/ \A a, b, c \in {-1, 0, 1} : LET f(x) == a * x * x * x + b * x * x + c * x  g(x) == 3 * a * x * x + 2 * b * x + c
                                        s == Spline(xs, [i \in 1..N |-> f(xs[i])], <<TRUE, g(xs[1]), TRUE, g(xs[N])>>)
                                    IN \A i \in 1..N : s.x[i] = s.det * (6 * a * xs[i] + 2 * b)
\* a natural spline is what one with its end slopes is, and bends the least
Bends == Trees \/ LET a == FirstSlope(xs, ys, NS)  b == LastSlope(xs, ys, NS) IN
         /\ NS.x[1] = 0 /\ NS.x[N] = 0
         /\ (a % (6 * NS.det) = 0 /\ b % (6 * NS.det) = 0) => LET t == Spline(xs, ys, <<TRUE, LDiv(a, 6 * NS.det), TRUE, LDiv(b, 6 * NS.det)>>) IN \A i \in 1..N : t.x[i] * NS.det = NS.x[i] * t.det
         /\ N <= 3 => \A p, q \in -2..2 : LET t == Spline(xs, ys, <<TRUE, p, TRUE, q>>) IN Bending(xs, t) * NS.det * NS.det >= Bending(xs, NS) * t.det * t.det
Mirrored == Trees \/ LET m == Spline([i \in 1..N |-> -xs[N + 1 - i]], Reverse(ys), Natural) IN m.det = NS.det /\ m.x = Reverse(NS.x)
V1 == [i \in 1..N |-> 1 + 3 * (i % 2)]
\* smoothing: stationary (deviations are orthogonal to lines, and balanced by curvature), lines stay, lambda 0 interpolates
Smoothing == Trees \/ ((MaxStep <= 2 /\ N <= 4) => LET s == Smooth(xs, ys, V1, 1, 2) IN
    /\ LSum(1..N, LAMBDA i : (2 * s.det * ys[i] - s.g[i]) * (4 \div V1[i])) = 0
    /\ LSum(1..N, LAMBDA i : (2 * s.det * ys[i] - s.g[i]) * (4 \div V1[i]) * xs[i]) = 0
    \* second derivatives are those of the natural spline through the smoothed values
    /\ LET h == Steps(xs)  d == Rise(s.g) IN \A i \in 2..N - 1 : Slope6(h, d, i) - Slope6(h, d, i - 1) = 2 * (h[i - 1] * s.m[i - 1] + 2 * (h[i - 1] + h[i]) * s.m[i] + h[i] * s.m[i + 1])
    /\ Smooth(xs, ys, V1, 0, 1).g = [i \in 1..N |-> 2 * Smooth(xs, ys, V1, 0, 1).det * ys[i]]
    /\ LET l == Smooth(xs, [i \in 1..N |-> 3 - 2 * xs[i]], V1, 2, 1) IN l.g = [i \in 1..N |-> 2 * l.det * (3 - 2 * xs[i])])
Derivatives == \A x \in {0, 1, 2, 5, 40, 96} : LET a == TLCEval(Dual(tree, <<x, 1>>)) IN a # <<>> => LET b == TLCEval(Dual(TLCEval(D(tree)), <<x, 1>>)) IN b # <<>> => b[1] = a[2]
=============================================================================
