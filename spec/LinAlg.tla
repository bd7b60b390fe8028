-------------------------------- MODULE LinAlg --------------------------------
(* Exact linear algebra over the integers for small systems: Cramer's rule with fraction-free elimination.                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
LSum(S, v(_)) == MapThenSumSet(v, S)
LDot(x, y) == LSum(DOMAIN x, LAMBDA t : x[t] * y[t])
LAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE LGcd(_, _)
LGcd(a, b) == IF b = 0 THEN LAbs(a) ELSE LGcd(b, a % LAbs(b))
LDiv(a, b) == LET q == LAbs(a) \div LAbs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
LUpto(n) == [i \in 1..n |-> i]
LTimes(M, x) == TLCEval([i \in DOMAIN M |-> LDot(M[i], x)])
LSwap(M, i, j) == [k \in DOMAIN M |-> IF k = i THEN M[j] ELSE IF k = j THEN M[i] ELSE M[k]]
\* one step: state <<matrix, previous pivot, sign>>; a column of zeros makes it singular (sign 0)
LStep(st, k) == IF st[3] = 0 THEN st ELSE
    LET rows == {i \in k..Len(st[1]) : st[1][i][k] # 0}
    IN IF rows = {} THEN <<st[1], 1, 0>>
       ELSE LET p == Min(rows)  M == TLCEval(IF p = k THEN st[1] ELSE LSwap(st[1], p, k))
            IN <<TLCEval([i \in DOMAIN M |-> IF i <= k THEN M[i] ELSE [j \in DOMAIN M |-> IF j <= k THEN 0 ELSE LDiv(M[k][k] * M[i][j] - M[i][k] * M[k][j], st[2])]]),
                 M[k][k], IF p = k THEN st[3] ELSE -st[3]>>
LDet(M) == IF Len(M) = 0 THEN 1 ELSE LET st == FoldLeft(LStep, <<M, 1, 1>>, LUpto(Len(M) - 1)) IN st[3] * st[1][Len(M)][Len(M)]
\* x with M x = det b
LSolve(M, b) == [det |-> LDet(M), x |-> TLCEval([j \in DOMAIN M |-> LDet(TLCEval([i \in DOMAIN M |-> [k \in DOMAIN M |-> IF k = j THEN b[i] ELSE M[i][k]]]))])]
=============================================================================
