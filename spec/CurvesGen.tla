------------------------------ MODULE CurvesGen ------------------------------
EXTENDS Curves, Json, Randomization
CONSTANTS Depth
VARIABLES hist
RE(S, x) == {RandomElement(S)}
InitG == xs = <<>> /\ ys = <<>> /\ tree = X /\ hist = <<>>
Query(a) == UNCHANGED vars /\ hist' = Append(hist, a)
\* (few values for many knots: the determinants must stay small)
Heights(n) == IF n = 5 THEN -1..1 ELSE -5..5
Ran(n, S) == {[i \in 1..n |-> RandomElement(S)]}
Knots(x0, h, n) == [i \in 1..n |-> x0 + LSum(1..i - 1, LAMBDA k : h[k])]
Info(x, y, e) == LET s == Spline(x, y, e) IN [x |-> x, y |-> y, ends |-> <<e[1], e[2], e[3], e[4]>>, det |-> s.det, m |-> s.x, first |-> FirstSlope(x, y, s), last |-> LastSlope(x, y, s)]
GSpline == \E n \in RE({2, 3, 3, 4, 5}, hist), x0 \in RE(-6..6, hist), a \in RE(BOOLEAN, hist), b \in RE(BOOLEAN, hist), p \in RE(-3..3, hist), q \in RE(-3..3, hist) :
    \E h \in Ran(n, 1..3), y \in Ran(n, Heights(n)) : \E e \in {<<a, IF a THEN p ELSE 0, b, IF b THEN q ELSE 0>>} :
    Query([act |-> "spline", s |-> Info(Knots(x0, h, n), y, e)])
GBlend == \E n \in RE({2, 3, 4, 5}, hist), x0 \in RE(-6..6, hist), a \in RE(BOOLEAN, hist), p \in RE(-3..3, hist) :
    \E h \in Ran(n, 1..3), y \in Ran(n, Heights(n)), z \in Ran(n, Heights(n)) : \E x \in {Knots(x0, h, n)} :
    Query([act |-> "blend", s |-> Info(x, y, <<a, IF a THEN p ELSE 0, FALSE, 0>>), t |-> Info(x, z, Natural)])
GBasis == \E n \in RE(3..5, hist), x0 \in RE(-6..6, hist) : \E h \in Ran(n, 1..3), y \in Ran(n, Heights(n)) : Query([act |-> "basis", s |-> Info(Knots(x0, h, n), y, Natural)])
\* values are given, or those of a parabola, whose slopes then turn errors in x into errors in y
GSmooth == \E n \in RE({3, 4, 4, 5}, hist), x0 \in RE(1..5, hist), r \in RE(0..5, hist), quad \in RE({0, 0, 1}, hist), c \in RE(-1..2, hist), b \in RE(-2..2, hist) :
    \E h \in Ran(n, 1..2), yr \in Ran(n, -3..6), er \in Ran(n, 1..2), dr \in Ran(n, 0..1) :
    \E x \in {Knots(x0, h, n)} :
    \E lam \in {IF n = 5 \/ quad = 1 THEN <<1, 1 + (r % 2)>> ELSE <<<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<4, 1>>, <<1, 3>>>>[r + 1]},
       y \in {IF quad = 1 THEN [i \in 1..n |-> c * (x[i] - x0) * (x[i] - x0 - 2) + b * (x[i] - x0) + 2] ELSE IF n = 5 THEN [i \in 1..n |-> yr[i] % 4] ELSE yr},
       dy \in {IF n = 5 THEN [i \in 1..n |-> 1] ELSE er}, dx \in {IF quad = 1 /\ n < 5 THEN dr ELSE [i \in 1..n |-> 0]} :
    \E v \in {[i \in 1..n |-> LET sl == c * (2 * (x[i] - x0) - 2) + b IN dy[i] * dy[i] + dx[i] * sl * sl]} :
    \E s \in {Smooth(x, y, v, lam[1], lam[2])} :
    Query([act |-> "smooth", x |-> x, y |-> y, dy |-> dy, dx |-> dx, v |-> v, lam |-> lam, det |-> s.det, m |-> s.m, g |-> s.g, lev |-> Leverage(x, v, lam[1], lam[2]),
           line |-> IF \A i \in 1..n : dx[i] = 0 THEN LineFit(x, y, [i \in 1..n |-> 4 \div v[i]]) ELSE [det |-> 0, a |-> 0, b |-> 0]])
\* node i of a tree from random digits: children 2 i and 2 i + 1
Leaf(c) == LET k == c % 20 IN CASE k < 4 -> X [] k < 9 -> Num((c \div 20) - 2) [] k < 14 -> <<"p", (c \div 20) - 2>> [] k = 14 -> <<"h", 1>> [] k = 15 -> <<"h", 3>> [] k = 16 -> <<"h", -1>> [] k < 19 -> <<"exp">> [] OTHER -> <<"log">>
RECURSIVE Build(_, _)
Build(r, i) == LET c == r[i]  k == c % 12 IN
    IF i >= 8 \/ (i > 1 /\ k = 0) THEN Leaf(r[i + 15])
    ELSE IF k = 1 THEN <<"neg", TLCEval(Build(r, 2 * i))>>
    ELSE <<(CASE k < 4 -> "+" [] k < 6 -> "-" [] k < 8 -> "*" [] k < 9 -> "/" [] OTHER -> "o"), TLCEval(Build(r, 2 * i)), TLCEval(Build(r, 2 * i + 1))>>
GFun == \E r \in Ran(30, 0..119), deep \in RE({1, 1, 2, 4}, hist) : \E t \in {Build(r, deep)} : \E d \in {D(t)} : Query([act |-> "fun", t |-> t, d |-> <<d, D(d)>>])
NextG == TRUE /\ (GSpline \/ GBlend \/ GBasis \/ GSmooth \/ (\E j \in {1} : GSmooth) \/ GFun \/ (\E j \in {1} : GFun) \/ (\E j \in {1, 2} : GFun))
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
