------------------------------ MODULE FiltersGen ------------------------------
EXTENDS Filters, Json, Randomization
CONSTANTS Depth, Slots
VARIABLES mk, hist
RE(S, x) == {RandomElement(S)}
None == [n |-> 0]
InitG == s = <<>> /\ nz = 0 /\ mk = [k \in Slots |-> None] /\ hist = <<>>
Log(a) == UNCHANGED vars /\ hist' = Append(hist, a)
Query(a) == mk' = mk /\ Log(a)
\* moving averages with roots on the unit circle, whose determinants stay small
Autos == <<<<1>>, <<2, 1>>, <<2, -1>>, <<2, 0, 1>>, <<2, 0, -1>>, <<3, 2, 1>>, <<3, -2, 1>>, <<4, 3, 2, 1>>, <<6, 4, 1>>, <<6, -4, 1>>>>
Whiteners == <<<<<<1>>, <<1>>>>, <<<<1>>, <<1, -1>>>>, <<<<1, 1>>, <<1>>>>, <<<<-1, 1>>, <<1, 1>>>>, <<<<1, 0, 1>>, <<1, -1>>>>, <<<<1>>, <<-1, 0, 1>>>>>>
Circs == <<<<1, 0, 0, 0, 0>>, <<3, 1, 0, 0, 0>>, <<3, -1, 0, 0, 0>>, <<3, 0, 1, 0, 0>>, <<3, 0, -1, 0, 0>>>>
Noise(n, q, r) == CASE q < 6 -> [kind |-> "auto", r |-> Autos[1 + (r % (IF n > 9 THEN 8 ELSE 10))]]
                 [] q < 8 -> LET w == Whiteners[1 + (r % Len(Whiteners))] IN [kind |-> "whitener", theta |-> w[1], phi |-> w[2]]
                 [] OTHER -> [kind |-> "periodic", r |-> Circs[1 + (r % Len(Circs))]]
\* a pulse: quiet before the trigger (but for one sample), at least one larger sample after it
Pulse(n, npre, q) == [t \in 1..n |-> IF t <= npre THEN (IF t = q THEN 1 ELSE 0) ELSE IF t = npre + 1 + (q % 2) THEN 4 + (q % 3) ELSE RandomElement(0..4)]
GMake == \E k \in RE(Slots, hist), n \in RE({8, 9, 10, 10, 11, 12}, hist), npre \in RE(3..5, hist), q \in RE(0..9, hist), r \in RE(0..99, hist), z \in RE(0..7, hist), given \in RE({0, 0, 7}, hist) :
    \E sig \in {Pulse(n, npre, z)}, d \in {[t \in 1..n |-> IF t < npre THEN 0 ELSE RandomElement(-2..2)]}, noise \in {Noise(n, q, r)} :
        LET m == [n |-> n, npre |-> npre, s |-> sig, d |-> d, noise |-> noise, peak |-> given]
        IN mk' = [mk EXCEPT ![k] = m] /\ Log([act |-> "make", k |-> k, m |-> m])
\* cuts leave the largest sample, and at least two quiet ones
CutOf(m, c, e) == LET pre == IF m.npre - 1 - c >= 2 THEN c ELSE 0  a == Shape(m.s, m.npre, pre)
                      post == IF \E t \in 1..m.n - e : a[t] = Max2(a) THEN e ELSE 0 IN <<pre, post>>
Peak(m, pre, post) == LET x == Raised(m.s, m.npre, pre) IN [num |-> Max2(Cut(x, pre, post)), whole |-> Max2(x), den |-> m.npre - 1 - pre]
\* limits of the band, in steps of the filter's frequencies
G5 == \E k \in RE(Slots, hist), c \in RE({0, 0, 1, 2}, hist), e \in RE({0, 0, 1, 2}, hist), h \in RE({0, 0, 0, 2, 3}, hist), f3 \in RE({0, 0, 0, 1, 2, 3}, hist) :
    LET m == mk[k] IN IF m.n = 0 THEN Query([act |-> "idle"])
    ELSE IF m.noise.kind = "periodic" THEN
         LET a == Shape(m.s, m.npre, 0)  b == Cut(a, 2, 2)  u5 == Oriented(Insensitive(m.noise, b), b)
         IN IF m.n % 2 = 1 THEN Query([act |-> "idle"])
            ELSE Query([act |-> "fourier", k |-> k, a |-> a, u |-> u5, five |-> Five(u5, a), peak |-> Peak(m, 0, 0), h |-> h, f3 |-> f3, gains |-> Gains(Len(u5), h, f3), cut |-> <<0, 0>>])
    ELSE LET ce == CutOf(m, c, e) IN \E a \in {Cut(Shape(m.s, m.npre, ce[1]), ce[1], ce[2])} : 
         IF Len(a) < 6 THEN Query([act |-> "idle"]) ELSE
         \E u5 \in {Lag5(m.noise, a)} : IF \A t \in DOMAIN u5 : u5[t] = 0 THEN Query([act |-> "idle"])
         ELSE Query([act |-> "5lag", k |-> k, a |-> a, u |-> u5, five |-> Five(u5, a), peak |-> Peak(m, ce[1], ce[2]), h |-> h, f3 |-> f3, gains |-> Gains(Len(u5), h, f3), cut |-> ce])
GAts == \E k \in RE(Slots, hist), c \in RE({0, 0, 1, 2}, hist), e \in RE({0, 0, 1, 2}, hist), h \in RE({0, 0, 0, 2, 3}, hist), f3 \in RE({0, 0, 0, 1, 2, 3}, hist) :
    LET m == mk[k] IN IF m.n = 0 \/ (m.n > 0 /\ m.noise.kind = "periodic") THEN Query([act |-> "idle"])
    ELSE LET ce == CutOf(m, c, e) IN \E a \in {Cut(Shape(m.s, m.npre, ce[1]), ce[1], ce[2])}, d \in {Cut(m.d, ce[1], ce[2])} :
         \E N3 \in {Normal(m.noise, Reduced(a), d)} :
            Query([act |-> "ats", k |-> k, a |-> a, g |-> GcdAll(a), d |-> d, normal |-> N3, peak |-> Peak(m, ce[1], ce[2]), h |-> h, f3 |-> f3, gains |-> Gains(Len(a), h, f3), cut |-> ce])
GRefuse == \E k \in RE(Slots, hist), w \in RE({"fourier", "fcut", "ats", "negative", "all", "time"}, hist) : IF mk[k].n = 0 THEN Query([act |-> "idle"]) ELSE Query([act |-> "refuse", k |-> k, what |-> w])
GToep == \E n \in RE({1, 2, 3, 4, 5, 7}, hist), sym \in RE(BOOLEAN, hist), cols \in RE({0, 0, 1, 3}, hist) :
    \E T \in {[t \in 1..(IF sym THEN n ELSE 2 * n - 1) |-> IF (sym /\ t = 1) \/ (~sym /\ t = n) THEN RandomElement({-3, 1, 2, 4, 5}) ELSE RandomElement(IF n > 4 THEN {-1, 0, 0, 1} ELSE -2..2)]} :
    \E M \in {IF sym THEN Toep(T, n) ELSE ToepA(T, n)} :
    IF ~RegularTo(M, n) THEN Query([act |-> "idle"])
    ELSE \E xs \in {[c \in 1..(IF cols = 0 \/ ~sym THEN 1 ELSE cols) |-> [t \in 1..n |-> RandomElement(-9..9)]]} :
         Query([act |-> "toep", sym |-> sym, T |-> T, x |-> xs, y |-> [c \in DOMAIN xs |-> Times(M, xs[c])], flat |-> cols = 0 \/ ~sym])
GWhite == \E n \in RE(1..7, hist), p \in RE(0..3, hist), q \in RE(0..3, hist), cols \in RE({0, 0, 1, 3}, hist), c1 \in RE({1, 1, -1}, hist), c2 \in RE({1, 1, -1}, hist) :
    \E th \in {[t \in 1..q + 1 |-> IF t = 1 THEN c1 ELSE RandomElement(-1..1)]}, ph \in {[t \in 1..p + 1 |-> IF t = 1 THEN c2 ELSE RandomElement(-1..1)]},
       vs \in {[c \in 1..(IF cols = 0 THEN 1 ELSE cols) |-> [t \in 1..n |-> RandomElement(-5..5)]]} :
    Query([act |-> "whiten", theta |-> th, phi |-> ph, v |-> vs, flat |-> cols = 0, w |-> [c \in DOMAIN vs |-> Whiten(th, ph, vs[c])], sw |-> [c \in DOMAIN vs |-> SolveW(th, ph, vs[c])],
            wt |-> [c \in DOMAIN vs |-> ApplyWT(th, ph, vs[c])], swt |-> [c \in DOMAIN vs |-> SolveWT(th, ph, vs[c])]])
GBand == \E n \in RE(2..12, hist), h \in RE({0, 0, 1, 2, 3}, hist), f3 \in RE({0, 1, 2, 3}, hist), cols \in RE({0, 0, 1, 3}, hist) :
    \E vs \in {[c \in 1..(IF cols = 0 THEN 1 ELSE cols) |-> [t \in 1..n |-> RandomElement(-5..5)]]} : Query([act |-> "band", v |-> vs, flat |-> cols = 0, h |-> h, f3 |-> f3, gains |-> Gains(n, h, f3)])
NextG == IF \A k \in Slots : mk[k].n = 0 THEN GMake
         ELSE TRUE /\ (GMake \/ G5 \/ (\E j \in {1} : G5) \/ GAts \/ (\E j \in {1} : GAts) \/ GRefuse \/ GToep \/ GWhite \/ GBand)
Sane == TRUE
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
