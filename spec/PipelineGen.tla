------------------------------ MODULE PipelineGen ------------------------------
EXTENDS Pipeline, TLC, Json, Randomization
CONSTANTS Depth
VARIABLES hist, calm
RE(S, h) == {RandomElement(S)}
\* small vocabulary for the exhaustive check
Tiny == UNION {
    [op : {"sum"}, v : {"a", "b"}, how : {"compiled"}, force : BOOLEAN], [op : {"flux"}, q : {"25"}, force : {FALSE}],
    [op : {"noise", "white"}, m : {"1"}, force : BOOLEAN], [op : {"avg"}, max : {"15"}, sub : {TRUE}, force : BOOLEAN], [op : {"avgm"}, mask : {"one"}, sub : {TRUE}, force : {FALSE}],
    [op : {"f5"}, band : {"-"}, cuts : {"-"}, cat : {"-"}, force : BOOLEAN],
    [op : {"fa"}, max : {"40"}, shift : {TRUE}, opt : {TRUE}, tr : {FALSE}, cat : {"-"}, band : {"-"}, cuts : {"-"}, force : BOOLEAN],
    [op : {"fd"}, how : {"-"}, tr : BOOLEAN, force : BOOLEAN], [op : {"dc"}, attr : {"fv", "rms"}, cat : {"-"}, force : BOOLEAN],
    [op : {"phc"}, attr : {"dc"}, cat : {"-"}, how : {"2017"}, pk : {"3"}, force : BOOLEAN], [op : {"tdc"}, attr : {"phc"}, cat : {"-"}, arg : {"-"}, force : BOOLEAN],
    [op : {"cal", "conv"}, attr : {"phc", "dc"}, name : {"phc"}, cat : {"-"}, arg : {"-"}, force : BOOLEAN], [op : {"cut"}, g : {"all", "none"}, force : {FALSE}], [op : {"reopen"}, force : {FALSE}] }
InitS == ch = Fresh /\ hist = <<>> /\ calm = TRUE
NextS == \E s \in Tiny : ~Undefined(ch, s) /\ ch' = Do(ch, s) /\ hist' = <<s>> /\ calm' = (calm /\ ~s.force /\ s.op \notin {"flux", "cut"} /\ (s.op = "sum" => ch = Fresh \/ Skips(ch, s)))
Last == hist'[1]
Bound == TLCGet("level") <= Depth
SkipLeaves == [][(~Last.force /\ Done(ch, Last)) => ch' = ch]_<<ch, hist>>
Frame == [][\A f \in DOMAIN ch : f \in Writes(Last) \/ ch'[f] = ch[f]]_<<ch, hist>>
Computes == [][(Last.force /\ ~Refused(ch, Last)) => Done(ch', Last) \/ Last.op \in {"flux", "cut", "reopen", "conv"}]_<<ch, hist>>
\* an analysis that begins with the summary and never forces, cuts or corrects again is consistent
CalmAgrees == calm => Agrees(ch)
\* once done, a step without force is refused nothing and changes nothing
Idempotent == \A s \in Tiny : (~s.force /\ Done(ch, s)) => Do(ch, s) = ch
Repeatable == \A s \in Tiny : (~Undefined(ch, s) /\ s.op \notin {"flux", "dc", "phc"}) => LET c == Do(ch, s) IN Do(c, s) = c

W(q) == q[RandomElement(1..Len(q))]
F(h) == W(<<TRUE, FALSE, FALSE>>)
Cat(h) == W(<<"-", "-", "x">>)
A1(h, pref) == IF RandomElement(1..10) <= 7 THEN pref ELSE RandomElement(Attrs)
Op(o, h) ==
    CASE o = "sum" -> [op |-> o, v |-> W(<<"a", "a", "b", "c">>), how |-> W(<<"compiled", "compiled", "python">>), force |-> F(h)]
      [] o = "flux" -> [op |-> o, q |-> W(<<"25", "40">>), force |-> FALSE]
      [] o = "noise" -> [op |-> o, m |-> W(<<"40", "1000">>), force |-> F(h)]
      [] o = "white" -> [op |-> o, m |-> W(<<"1", "9">>), force |-> F(h)]
      [] o = "avg" -> [op |-> o, max |-> W(<<"7000", "15">>), sub |-> W(<<TRUE, TRUE, FALSE>>), force |-> F(h)]
      [] o = "avgm" -> [op |-> o, mask |-> W(<<"one", "two">>), sub |-> W(<<TRUE, TRUE, FALSE>>), force |-> F(h)]
      [] o = "f5" -> [op |-> o, band |-> W(<<"-", "-", "fmax", "f3db">>), cuts |-> W(<<"-", "-", "cut">>), cat |-> IF RandomElement(1..12) = 1 THEN "x" ELSE "-", force |-> F(h)]
      [] o = "fa" -> [op |-> o, max |-> W(<<"4000", "40">>), shift |-> RandomElement(BOOLEAN), opt |-> W(<<TRUE, FALSE>>), tr |-> W(<<TRUE, FALSE, FALSE>>), cat |-> Cat(h),
                      band |-> W(<<"-", "-", "fmax", "f3db">>), cuts |-> W(<<"-", "-", "cut">>), force |-> F(h)]
      [] o = "fd" -> [op |-> o, how |-> W(<<"-", "-", "compiled", "python">>), tr |-> W(<<TRUE, FALSE, FALSE>>), force |-> F(h)]
      [] o = "dc" -> [op |-> o, attr |-> A1(h, "fv"), cat |-> Cat(h), force |-> F(h)]
      [] o = "phc" -> [op |-> o, attr |-> A1(h, "dc"), cat |-> Cat(h), how |-> W(<<"2017", "2017", "2015">>), pk |-> W(<<"3", "3", "2">>), force |-> F(h)]
      [] o = "tdc" -> [op |-> o, attr |-> A1(h, "phc"), cat |-> Cat(h), arg |-> W(<<"-", "fine", "two">>), force |-> F(h)]
      [] o \in {"cal", "conv"} -> LET a == A1(h, "phc") IN [op |-> o, attr |-> a, name |-> a \o W(<<"", "", "+">>), cat |-> Cat(h), arg |-> W(<<"-", "log">>), force |-> F(h)]
      [] o = "cut" -> [op |-> o, g |-> W(<<"all", "all", "most", "most", "few", "none">>), force |-> FALSE]
      [] OTHER -> [op |-> "reopen", force |-> FALSE]
Ops == <<"sum", "flux", "noise", "white", "avg", "avgm", "f5", "fa", "fd", "fd", "dc", "phc", "tdc", "cal", "conv", "cut", "reopen", "reopen", "reopen">>
\* the usual order, and anything
Chain(c) == IF ~Has(c.sum) THEN "sum" ELSE IF ~Has(c.noise) THEN "noise" ELSE IF c.good \notin Plenty THEN "cut" ELSE IF ~Has(c.avg) THEN "avg" ELSE IF ~Has(c.filt) THEN W(<<"f5", "fa">>)
            ELSE IF ~Has(c.fv) THEN "fd" ELSE IF ~Has(c.dc) THEN "dc" ELSE IF ~Has(c.phc) THEN "phc" ELSE IF ~Has(c.tdc) THEN "tdc" ELSE IF DOMAIN c.cal = {} THEN "cal" ELSE Ops[RandomElement(1..Len(Ops))]
Pick(c, h) == IF RandomElement(1..100) <= 45 THEN Chain(c) ELSE Ops[RandomElement(1..Len(Ops))]
InitG == ch = Fresh /\ hist = <<>> /\ calm = TRUE
NextG == IF hist = <<>> THEN \E n \in RE({7, 50, 1000}, hist) : hist' = <<[act |-> "setup", per |-> n]>> /\ UNCHANGED <<ch, calm>>
         ELSE TRUE /\ \E o \in {Pick(ch, hist)} : \E s \in {Op(o, hist)} :
            IF Undefined(ch, s) THEN UNCHANGED <<ch, calm, hist>>
            ELSE /\ ch' = Do(ch, s) /\ UNCHANGED calm
                 /\ hist' = Append(hist, s @@ [act |-> s.op, out |-> IF Refused(ch, s) THEN "refuse" ELSE IF Skips(ch, s) THEN "skip" ELSE "do", obs |-> ch'])
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
