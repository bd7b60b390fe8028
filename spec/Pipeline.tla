------------------------------- MODULE Pipeline -------------------------------
(* One channel's analysis.  Every stored result is either absent (the empty sequence) or a term that records what it
   was computed from: the inputs as they were at that moment, and the arguments.  A step computes when its result is
   absent or recomputation is requested; otherwise nothing changes.  Reopening changes nothing.                      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE ch
Absent == <<>>
Attrs == {"fv", "dc", "phc", "rms"}
Fresh == [good |-> "all", sum |-> <<>>, ptm |-> <<>>, noise |-> <<>>, avg |-> <<>>, filt |-> <<>>, fv |-> <<>>, dc |-> <<>>, phc |-> <<>>, tdc |-> <<>>,
          cal |-> [n \in {} |-> <<>>], en |-> <<>>]
Has(x) == x # Absent
\* a per-pulse quantity by name
Attr(c, a) == CASE a = "fv" -> c.fv [] a = "dc" -> c.dc [] a = "phc" -> c.phc [] OTHER -> IF Has(c.sum) THEN <<"R", c.sum>> ELSE Absent
\* the settings of the last summary stay in force for later steps
Setting(c) == IF Has(c.sum) THEN c.sum[2] ELSE "-"
\* how many pulses are good, roughly
Plenty == {"all", "most"}
Filtered(t) == t[1] = "FA" /\ t[8]          \* an arrival-time filter that shifts records

\* is the result of the step there already?
Done(c, s) == CASE s.op = "sum" -> Has(c.sum) [] s.op \in {"noise", "white"} -> Has(c.noise) [] s.op \in {"avg", "avgm"} -> Has(c.avg) [] s.op \in {"f5", "fa"} -> Has(c.filt)
    [] s.op = "fd" -> Has(c.fv) [] s.op = "dc" -> Has(c.dc) [] s.op = "phc" -> Has(c.phc) [] s.op = "tdc" -> Has(c.tdc) [] s.op = "cal" -> s.name \in DOMAIN c.cal [] OTHER -> FALSE
Skips(c, s) == Done(c, s) /\ ~s.force
\* inputs are lacking, and the step says so
\* (averaging asks for good pulses before it looks whether there is anything to do)
Refused(c, s) == IF s.op = "avg" THEN ~Has(c.sum) \/ c.good = "none" ELSE ~Skips(c, s) /\
    CASE s.op = "f5" -> ~Has(c.noise) \/ ~Has(c.avg) \/ s.cat # "-"
      [] s.op = "fa" -> ~Has(c.noise) \/ c.good \notin Plenty
      [] s.op = "fd" -> ~Has(c.filt) \/ (s.how = "compiled" /\ (c.filt[1] = "FA" \/ s.tr))
      [] s.op = "conv" -> s.name \notin DOMAIN c.cal
      [] OTHER -> FALSE
\* inputs are lacking, and nothing is promised
Undefined(c, s) == ~Skips(c, s) /\ ~Refused(c, s) /\
    CASE s.op = "flux" -> ~Has(c.sum) \/ c.good = "none"
      [] s.op = "fa" -> ~Has(c.sum)
      [] s.op = "fd" -> (s.tr \/ Filtered(c.filt)) /\ ~Has(c.sum)
      [] s.op = "dc" -> ~Has(Attr(c, s.attr)) \/ ~Has(c.sum) \/ c.good \notin Plenty
      [] s.op = "phc" -> ~Has(Attr(c, s.attr)) \/ ~Has(c.fv) \/ c.good \notin Plenty
      [] s.op \in {"tdc", "cal"} -> ~Has(Attr(c, s.attr)) \/ ~Has(c.sum) \/ c.good \notin Plenty
      [] s.op = "conv" -> ~Has(Attr(c, s.attr))
      [] OTHER -> FALSE
Computed(c, s) ==
    CASE s.op = "sum" -> [c EXCEPT !.sum = <<"S", s.v, s.how>>, !.ptm = <<"P", s.v, s.how>>]
      [] s.op = "flux" -> [c EXCEPT !.ptm = <<"J", c.ptm, c.good, s.q>>]
      [] s.op = "noise" -> [c EXCEPT !.noise = <<"N", s.m>>]
      [] s.op = "white" -> [c EXCEPT !.noise = <<"W", s.m>>]
      [] s.op = "avg" -> [c EXCEPT !.avg = <<"A", c.sum, c.good, s.max, s.sub>>]
      [] s.op = "avgm" -> [c EXCEPT !.avg = <<"M", Setting(c), s.mask, s.sub>>]
      [] s.op = "f5" -> [c EXCEPT !.filt = <<"F5", c.avg, c.noise, s.band, s.cuts, Setting(c)>>]
      [] s.op = "fa" -> [c EXCEPT !.filt = <<"FA", c.sum, c.ptm, c.noise, c.good, s.cat, s.max, s.shift, s.opt, s.tr, s.band, s.cuts>>]
      [] s.op = "fd" -> [c EXCEPT !.fv = <<"V", c.filt, s.how, s.tr, IF s.tr THEN c.ptm ELSE <<>>, IF Filtered(c.filt) THEN c.sum ELSE <<>> >>]
      [] s.op = "dc" -> [c EXCEPT !.dc = <<"D", Attr(c, s.attr), c.ptm, c.good, s.cat>>]
      [] s.op = "phc" -> [c EXCEPT !.phc = <<"C", c.fv, Attr(c, s.attr), c.good, s.cat, s.how, s.attr, s.pk>>]
      [] s.op = "tdc" -> [c EXCEPT !.tdc = <<"T", Attr(c, s.attr), c.good, s.cat, s.arg>>]
      [] s.op = "cal" -> LET k == <<"K", Attr(c, s.attr), c.good, s.cat, s.arg>> IN
                [c EXCEPT !.cal = [n \in DOMAIN c.cal \union {s.name} |-> IF n = s.name THEN k ELSE c.cal[n]], !.en = <<"E", k, Attr(c, s.attr)>>]
      [] s.op = "conv" -> [c EXCEPT !.en = <<"E", c.cal[s.name], Attr(c, s.attr)>>]
      [] s.op = "cut" -> [c EXCEPT !.good = s.g]
      [] OTHER -> c
Do(c, s) == IF Skips(c, s) \/ Refused(c, s) THEN c ELSE Computed(c, s)

\* what each step may touch
Writes(s) == CASE s.op = "sum" -> {"sum", "ptm"} [] s.op = "flux" -> {"ptm"} [] s.op \in {"noise", "white"} -> {"noise"} [] s.op \in {"avg", "avgm"} -> {"avg"}
    [] s.op \in {"f5", "fa"} -> {"filt"} [] s.op = "fd" -> {"fv"} [] s.op = "cal" -> {"cal", "en"} [] s.op = "conv" -> {"en"} [] s.op = "cut" -> {"good"} [] s.op = "reopen" -> {} [] OTHER -> {s.op}
\* every result agrees with the present state of all it was computed from
Agrees(c) == /\ Has(c.sum) => c.ptm = <<"P", c.sum[2], c.sum[3]>>
             /\ Has(c.avg) => IF c.avg[1] = "A" THEN c.avg[2] = c.sum /\ c.avg[3] = c.good ELSE c.avg[2] = Setting(c)
             /\ Has(c.filt) => IF c.filt[1] = "F5" THEN c.filt[2] = c.avg /\ c.filt[3] = c.noise ELSE c.filt[2] = c.sum /\ c.filt[4] = c.noise
             /\ Has(c.fv) => c.fv[2] = c.filt
             /\ Has(c.dc) => c.dc[2] \in {c.fv, c.phc, <<"R", c.sum>>}
             /\ Has(c.phc) => c.phc[2] = c.fv /\ c.phc[3] \in {c.fv, c.dc, <<"R", c.sum>>}
             /\ Has(c.tdc) => c.tdc[2] \in {c.fv, c.dc, c.phc, <<"R", c.sum>>}
=============================================================================
