---------------------------- MODULE RawFileGen ----------------------------
EXTENDS RawFile, TLC, Json, Randomization
CONSTANTS Depth, Focus, NSs, DMax, NPaths
VARIABLES hist
RE(S) == {RandomElement(S)}
MaxS == Max(NSs)
View(p) == IF p = 0 THEN [ex |-> FALSE] ELSE IF files'[p].ver = 0 THEN [ex |-> FALSE] ELSE
           [ex |-> TRUE, ver |-> files'[p].ver, meta |-> files'[p].meta, recs |-> Recs(files'[p]), tail |-> files'[p].tail]
Log(a) == hist' = Append(hist, a @@ [out |-> out', touched |-> touched', f |-> View(touched')])
\* d: the path an operation was asked to write, even if it refused
InitG == /\ files = [p \in 1..NPaths |-> None] /\ nd = 0 /\ touched = 0 /\ out = "ok"
         /\ cm \in (IF Focus = "convert" THEN {23} ELSE RE({65536, 65536, 40000, 23}))
         /\ hist = <<[act |-> "start", chans |-> [p \in 1..NPaths |-> Chan(p)],
                      data |-> [d \in 1..DMax |-> [x \in 1..3 |-> [z \in 1..MaxS |-> Sample(d, x - 1, z)]]]]>>
GCreate == \E p \in RE(Paths) : \E v \in RE(IF Focus = "copy" THEN {21, 22, 22, 22} ELSE {21, 22}), nS \in RE(NSs), rows \in RE({-1, 0, 1, 8, 30}), cols \in RE({-1, 1, 2}),
      client \in RE({"DASTARD version 0.2.4", "DASTARD 0.3", "MATTER", "XCALDAQ_client 1.0", "", "Ndfb"}), src \in RE({"", "Lancero", "Abaco", "Abaco ring 2", "Triangle"}),
      tb \in RE({9600, 1280, 63, 10000, 30, 5120}), ts \in RE({-1, 0, 1000000000, 1234}) :
      \E row \in RE(IF rows > 1 THEN {-1, 0, rows - 1, 3} ELSE {-1, 0}), col \in RE({-1, 0, 1}), sd \in RE({-1, -1, 1, 16, 64}), npre \in RE(0..(IF Focus = "convert" THEN nS + 1 ELSE nS)) :
      \E so \in RE(IF sd = -1 THEN {-1} ELSE {-1, 0, sd - 1}) :
      LET h == [ver |-> v, nS |-> nS, npre |-> npre, client |-> client, tb |-> tb, rows |-> rows, cols |-> cols, row |-> row, col |-> col, source |-> src, subdiv |-> sd, suboff |-> so, ts |-> ts]
      IN Create(p, h) /\ Log([act |-> "create", p |-> p, h |-> h])
Times(p, k, a0, da, b0, db) == [i \in 1..k |-> IF files[p].ver = 22 THEN <<a0 + i * da, b0 * 100000 + i * db>> ELSE <<(a0 + i * da) % 256, (b0 + i * (db % 4)) % 10>>]
GWrite == \E p \in RE({q \in Paths : Ex(q)}) : \E k \in RE(1..5), a0 \in RE(0..300000), b0 \in RE(0..9), da \in RE({0, 1, 7, 64, 977}), db \in RE({0, 1, 3, 37}) :
      \E ts \in {Times(p, k, a0, da, b0, db)} :
      nd + k <= DMax /\ Len(files[p].recs) < 60 /\ (IF files[p].ver = 22 THEN TRUE ELSE \A i \in 1..k : Untied(files[p].meta, Rec(0, ts[i][1], ts[i][2], 21)))
      /\ Write(p, ts) /\ Log([act |-> "write", p |-> p, ts |-> ts, first |-> nd + 1])
GTear == \E p \in RE({q \in Paths : Ex(q)}) : \E k \in RE(1..(RecSize(files[p].ver, files[p].meta.nS) - 1)) : Tear(p, k) /\ Log([act |-> "tear", p |-> p, k |-> k])
GErase == \E p \in RE({q \in Paths : Ex(q)}) : Erase(p) /\ Log([act |-> "erase", p |-> p])
RandSel(n) == IF n = 0 THEN {<<>>} ELSE UNION {RandomSubset(1, [1..m -> 1..n]) : m \in RE(0..5)}
All(n) == [i \in 1..n |-> i]
Bound(p) == Ex(p) => Len(files[p].recs)' < 60
GCopy == \E s \in RE({q \in Paths : Ex(q)}), d \in RE(Paths), ow \in RE(BOOLEAN), all \in RE(BOOLEAN) :
      \E sel \in (IF all THEN {All(Len(files[s].recs))} ELSE RandSel(Len(files[s].recs))) : Copy(s, d, sel, ow) /\ Log([act |-> "copy", s |-> s, d |-> d, sel |-> sel, ow |-> ow])
GAppend == \E s \in RE({q \in Paths : Ex(q)}), all \in RE(BOOLEAN), z \in RE(1..4) :
      \E d \in RE(LET c == {q \in Paths : Ex(q) /\ q # s /\ Compatible(files[q], files[s])} IN IF c # {} /\ z > 1 THEN c ELSE Paths) :
      \E sel \in (IF all THEN {All(Len(files[s].recs))} ELSE RandSel(Len(files[s].recs))) :
      (IF Ex(d) THEN Len(files[d].recs) + Len(sel) < 60 ELSE TRUE) /\ AppendTo(s, d, sel) /\ Log([act |-> "append", s |-> s, d |-> d, sel |-> sel, all |-> all])
GTrunc == \E s \in RE({q \in Paths : Ex(q)}), d \in RE(Paths) : \E n \in RE(0..(Len(files[s].recs) + 2)) : Trunc(s, d, n) /\ Log([act |-> "trunc", s |-> s, d |-> d, n |-> n, seg |-> RandomElement(0..4)])
GTruncT == \E s \in RE({q \in Paths : Ex(q)}), d \in RE(Paths), k \in RE({-1, 0, 0, 1}) : \E i \in RE(0..Len(files[s].recs)) :
      LET t == IF i = 0 THEN [big |-> 1, b |-> 5] ELSE IF files[s].ver = 21 THEN [big |-> 1, b |-> 5] ELSE [big |-> files[s].recs[i].big, b |-> files[s].recs[i].b + k]
      IN TruncTime(s, d, t) /\ Log([act |-> "trunctime", s |-> s, d |-> d, t |-> t])
GModify == \E s \in RE({q \in Paths : Ex(q)}), d \in RE(Paths), x \in RE(0..2), ow \in RE(BOOLEAN) : Modify(s, d, x, ow) /\ Log([act |-> "modify", s |-> s, d |-> d, x |-> x, ow |-> ow])
\* sets of files that can be merged, mostly
Mates(s, d) == {s} \cup {q \in Paths : Ex(q) /\ files[q].meta.nS = files[s].meta.nS /\ Chan(q) = Chan(d)}
GMerge == \E s \in RE({q \in Paths : Ex(q)}), d \in RE(Paths), f \in RE(BOOLEAN), z \in RE(1..5), m \in RE(1..4) :
      \E l0 \in RandomSubset(1, [1..m -> IF z = 1 THEN {q \in Paths : Ex(q)} ELSE Mates(s, d)]) :
      \E l \in {[l0 EXCEPT ![1] = s]} :
      FoldLeft(LAMBDA a, i : a + Len(files[l[i]].recs), 0, [i \in 1..m |-> i]) < 60 /\ Merge(l, d, f) /\ Log([act |-> "merge", l |-> l, d |-> d, force |-> f])
Reading == UNCHANGED vars
GRead == Reading /\ \E p \in RE({q \in Paths : Ex(q)}), inv \in RE(BOOLEAN), k \in RE(0..7), e \in RE(0..5), way \in RE(0..5) :
      LET R == RecSize(files[p].ver, files[p].meta.nS)
          seg == IF k = 0 THEN 16777216 ELSE k * R + (e % R)
      IN hist' = Append(hist, [act |-> "read", out |-> "ok", touched |-> 0, p |-> p, inv |-> inv, seg |-> seg, nseg |-> Segments(files[p], seg), persec |-> seg \div R, way |-> way, cur |-> [ver |-> files[p].ver, meta |-> files[p].meta, recs |-> Recs(files[p]), tail |-> files[p].tail]])
GConvert == Reading /\ \E p \in RE({q \in Paths : Ex(q)}), nb \in RE({3, 4, 6}), ign \in RE({0, 0, 0, 1, 2, 4}), m \in RE(1..3), rep \in RE(0..4), v \in RE({"0.2.0", "0.3.0"}) :
      LET ok == {q \in Paths : Ex(q) /\ CanConvert(files[q], files[p].meta.nS, ign)}
          nS == files[p].meta.nS
      IN ok # {} /\ p \in ok /\ \E l0 \in RandomSubset(1, [1..m -> ok]) : \E l \in {[l0 EXCEPT ![1] = p]} :
         hist' = Append(hist, [act |-> "convert", out |-> "ok", touched |-> 0, l |-> l, nb |-> nb, ign |-> ign, rep |-> rep, ver |-> v, meta |-> files[p].meta, recs |-> Converted(l, nb, ign),
                               metas |-> [i \in 1..m |-> files[l[i]].meta], lens |-> [i \in 1..m |-> Len(files[l[i]].recs)], files |-> [i \in 1..m |-> [recs |-> Recs(files[l[i]])]],
                               proj |-> [j \in 1..nb |-> [z \in 1..nS |-> Proj(j, z)]], basis |-> [z \in 1..nS |-> [j \in 1..nb |-> Basis(z, j)]]])
Feed == GCreate \/ GCreate \/ GWrite \/ GWrite \/ GWrite
NextG == \/ Feed
         \/ GTear
         \/ (Focus = "read" /\ (GRead \/ (\E k \in {1} : GRead) \/ (\E k \in {2} : GRead) \/ (\E k \in {3} : GRead) \/ GErase))
         \/ (Focus = "copy" /\ (GCopy \/ (\E k \in {1} : GCopy) \/ GAppend \/ (\E k \in {1} : GAppend) \/ GTrunc \/ GTruncT \/ GModify \/ GMerge \/ (\E k \in {1} : GMerge) \/ GErase \/ (\E k \in {1} : GErase)))
         \/ (Focus = "convert" /\ (GConvert \/ (\E k \in {1} : GConvert) \/ (\E k \in {2} : GConvert) \/ GErase))
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
