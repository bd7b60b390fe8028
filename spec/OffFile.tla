------------------------------ MODULE OffFile ------------------------------
(* O01: an OFF file grows by appended bytes (writes may tear anywhere); a reader opens it and refreshes its view now and then. *)
(* A record is complete when all of its bytes are there; the reader's view is the complete records at the last refresh.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS MaxRec        \* records the writer will ever write
VARIABLES ver, nb, ns,  \* format version, number of bases, samples per record
          head,         \* bytes of header (incl. the model), all there or not
          bytes,        \* bytes of records in the file
          seen,         \* -1: not open; otherwise the records known to the reader
          held,         \* sequence of [lo, hi]: views the user kept
          out
vars == <<ver, nb, ns, head, bytes, seen, held, out>>
cfg == <<ver, nb, ns>>

RecSize(v, n) == 4 + 4 + 8 + 8 + 4 + (IF v = "0.3.0" THEN 4 ELSE 0) + 4 + 4 * n
R == RecSize(ver, nb)
Complete == bytes \div R

\* ---- what is in record i (1-based): small integers, so that everything is exact in single precision ----
Coef(i, j) == ((i * 7 + j * 3) % 11) - 5
Basis(z, j) == ((z * 5 + j * 2) % 7) - 3
Proj(j, z) == ((z * 3 + j * 4) % 9) - 4
PreSamples(i) == (ns \div 2) + (i % 2)
FrameCount(i) == 1000 * i + (i % 3)
Nano(i) == 17 * i                      \* added to a large start time by the binding
PreMean(i) == 100 + i
PreDelta(i) == 50 - i
Resid(i) == i % 5
Record(i) == [recordSamples |-> ns, recordPreSamples |-> PreSamples(i), framecount |-> FrameCount(i), unixnano |-> Nano(i), pretriggerMean |-> PreMean(i),
              pretriggerDelta |-> PreDelta(i), residualStdDev |-> Resid(i), coefs |-> [j \in 1..nb |-> Coef(i, j)]]
Modeled(i) == [z \in 1..ns |-> FoldLeft(LAMBDA a, j : a + Basis(z, j) * Coef(i, j), 0, [k \in 1..nb |-> k])]

\* ---- operations ----
WriteHeader == ~head /\ head' = TRUE /\ out' = "ok" /\ UNCHANGED <<cfg, bytes, seen, held>>
Append_(k) == head /\ bytes' = bytes + k /\ out' = "ok" /\ UNCHANGED <<cfg, head, seen, held>>
Open == IF head THEN seen' = Complete /\ held' = <<>> /\ out' = "ok" /\ UNCHANGED <<cfg, head, bytes>>
        ELSE out' = "refused" /\ UNCHANGED <<cfg, head, bytes, seen, held>>
Refresh == seen >= 0 /\ seen' = Complete /\ out' = "ok" /\ UNCHANGED <<cfg, head, bytes, held>>
Hold(lo, hi) == seen >= 0 /\ 1 <= lo /\ hi <= seen /\ lo <= hi /\ held' = Append(held, [lo |-> lo, hi |-> hi]) /\ out' = "ok" /\ UNCHANGED <<cfg, head, bytes, seen>>

Init == /\ ver \in {"0.1.0", "0.2.0", "0.3.0"} /\ nb \in 3..5 /\ ns = 4
        /\ head = FALSE /\ bytes = 0 /\ seen = -1 /\ held = <<>> /\ out = "ok"
\* every byte at which a write can tear is visited
Next == \/ WriteHeader
        \/ bytes < MaxRec * R /\ Append_(1)
        \/ Open
        \/ Refresh
        \/ Len(held) < 1 /\ \E lo, hi \in 1..MaxRec : Hold(lo, hi)
\* ---- checked ----
ViewOK == seen <= Complete /\ (seen >= 0 => head) /\ (\A k \in DOMAIN held : held[k].hi <= Complete)
\* no record is lost or counted before it is complete
Exact == [][seen' # seen => (seen' * R <= bytes' /\ bytes' < (seen' + 1) * R)]_vars
Monotone == [][(seen >= 0) => seen' >= seen]_vars
=============================================================================
