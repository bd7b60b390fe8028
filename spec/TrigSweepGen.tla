----------------------------- MODULE TrigSweepGen -----------------------------
EXTENDS TrigSweep, TLC, Json
Emit == (i > Len(P)) => PrintT("@@" \o ToJson(<<P, T, last, next>>))
=============================================================================
