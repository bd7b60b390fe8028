------------------------------ MODULE FluxTrace ------------------------------
(* Recorded corrections [v, g, res] are accepted if they are legal. *)
EXTENDS FluxJump, TLC, Json, IOUtils
VARIABLES tid, pos, err
tvars == <<vals, good, tid, pos, err>>
Traces == JsonDeserialize(IOEnv.TRACEFILE)
InitT == tid \in 1..Len(Traces) /\ pos = 0 /\ err = "" /\ vals = <<>> /\ good = {}
E == Traces[tid][pos + 1]
NextT == /\ pos < Len(Traces[tid]) /\ pos' = pos + 1 /\ UNCHANGED <<tid, vals, good>>
         /\ LET gs == ToSet(E.g) IN
            err' = IF ~Whole(E.v, E.res) THEN "moved by whole quanta" ELSE IF ~Anchored(E.v, E.res) THEN "first value stays"
                   ELSE IF ~OneBranch(E.v, gs, E.res) THEN "good values on one branch" ELSE IF ~JumpFree(E.v, E.res) THEN "jump-free values stay"
                   ELSE IF ~Settled(E.v, gs, E.res) THEN "good values next to the first" ELSE ""
Accepted == err = ""
=============================================================================
