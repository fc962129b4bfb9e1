----------------------------- MODULE PackTrace -----------------------------
(* Runs of the real packer, each with the fault it was struck by, where,   *)
(* what it reported and what was left behind.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
P == INSTANCE Pack WITH Design <- "rename", Chunks <- 0, pc <- "", out <- "", tmp <- "", n <- 0, fault <- "", phase <- "", status <- ""
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, done
Init == r \in DOMAIN Runs /\ done = FALSE
Good(x) == /\ P!Ok(x.fault, x.phase, x.status, x.out)
           /\ x.status = "ok" => x.right      \* it loads, and holds what was listed
           /\ x.fault = "none" => x.status = "ok"
Next == /\ ~done /\ done' = TRUE /\ r' = r
        /\ ~Good(Runs[r]) => PrintT("MISMATCH " \o ToJson([r |-> r]))
Spec == Init /\ [][Next]_<<r, done>>
=============================================================================
