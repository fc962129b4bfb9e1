----------------------------- MODULE StackTrace -----------------------------
(***************************************************************************)
(* Checks histories recorded from stacks of real file systems against      *)
(* StackFS.  TRACE: an array of [layers: <<[impl, init]>>, reg, rn, ev].   *)
(***************************************************************************)
EXTENDS StackFS, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, Ss, bad
vars == <<t, l, Ss, bad>>

Cfs(tr) == [i \in DOMAIN tr.layers |-> [impl |-> tr.layers[i].impl, reg |-> Range_(tr.reg), rn |-> tr.rn]]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ Ss = [i \in DOMAIN Traces[t].layers |-> FromList(Blank, Traces[t].layers[i].init)]
        /\ bad = {}

Step(e) ==
    LET cfs == Cfs(Traces[t])
        R == DoStack(cfs, Ss, e)
        d == StackDiffs(cfs, Ss, e, R)
    IN  /\ Assert(StackContract(cfs, Ss, e, R), <<"the specification of stacks contradicts itself", e>>)
        /\ IF d = {}
           THEN Ss' = LearnStack(cfs, Ss, e, R) /\ bad' = {} /\ l' = l + 1
           ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> t, l |-> l, d |-> d, x |-> R.x]))
                /\ bad' = d /\ l' = l + 1 /\ Ss' = Ss

Next == /\ bad = {} /\ l <= Len(Traces[t].ev)
        /\ Step(Traces[t].ev[l])
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
View == <<t, l, bad>>
Conforms == bad = {}
=============================================================================
