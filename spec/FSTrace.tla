------------------------------ MODULE FSTrace ------------------------------
(***************************************************************************)
(* Checks traces recorded from the real code against PkgFS.  The file      *)
(* named by TRACE holds an array of traces [impl, reg, rn, init, ev];      *)
(* every trace is one initial state, every event one step.  A step the     *)
(* contract does not allow is printed with the aspects that disagree and   *)
(* ends that trace in a state violating Conforms.                          *)
(***************************************************************************)
EXTENDS FSDiff, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, S, bad
vars == <<t, l, S, bad>>

Cf(tr) == [impl |-> tr.impl, reg |-> Range_(tr.reg), rn |-> tr.rn]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ S = FromList(Blank, Traces[t].init)
        /\ bad = {}

Step(e) ==
    LET cf == Cf(Traces[t])
        R == Do(cf, S, e)
        d == Diffs(cf, IF e.op \in {"open", "fopen", "diropen", "create"} THEN S ELSE R.S, e, R.x)
    IN  IF d = {}
        THEN S' = Learn(cf, R.S, e, R.x) /\ bad' = {} /\ l' = l + 1
        ELSE /\ PrintT("MISMATCH " \o ToJson([t |-> t, l |-> l, d |-> d, x |-> R.x]))
             /\ bad' = d /\ l' = l + 1 /\ S' = S

Next == /\ bad = {} /\ l <= Len(Traces[t].ev)
        /\ Step(Traces[t].ev[l])
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
\* S is a function of t and l: fingerprinting those is enough
View == <<t, l, bad>>
Conforms == bad = {}
=============================================================================
