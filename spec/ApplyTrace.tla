----------------------------- MODULE ApplyTrace -----------------------------
(***************************************************************************)
(* Concurrent runs recorded from the real code: the start and the end of   *)
(* every Apply and every call, in real-time order (a start is recorded     *)
(* before the call is made, an end after it returned), with the layers     *)
(* each call saw from the top down.                                        *)
(*                                                                         *)
(* final is the stack after everything, from the bottom up.  n is how many *)
(* of its layers have been applied so far.  An Apply takes effect at one   *)
(* instant between its start and its end; the specification lets it be as  *)
(* late as the recorded ends allow, which is the choice under which a run  *)
(* has an explanation if it has one.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, n, begun, low, bad
vars == <<k, i, n, begun, low, bad>>

Run == Runs[k]
Ev == Run.ev[i]
Final == Run.final
Index(l) == IF \E j \in DOMAIN Final : Final[j] = l THEN CHOOSE j \in DOMAIN Final : Final[j] = l ELSE 0
\* the stack when the first m layers are applied, from the top down
Stack(m) == [j \in 1 .. m |-> Final[m + 1 - j]]
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ k \in DOMAIN Runs
        /\ i = 1 /\ n = 0 /\ begun = {} /\ low = <<>> /\ bad = ""

\* everything up to the m-th layer can have been applied by now
CanBe(m) == \A j \in n + 1 .. m : Final[j] \in begun

Fail(what) == /\ bad' = what
              /\ PrintT("MISMATCH " \o ToJson([t |-> k, l |-> i, what |-> what, n |-> n]))
              /\ UNCHANGED <<k, i, n, begun, low>>

Consume ==
    LET e == Ev IN
    CASE e.k = "apply+" ->
            /\ begun' = begun \cup {e.l}
            /\ i' = i + 1 /\ UNCHANGED <<k, n, low, bad>>
      [] e.k = "apply-" ->
            LET m == Index(e.l) IN
            IF e.r = "panic" THEN
                IF ~e.fails THEN Fail("Apply panicked")
                ELSE IF m # 0 THEN Fail("an apply with an error changed the stack")
                ELSE i' = i + 1 /\ UNCHANGED <<k, n, begun, low, bad>>
            ELSE IF e.fails THEN Fail("an apply with an error did not panic")
            ELSE IF m = 0 THEN Fail("an applied layer is lost")
            ELSE IF ~CanBe(m) THEN Fail("layers are stacked in another order than they were applied in")
            ELSE n' = Max(n, m) /\ i' = i + 1 /\ UNCHANGED <<k, begun, low, bad>>
      [] e.k = "call+" ->
            /\ low' = (e.id :> n) @@ low
            /\ i' = i + 1 /\ UNCHANGED <<k, n, begun, bad>>
      [] e.k = "call-" ->
            LET m == Len(e.v) IN
            IF e.why # "" THEN Fail(e.why)
            ELSE IF m > Len(Final) THEN Fail("a call saw more layers than there are")
            ELSE IF e.v # Stack(m) THEN Fail("a call did not see one consistent stack")
            ELSE IF m < low[e.id] THEN Fail("a call saw a stack older than when it started")
            ELSE IF ~CanBe(m) THEN Fail("a call saw a layer not yet applied")
            ELSE n' = Max(n, m) /\ i' = i + 1 /\ UNCHANGED <<k, begun, low, bad>>

Next == bad = "" /\ i <= Len(Run.ev) /\ Consume
Spec == Init /\ [][Next]_vars
=============================================================================
