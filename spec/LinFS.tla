------------------------------- MODULE LinFS -------------------------------
(***************************************************************************)
(* Concurrent histories recorded from the real in-memory file system, and  *)
(* whether they are linearizable with respect to PkgFS: whether every call *)
(* can have taken effect at one instant between its start and its end.     *)
(*                                                                         *)
(* A history [init, th, fin, ...] has one sequence of events per thread;   *)
(* event e of a thread started after e.pre[u] events of thread u had       *)
(* ended.  fin is what is there after all of them.  TLC looks for an order *)
(* of the events, consistent with that, in which PkgFS gives the recorded  *)
(* answers; a history for which there is none is never reported LINEAR.    *)
(***************************************************************************)
EXTENDS FSDiff, Json, IOUtils

Hists == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, pos, S
vars == <<k, pos, S>>
H == Hists[k]
Cf == [impl |-> H.impl, reg |-> Range_(H.reg), rn |-> H.rn]

Init == /\ k \in DOMAIN Hists
        /\ pos = [u \in DOMAIN Hists[k].th |-> 1]
        /\ S = FromList(Blank, Hists[k].init)

Left(u) == pos[u] <= Len(H.th[u])
Ev(u) == H.th[u][pos[u]]
\* everything that had ended before it started has been placed
Ready(u) == \A v \in DOMAIN pos : pos[v] > Ev(u).pre[v]

\* an atomic picture of everything (MarshalJSON) is compared whole
AnswerOK(R, e) == IF e.op = "dump" THEN SnapDiff(Cf, S, e.dp, "dump", TRUE) = {} /\ e.r = "ok"
              ELSE Diffs(Cf, IF e.op \in {"open", "fopen", "diropen", "create"} THEN S ELSE R.S, e, R.x) = {}
LearnIt(R, e) == IF e.op = "dump"
                 THEN BindAll(S, [i \in DOMAIN e.dp |-> <<InfoOf(Cf, S, e.dp[i].p, Obj(S, e.dp[i].p)), e.dp[i]>>])
                 ELSE Learn(Cf, R.S, e, R.x)

\* objects and versions are named after the event that makes them, so that the
\* state does not depend on the order of independent events
Named(u) == [S EXCEPT !.k = 1000 + (u * 100 + pos[u]) * 10]

Place(u) ==
    LET e == Ev(u)
        R == IF e.op = "dump" THEN [S |-> S, x |-> [r |-> "ok"]] ELSE Do(Cf, Named(u), e)
    IN  /\ AnswerOK(R, e)
        /\ S' = [LearnIt(R, e) EXCEPT !.k = 1]
        /\ pos' = [pos EXCEPT ![u] = @ + 1]
        /\ k' = k

\* what only concerns the thread's own handle commutes with everything else
Own(u) == Left(u) /\ \/ Ev(u).op \in {"write", "read", "seek", "fstat"}
                     \/ Ev(u).op = "close" /\ ~S.h[Ev(u).h].wr
Step == LET own == {u \in DOMAIN pos : Own(u)}
        IN  IF own # {} THEN Place(CHOOSE u \in own : \A v \in own : u <= v)
            ELSE \E u \in DOMAIN pos : Left(u) /\ Ready(u) /\ Place(u)

AllPlaced == \A u \in DOMAIN pos : ~Left(u)
Fits == SnapDiff(Cf, S, H.fin, "dp", TRUE) = {}
Done == /\ AllPlaced /\ Fits
        /\ PrintT("LINEAR " \o ToJson([t |-> k]))
        /\ pos' = [u \in DOMAIN pos |-> Len(H.th[u]) + 2]
        /\ UNCHANGED <<k, S>>
Finished == \E u \in DOMAIN pos : pos[u] > Len(H.th[u]) + 1

Next == ~Finished /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
