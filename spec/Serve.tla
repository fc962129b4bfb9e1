------------------------------- MODULE Serve -------------------------------
(***************************************************************************)
(* Several requests answered at once from one handle on the directory that *)
(* is served, while the program uses the handle as well.  Each request is  *)
(* written in pieces; a turn is the writing of the next piece.             *)
(*                                                                         *)
(* Shared is for telling designs apart: with a cursor that all of them     *)
(* share the answers get mixed up, with one of their own they do not.      *)
(* The histories are the schedules that the real server has to get through *)
(* with every answer being the one it gives to the request alone.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Requests, Pieces, Uses, MaxUses, Shared, Emit
VARIABLES body, cursor, lost, hist
vars == <<body, cursor, lost, hist>>
Init == body = [r \in Requests |-> <<>>] /\ cursor = 0 /\ lost = 0 /\ hist = <<>>
Turn(r) == /\ Len(body[r]) < Pieces
           /\ body' = [body EXCEPT ![r] = Append(@, (IF Shared THEN cursor ELSE Len(@)) + 1)]
           /\ cursor' = cursor + 1 /\ hist' = Append(hist, ToString(r)) /\ lost' = lost
\* what the program does with the handle: read the directory, ask, open and forget something
Use(u) == /\ lost < MaxUses /\ lost' = lost + 1
          /\ cursor' = cursor + 1 /\ hist' = Append(hist, u) /\ body' = body
Next == (\E r \in Requests : Turn(r)) \/ (\E u \in Uses : Use(u))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Undisturbed == \A r \in Requests : \A i \in DOMAIN body[r] : body[r][i] = i
Served == <>(\A r \in Requests : Len(body[r]) = Pieces)
Done == \A r \in Requests : Len(body[r]) = Pieces
Out == (Emit /\ Done) => PrintT("SCHED " \o ToJson([h |-> hist]))
=============================================================================
