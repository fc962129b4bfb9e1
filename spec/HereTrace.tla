----------------------------- MODULE HereTrace -----------------------------
(* Questions asked, one after another or several at once, in processes of their own. *)
EXTENDS Here, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, cwd
vars == <<r, i, cwd>>
W == Runs.worlds[Runs.runs[r].world]
H == Runs.runs[r].home
E == Runs.runs[r].steps[i]
Init == r \in DOMAIN Runs.runs /\ i = 1 /\ cwd = Runs.runs[r].home
Say(k, what, x) == PrintT("MISMATCH " \o ToJson([r |-> r, i |-> i, k |-> k, what |-> what, x |-> x]))
Next == /\ i <= Len(Runs.runs[r].steps)
        /\ r' = r /\ i' = i + 1
        /\ \A k \in DOMAIN E.qs :
             E.qs[k].op # "cd" /\ ~(E.qs[k].op = "dir" /\ Above(Place(cwd, E.qs[k]))) => LET as == Answers(W, H, cwd, E.qs[k]) IN ((~\E x \in as : Agree(E.as[k], x)) => Say(k, "answers", as))
        /\ cwd' = IF Len(E.qs) = 1 THEN Moved(W, cwd, E.qs[1]) ELSE cwd
        /\ (E.cwd # cwd' => Say(1, "is then somewhere else", E.cwd))
Spec == Init /\ [][Next]_vars
=============================================================================
