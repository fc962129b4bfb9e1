----------------------------- MODULE HttpTrace -----------------------------
(* Answers recorded from real servers.  A run has a tree and cases; a case *)
(* has a root, a request, and the different answers it got (got; usually   *)
(* one, as all the servers have to agree).                                 *)
EXTENDS Http, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, c
Init == r \in DOMAIN Runs /\ c = 1
Fields == DOMAIN Answer
Good(a, want, req) ==
  /\ a.odd = ""
  /\ \A f \in Fields :
       \/ a[f] = want[f]
       \* without a body one can not tell the parts of a multipart answer, or what is listed
       \/ f \in {"kind", "at", "parts"} /\ a.kind = "multipart" /\ req.head /\ want.kind = "content" /\ Len(want.parts) > 1
       \/ f = "list" /\ req.head
Next == /\ c <= Len(Runs[r].cases) /\ c' = c + 1 /\ r' = r
        /\ LET x == Runs[r].cases[c]
               want == Respond(Runs[r].tree, x.root, x.req)
           IN \A k \in DOMAIN x.got : ~Good(x.got[k], want, x.req) => PrintT("MISMATCH " \o ToJson([r |-> r, c |-> c, k |-> k, want |-> want]))
Spec == Init /\ [][Next]_<<r, c>>
=============================================================================
