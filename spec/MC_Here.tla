------------------------------- MODULE MC_Here -------------------------------
(* Every history of Len questions out of those given, in the world given. *)
EXTENDS Here, Json, IOUtils
CONSTANTS MaxLen, Emit
Given == JsonDeserialize(IOEnv.WORLD)
W == Given.world
Questions == Given.questions
VARIABLES h, cwd
vars == <<h, cwd>>
Init == h = <<>> /\ cwd = Given.home
Next == /\ Len(h) < MaxLen
        /\ \E k \in DOMAIN Questions : /\ h' = Append(h, k)
                                       /\ cwd' = Moved(W, cwd, Questions[k])
                                       /\ (Questions[k].op = "cd" => cwd' # cwd)
Spec == Init /\ [][Next]_vars
Out == Emit /\ Len(h) = MaxLen => PrintT("HISTORY " \o ToJson([h |-> h]))

All(q) == Answers(W, Given.home, cwd, q)
\* what is said is about something that is there, in the module it is said to be in, under the name it has there
Sound == \A k \in DOMAIN Questions : \A a \in All(Questions[k]) :
           a.ok /\ a.mod # "" => /\ IsDir(W, a.dir)
                                 /\ Prefix(a.mdir, a.dir)
                                 /\ (a.imp \notin {"", "?"} => a.imp = a.mod \o Join(SubSeq(a.dir, Len(a.mdir) + 1, Len(a.dir))))
\* asking for the package a directory is said to be leads back to it
Back == \A d \in {x.dir : x \in Range(W.dirs)} :
          LET a == OfDir(W, d) IN a.imp \notin {"", "?"} => OfPackage(W, d, a.imp) = {a}
\* what is in a directory is of the same module, unless it is one itself
Inner == \A d \in {x.dir : x \in Range(W.dirs)} :
           Len(d) > 1 /\ d \notin {m.dir : m \in Range(W.mods)} => OfDir(W, d).mod = OfDir(W, SubSeq(d, 1, Len(d) - 1)).mod
\* from the same place, a question has the same answers, whatever was asked before
Same == [][cwd' = cwd => \A k \in DOMAIN Questions : Answers(W, Given.home, cwd', Questions[k]) = All(Questions[k])]_vars
=============================================================================
