------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Lives of real modules.  Each event tells the files and declarations at  *)
(* that time (tree, decls as in Decls; h is what a file holds, with its    *)
(* permissions and time) and what was seen of the tool or the program.     *)
(***************************************************************************)
EXTENDS Decls, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, outs, bin
vars == <<r, i, outs, bin>>
R == Runs[r]
E == R.events[i]
OutSet == Range(R.outs)
Init == /\ r \in DOMAIN Runs /\ i = 1 /\ bin = <<>>
        /\ outs = [o \in Range(Runs[r].outs) |-> {}]
Say(what, x) == PrintT("MISMATCH " \o ToJson([r |-> r, i |-> i, what |-> what, x |-> x]))
DS == Range(E.decls)
Tree == E.tree
Item(k) == [p |-> Tree[k].p, path |-> Tree[k].path, dir |-> Tree[k].dir, h |-> Tree[k].h]

Pack ==
  LET fails == Fails(Tree, DS)  want == Packed(Tree, DS)
  IN /\ bin' = bin
     /\ outs' = [outs EXCEPT ![E.at] = IF fails THEN {} ELSE {Item(k) : k \in want}]
     /\ (E.ok = fails => Say(IF fails THEN "packing succeeds" ELSE "packing fails", 0))
     /\ (~fails /\ E.ok /\ Range(E.got) # want => Say("packed", [missing |-> want \ Range(E.got), extra |-> Range(E.got) \ want]))
     /\ (E.wrong # "" => Say("packed otherwise than on disk", E.wrong))
List ==
  LET fails == Fails(Tree, DS)  want == Files(Tree, DS)
  IN /\ bin' = bin
     /\ outs' = [o \in DOMAIN outs |-> IF o \in Range(E.left) THEN outs[o] ELSE {}]
     /\ (\E o \in DOMAIN outs : o # R.listed /\ outs[o] # {} /\ o \notin Range(E.left) => Say("listing removes an output", 0))
     /\ (E.ok = fails => Say(IF fails THEN "listing succeeds" ELSE "listing fails", 0))
     /\ (~fails /\ E.ok /\ (Range(E.got) # want \/ ~Sorted(E.got))
           => Say("listed", [missing |-> want \ Range(E.got), extra |-> Range(E.got) \ want]))
     /\ (E.wrong # "" => Say("listed in two ways", E.wrong))
Build == /\ outs' = outs
         /\ bin' = [k \in DOMAIN R.order |-> outs[R.order[k]]]
         /\ (~E.ok => Say("does not compile", 0))
Edit == UNCHANGED <<outs, bin>>

\* layers that have it
Have(q) == {k \in DOMAIN bin : \E x \in bin[k] : x.p = q.p /\ x.path = q.path}
Top(q) == CHOOSE x \in bin[CHOOSE k \in Have(q) : \A j \in Have(q) : k <= j] : x.p = q.p /\ x.path = q.path
Parent(path) == SubSeq(path, 1, Len(path) - 1)
Good(q) ==
  IF Have(q) = {} THEN ~q.found
  ELSE LET t == Top(q)  only == {k \in DOMAIN bin : bin[k] # {}}
       IN /\ q.found /\ q.dir = t.dir /\ (t.dir \/ q.h = t.h)
          \* with a single layer a directory is complete; names in between that were left out may show
          /\ (Cardinality(only) = 1 /\ t.dir) =>
               LET s == bin[CHOOSE k \in only : TRUE]
                   below == {x \in s : Below(x, q)}
               IN /\ {x.path[Len(q.path) + 1] : x \in {y \in below : Len(y.path) = Len(q.path) + 1}} \subseteq Range(q.kids)
                  /\ Range(q.kids) \subseteq {x.path[Len(q.path) + 1] : x \in below}
                  /\ Range(q.walk) = {x.path : x \in below \cup {t}}
Run == /\ UNCHANGED <<outs, bin>>
       /\ (~E.ok => Say("the program fails", 0))
       /\ \A k \in DOMAIN E.probes : ~Good(E.probes[k]) => Say("looked up", E.probes[k])
Next == /\ i <= Len(R.events) /\ i' = i + 1 /\ r' = r
        /\ CASE E.act = "pack" -> Pack [] E.act = "list" -> List [] E.act = "build" -> Build
             [] E.act = "run" -> Run [] OTHER -> Edit
Spec == Init /\ [][Next]_vars
=============================================================================
