------------------------------ MODULE CmdTrace ------------------------------
(* Command lines, given to the real command in real modules, one after another. *)
EXTENDS Cmd, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, i
R == Runs[r]
E == R.events[i]
Init == r \in DOMAIN Runs /\ i = 1
Say(what, x) == PrintT("MISMATCH " \o ToJson([r |-> r, i |-> i, what |-> what, x |-> x]))
App == R.app
Line == [k \in DOMAIN E.line |-> R.words[E.line[k]]]
DS == Range(R.decls)
Key(e) == [p |-> e.p, path |-> e.path, dir |-> e.dir, h |-> e.h]
\* a directory is listed in any order
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
                   Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
Check ==
  LET m == Meaning(Line)
      d == Does(App, E.tree, DS, Range(E.pkgs), E.cwd, m)
      t == Touches(App, m)
      before == {Key(e) : e \in Range(E.tree)}
      after == {Key(e) : e \in Range(E.after)}
      odd == {e \in (before \ after) \cup (after \ before) : ~\E x \in t : At(e, x)}
      out == \E e \in after : \E x \in t : At(e, x)
  IN /\ (E.ok # d.ok => Say(IF d.ok THEN "fails" ELSE "succeeds", m.kind))
     /\ (odd # {} => Say("changes", odd))
     /\ (~d.ok /\ E.quiet => Say("fails, and does not say why", m.kind))
     /\ (E.garbled # "" => Say("prints", E.garbled))
     /\ (m.kind = "usage" /\ ~E.usage => Say("does not print its usage", 0))
     /\ (m.kind \notin {"usage", "wrong"} /\ E.ok /\ E.usage => Say("prints its usage", m.kind))
     /\ (m.kind = "pack" /\ d.ok /\ E.ok /\ ~out => Say("leaves no output", m.out))
     /\ (m.kind = "list" /\ out => Say("lists, and leaves the output", 0))
     /\ (E.form # "" /\ E.form # (IF m.kind = "list" THEN IF m.json THEN "json" ELSE "text" ELSE m.kind) => Say("prints the output of", E.form))
     /\ (d.ok /\ E.ok =>
          /\ (m.kind \in {"list", "pack"} /\ Range(E.files) # d.files
                => Say(m.kind, [missing |-> d.files \ Range(E.files), extra |-> Range(E.files) \ d.files]))
          /\ (m.kind = "path" /\ Range(E.told) # d.told => Say("path", d.told))
          /\ (m.kind = "parse" /\ {[w |-> x.w, ds |-> Range(x.ds)] : x \in Range(E.said)} # d.said => Say("parse", d.said)))
     /\ (m.kind \in {"info", "stat"} /\ (IF m.kind = "info" THEN E.docs # d.docs ELSE ~SameBag(E.docs, d.docs)) => Say(m.kind, d.docs))
     /\ (m.kind \notin {"info", "stat"} /\ E.docs # <<>> => Say("prints", E.docs))
Next == /\ i <= Len(R.events) /\ i' = i + 1 /\ r' = r /\ Check
Spec == Init /\ [][Next]_<<r, i>>
=============================================================================
