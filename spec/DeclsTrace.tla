---------------------------- MODULE DeclsTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the real parser and packer: the tree on disk, the      *)
(* declarations in the sources, and what was listed and packed (as indices *)
(* in the tree; 0 for anything that is not in it).                         *)
(***************************************************************************)
EXTENDS Decls, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES r, done
Init == r \in DOMAIN Runs /\ done = FALSE
R == Runs[r]
DS == Range(R.decls)
Say(what, x) == PrintT("MISMATCH " \o ToJson([r |-> r, what |-> what, x |-> x]))
Check ==
  LET fails == Fails(R.tree, DS)
      files == Files(R.tree, DS)
      packed == Packed(R.tree, DS)
  IN IF fails # R.err THEN Say(IF fails THEN "no error" ELSE "an error", {d \in DS : Dangling(R.tree, DS, d)})
     ELSE IF fails THEN TRUE
     ELSE /\ (Range(R.files) # files => Say("files", [missing |-> files \ Range(R.files), extra |-> Range(R.files) \ files]))
          /\ (~Sorted(R.files) => Say("order", R.files))
          /\ (Range(R.packed) # packed => Say("packed", [missing |-> packed \ Range(R.packed), extra |-> Range(R.packed) \ packed]))
Next == ~done /\ done' = TRUE /\ r' = r /\ Check
Spec == Init /\ [][Next]_<<r, done>>
=============================================================================
