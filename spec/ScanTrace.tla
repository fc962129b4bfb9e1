----------------------------- MODULE ScanTrace -----------------------------
(***************************************************************************)
(* Modules, and what the real parser reported of them: Scan reads every Go *)
(* file that is not ignored, token by token, and what it found has to be   *)
(* what was reported.                                                      *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils

Modules == JsonDeserialize(IOEnv.TRACE)
VARIABLES m, d, f, l, open, bad       \* module, directory, file, token; open: reading a file
all == <<vars, m, d, f, l, open, bad>>

M == Modules[m]
Dir == M.dirs[d]
File == Dir.files[f]
ReadIt == ~Ignored(Dir.path) /\ IsGo(File.name)

Init == /\ m \in DOMAIN Modules /\ d = 1 /\ f = 1 /\ l = 1 /\ open = FALSE /\ bad = FALSE
        /\ scopes = <<>> /\ must = {} /\ may = {}

Complain(what, x) == PrintT("MISMATCH " \o ToJson([m |-> m, what |-> what, d |-> x]))
Ends(found, left) ==
  LET got == {M.decls[i] : i \in DOMAIN M.decls}
  IN /\ bad' = (M.err \/ Len(M.decls) # Cardinality(got) \/ ~(found \subseteq got /\ got \subseteq found \cup left))
     /\ M.err => Complain("parsing fails", [fn |-> ""])
     /\ ~M.err /\ Len(M.decls) # Cardinality(got) => Complain("a declaration is reported twice", CHOOSE x \in got :
              Cardinality({i \in DOMAIN M.decls : M.decls[i] = x}) > 1)
     /\ ~M.err => \A x \in found \ got : Complain("missing", x)
     /\ ~M.err => \A x \in (got \ found) \ left : Complain("reported, but not declared", x)

\* one action per token, per file, per directory
Skip == ~open /\ d <= Len(M.dirs) /\ f <= Len(Dir.files) /\ ~ReadIt
        /\ f' = f + 1 /\ UNCHANGED <<vars, m, d, l, open, bad>>
NextDir == ~open /\ d <= Len(M.dirs) /\ f > Len(Dir.files) /\ d' = d + 1 /\ f' = 1 /\ UNCHANGED <<vars, m, l, open, bad>>
Start == /\ ~open /\ d <= Len(M.dirs) /\ f <= Len(Dir.files) /\ ReadIt /\ File.ok
         /\ scopes' = <<Global(File.glob)>> /\ open' = TRUE /\ l' = 1
         /\ UNCHANGED <<must, may, m, d, f, bad>>
Tok == open /\ l <= Len(File.body) /\ Read(File.body[l]) /\ l' = l + 1 /\ UNCHANGED <<m, d, f, open, bad>>
Done == open /\ l > Len(File.body) /\ open' = FALSE /\ f' = f + 1 /\ UNCHANGED <<vars, m, d, l, bad>>
\* a file that does not parse is an error
Broken == /\ ~open /\ d <= Len(M.dirs) /\ f <= Len(Dir.files) /\ ReadIt /\ ~File.ok
          /\ bad' = ~M.err
          /\ ~M.err => Complain("an unparsable file is no error", [pos |-> File.name])
          /\ d' = Len(M.dirs) + 2 /\ UNCHANGED <<vars, m, f, l, open>>
End == /\ d = Len(M.dirs) + 1 /\ d' = d + 1 /\ Ends(must, may)
       /\ UNCHANGED <<vars, m, f, l, open>>
Next == Skip \/ NextDir \/ Start \/ Tok \/ Done \/ Broken \/ End
Spec == Init /\ [][Next]_all
=============================================================================
