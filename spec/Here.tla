-------------------------------- MODULE Here --------------------------------
(***************************************************************************)
(* What is told about directories and packages.                            *)
(*                                                                         *)
(* A world W is [mods, dirs, files, std]:                                  *)
(*   mods   [path, dir, req]: modules, where they are, what they require   *)
(*   dirs   [dir, go, odd]: directories; go: the name of the package in it *)
(*          or "" for none; odd: Go files that make no package here        *)
(*   files  [dir, name]                                                    *)
(*   std    [path, dir, name]: packages that belong to no module           *)
(* A place is a sequence of names, below the top of the world.             *)
(* A question is [op, abs, path, w]: op "dir" with a place (abs, or as seen*)
(* from where we are), "pkg" or "info" with the name w of a package, "cur" *)
(* or "pcur", the current module: of here, and of pkger, which is that in  *)
(* which the process began; "cd".                                          *)
(* An answer does not depend on what else is asked, before or meanwhile.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE "/" \o s[1] \o Join(Tail(s))
Last(s) == s[Len(s)]

RECURSIVE Norm(_, _)
Norm(at, p) ==
  IF p = <<>> THEN at
  ELSE IF p[1] = "." THEN Norm(at, Tail(p))
  ELSE IF p[1] = ".." THEN Norm(IF at = <<>> \/ at[Len(at)] = ".." THEN Append(at, "..") ELSE SubSeq(at, 1, Len(at) - 1), Tail(p))
  ELSE Norm(Append(at, p[1]), Tail(p))
\* begins with ".." if it is not below the top
Place(cwd, q) == Norm(IF q.abs THEN <<>> ELSE cwd, q.path)
Above(d) == d # <<>> /\ d[1] = ".."

None == [path |-> "", dir |-> <<>>, req |-> <<>>]
\* the module that d is in: the innermost one
ModOf(W, d) ==
  LET ms == {m \in Range(W.mods) : Prefix(m.dir, d)}
  IN IF ms = {} THEN None ELSE CHOOSE m \in ms : \A n \in ms : Len(n.dir) <= Len(m.dir)
Import(m, d) == m.path \o Join(SubSeq(d, Len(m.dir) + 1, Len(d)))

Fail == [ok |-> FALSE, dir |-> <<>>, imp |-> "", name |-> "", mod |-> "", mdir |-> <<>>]
IsDir(W, d) == \E x \in Range(W.dirs) : x.dir = d
IsFile(W, d) == d # <<>> /\ \E f \in Range(W.files) : f.dir = SubSeq(d, 1, Len(d) - 1) /\ f.name = Last(d)

OfDir(W, d) ==
  IF IsDir(W, d) THEN
    LET x == CHOOSE y \in Range(W.dirs) : y.dir = d
        m == ModOf(W, d)
        pkg == x.go # "" /\ m # None
    IN [ok |-> TRUE, dir |-> d, imp |-> IF x.odd THEN "?" ELSE IF pkg THEN Import(m, d) ELSE "", name |-> IF x.odd THEN "?" ELSE IF pkg THEN x.go ELSE Last(d),
        mod |-> m.path, mdir |-> m.dir]
  ELSE Fail
\* what is a file stands for its directory
AtPlace(W, d) == IF IsFile(W, d) THEN OfDir(W, SubSeq(d, 1, Len(d) - 1)) ELSE OfDir(W, d)

\* the directories that are package w
Packages(W, w) == {x \in Range(W.dirs) : x.go # "" /\ ~x.odd /\ ModOf(W, x.dir) # None /\ Import(ModOf(W, x.dir), x.dir) = w}
\* those that can be used from cwd
Usable(W, cwd, w) == LET m == ModOf(W, cwd)
                     IN {x \in Packages(W, w) : m # None /\ ModOf(W, x.dir).path \in {m.path} \cup Range(m.req)}
OfStd(W, w) == LET s == CHOOSE y \in Range(W.std) : y.path = w
               IN [ok |-> TRUE, dir |-> s.dir, imp |-> w, name |-> s.name, mod |-> "", mdir |-> <<>>]
\* one that can not be used from here may still be known
OfPackage(W, cwd, w) ==
  IF \E s \in Range(W.std) : s.path = w THEN {OfStd(W, w)}
  ELSE IF Usable(W, cwd, w) # {} THEN {OfDir(W, x.dir) : x \in Usable(W, cwd, w)}
  ELSE {Fail} \cup {OfDir(W, x.dir) : x \in Packages(W, w)}
OfModule(W, cwd) == LET m == ModOf(W, cwd) IN IF m = None THEN Fail ELSE OfDir(W, m.dir)

(* the answers question q may have in cwd, where the process began in home *)
Answers(W, home, cwd, q) ==
  CASE q.op = "dir" -> {AtPlace(W, Place(cwd, q))}
    [] q.op = "pkg" -> OfPackage(W, cwd, q.w)
    [] q.op = "cur" -> {OfModule(W, cwd)}
    [] q.op = "pcur" -> {OfModule(W, home)}
    \* no name may stand for the module the process began in
    [] q.op = "info" /\ q.w = "" -> {Fail, OfModule(W, home)}
    [] q.op = "info" -> IF q.w # "" /\ q.w = ModOf(W, home).path THEN {OfModule(W, home)} ELSE OfPackage(W, cwd, q.w)
    [] q.op = "cd" -> {Fail}
Moved(W, cwd, q) == IF q.op = "cd" /\ IsDir(W, Place(cwd, q)) THEN Place(cwd, q) ELSE cwd

Agree(a, x) == /\ a.ok = x.ok /\ a.dir = x.dir /\ a.mod = x.mod /\ a.mdir = x.mdir
               /\ x.imp \in {"?", a.imp} /\ x.name \in {"?", a.name}
=============================================================================
