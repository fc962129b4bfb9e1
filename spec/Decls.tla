------------------------------- MODULE Decls -------------------------------
(***************************************************************************)
(* From declarations to what is packed.                                    *)
(*                                                                         *)
(* tree: the entries on disk, a sequence of [p, path, dir] in the order of *)
(* their full names "package:/path"; p is the package, path the sequence   *)
(* of names below its root, <<>> being the root.                           *)
(* decls: the set (or sequence) of declarations [fn, p, path]; -include    *)
(* arguments are declarations of kind Include.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Creators == {"MkdirAll", "Create"}
Namers == {"Open", "Stat", "Include", "Dir", "Walk", "-include"}

At(x, t) == x.p = t.p /\ x.path = t.path
AtOrBelow(x, t) == x.p = t.p /\ Len(x.path) >= Len(t.path) /\ SubSeq(x.path, 1, Len(t.path)) = t.path
Below(x, t) == AtOrBelow(x, t) /\ ~At(x, t)

Created(decls, t) == \E d \in decls : d.fn \in Creators /\ At(d, t)
Exists(tree, t) == \E i \in DOMAIN tree : At(tree[i], t)

\* the declaration names something that is neither there nor created
Dangling(tree, decls, d) == d.fn \in Namers /\ ~Created(decls, d) /\ ~Exists(tree, d)
Fails(tree, decls) == \E d \in decls : Dangling(tree, decls, d)

\* the entries (their indices in tree) that d contributes
Contributes(tree, decls, d) ==
  IF d.fn \notin Namers \/ Created(decls, d) THEN {}
  ELSE {i \in DOMAIN tree : /\ AtOrBelow(tree[i], d)
                            /\ \A c \in decls : ~(c.fn \in Creators /\ Below(c, d) /\ AtOrBelow(tree[i], c))}
Files(tree, decls) == UNION {Contributes(tree, decls, d) : d \in decls}

Name(e) == IF e.path = <<>> THEN "" ELSE e.path[Len(e.path)]
IsTmp(n) == Len(n) >= 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = ".tmp"
Packed(tree, decls) == {i \in Files(tree, decls) : ~IsTmp(Name(tree[i]))}

Sorted(s) == \A i \in DOMAIN s : \A j \in DOMAIN s : i < j => s[i] < s[j]
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
