------------------------------ MODULE StackFS ------------------------------
(***************************************************************************)
(* A stack of file systems: what pkging.Wrap (or the package-level         *)
(* functions after Apply) answers when every layer keeps the contract      *)
(* PkgFS.  cfs and Ss are the configurations and states of the layers,     *)
(* top first.  A handle belongs to the layer that gave it out.             *)
(*                                                                         *)
(* DoStack returns [Ss, who, x, parts]: next states, the layer whose       *)
(* answer x is, and for a walk what each layer contributes.                *)
(***************************************************************************)
EXTENDS FSDiff

Lookups == {"open", "stat", "create", "parse"}
Changes == {"mkdirall", "remove", "removeall"}

\* from the top, the first layer that succeeds; if none does, the lowest
RECURSIVE Ask(_, _, _, _)
Ask(cfs, Ss, e, i) ==
    LET R == Do(cfs[i], Ss[i], e)
    IN  IF R.x.r = "ok" \/ i = Len(Ss) THEN [Ss |-> [Ss EXCEPT ![i] = R.S], who |-> i, x |-> R.x, parts |-> <<>>]
        ELSE Ask(cfs, Ss, e, i + 1)

\* to every layer from the top, up to the first that fails
RECURSIVE Apply_(_, _, _, _)
Apply_(cfs, Ss, e, i) ==
    LET R == Do(cfs[i], Ss[i], e)
        Now == [Ss EXCEPT ![i] = R.S]
    IN  IF R.x.r # "ok" \/ i = Len(Ss) THEN [Ss |-> Now, who |-> i, x |-> R.x, parts |-> <<>>]
        ELSE Apply_(cfs, Now, e, i + 1)

\* a walk of every layer from the top; the k-th callback is counted over all
RECURSIVE WalkAll(_, _, _, _, _)
WalkAll(cfs, Ss, e, i, parts) ==
    LET seen == FoldSeq(LAMBDA x, n : n + Len(x.vs), 0, parts)
        R == Do(cfs[i], Ss[i], [e EXCEPT !.acts = SubSeq(@, seen + 1, Len(@))])
        x == IF R.x.r = "**" /\ cfs[i].impl = "mem" THEN [R.x EXCEPT !.r = "ok"] ELSE R.x   \* nothing there, nothing to do
        all == Append(parts, x)
    IN  IF x.r # "ok" \/ i = Len(Ss)
        THEN [Ss |-> Ss, who |-> i, parts |-> all,
              x |-> [r |-> x.r, vs |-> FlattenSeq([k \in DOMAIN all |-> all[k].vs])]]
        ELSE WalkAll(cfs, Ss, e, i + 1, all)

First(s, d) == IF s = {} THEN d ELSE CHOOSE i \in s : \A j \in s : i <= j

At(cfs, Ss, e, i) ==
    LET R == Do(cfs[i], Ss[i], e) IN [Ss |-> [Ss EXCEPT ![i] = R.S], who |-> i, x |-> R.x, parts |-> <<>>]

DoStack(cfs, Ss, e) ==
    CASE e.op \in Lookups -> Ask(cfs, Ss, e, 1)
      [] e.op \in Changes -> Apply_(cfs, Ss, e, 1)
      [] e.op = "walk" -> WalkAll(cfs, Ss, e, 1, <<>>)
      \* a Dir opens the directory through the stack, and the name through what it got
      [] e.op = "diropen" -> At(cfs, Ss, e, First({i \in DOMAIN Ss : Exists(Ss[i], e.p)}, Len(Ss)))
      [] e.op = "snap" -> [Ss |-> Ss, who |-> 1, x |-> [r |-> "ok"], parts |-> <<>>]
      [] OTHER -> At(cfs, Ss, e, First({i \in DOMAIN Ss : e.h \in DOMAIN Ss[i].h}, 1))

\* what every name in use is, asked through the stack: the topmost one
SnapStack(cfs, Ss, e) ==
    LET names == UNION {DOMAIN Ss[i].n : i \in DOMAIN Ss}
        top(p) == First({i \in DOMAIN Ss : Exists(Ss[i], p)}, 1)
        at == {e.st[i].p : i \in DOMAIN e.st}
    IN  {<<"st", "missing", p>> : p \in names \ at} \cup {<<"st", "extra", p>> : p \in at \ names} \cup
        UNION {LET p == e.st[i].p
                   k == top(p)
               IN  IF p \notin names THEN {}
                   ELSE {<<"st", x, p>> : x \in InfoDiff(Ss[k], InfoOf(cfs[k], Ss[k], p, Obj(Ss[k], p)), e.st[i])}
               : i \in DOMAIN e.st} \cup
        UNION {SnapDiff(cfs[k], Ss[k], e.dps[k], "dp", TRUE) : k \in DOMAIN Ss} \cup
        Cond(e.kp # 0, <<"kept", "changed">>)

\* the callbacks of a walk, each compared in its layer
WalkStack(cfs, Ss, e, R) ==
    LET seen == [i \in DOMAIN e.vs |-> e.vs[i].p]
        from(k) == FoldSeq(LAMBDA x, n : n + Len(x.vs), 0, SubSeq(R.parts, 1, k - 1))
    IN  Cond(~ErrMatch(R.x.r, e.r), <<"walk", "class">>) \cup
        Cond(seen # R.x.vs, <<"walk", "order">>) \cup
        (IF seen # R.x.vs THEN {} ELSE
         UNION {UNION {Tag("walk", InfoDiff(Ss[k], R.parts[k].is[j], e.vs[from(k) + j])) : j \in DOMAIN R.parts[k].vs}
                : k \in DOMAIN R.parts})

StackDiffs(cfs, Ss, e, R) ==
    CASE e.op = "snap" -> SnapStack(cfs, Ss, e)
      [] e.op = "walk" -> WalkStack(cfs, Ss, e, R)
      [] OTHER -> Diffs(cfs[R.who], (IF e.op \in {"open", "fopen", "diropen", "create"} THEN Ss ELSE R.Ss)[R.who], e, R.x)

LearnStack(cfs, Ss, e, R) ==
    CASE e.op = "snap" -> [k \in DOMAIN Ss |-> Learn(cfs[k], Ss[k], [op |-> "snap", r |-> "ok", dp |-> e.dps[k]], R.x)]
      [] e.op = "walk" -> R.Ss
      [] OTHER -> [R.Ss EXCEPT ![R.who] = Learn(cfs[R.who], @, e, R.x)]

\* Stated apart from DoStack: a lookup leaves all layers but the one that
\* answers as they are; a change leaves those below a failure as they are;
\* a failing call leaves everything as it is in the layer that failed
StackContract(cfs, Ss, e, R) ==
    /\ e.op \in Lookups => \A i \in DOMAIN Ss : i # R.who => R.Ss[i] = Ss[i]
    /\ e.op \in Changes \cup {"walk"} => \A i \in DOMAIN Ss : i > R.who => R.Ss[i] = Ss[i]
    /\ R.x.r # "ok" /\ e.op \in Lookups \cup Changes => R.Ss[R.who].n = Ss[R.who].n
    /\ e.op = "stat" => ((R.x.r = "ok") <=> (\E i \in DOMAIN Ss : Exists(Ss[i], e.p)))
    /\ e.op = "open" /\ R.x.r # "ok" => R.x.r = "nx"
    /\ e.op = "removeall" /\ R.x.r = "ok" => \A i \in DOMAIN Ss : Below(R.Ss[i], e.p) = {}
    /\ e.op = "mkdirall" /\ R.x.r = "ok" => \A i \in DOMAIN Ss : IsDir(R.Ss[i], e.p)
=============================================================================
