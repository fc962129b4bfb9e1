------------------------------- MODULE MC_FS -------------------------------
(***************************************************************************)
(* Explores the contract PkgFS exhaustively on small constants:            *)
(*  - checks that the contract itself has the properties it is meant to    *)
(*    express (stated here independently of how PkgFS computes them);      *)
(*  - prints every transition of the reduced state graph, with the history *)
(*    leading to it and the answer prescribed; the harness replays them    *)
(*    all on the real code.                                                *)
(* VIEW keeps what is observable; hist is a shortest history to the state. *)
(***************************************************************************)
EXTENDS PkgFS, Json

CONSTANTS Impl,     \* "mem" or "disk"
          Comps,    \* names to use
          Pkgs,     \* packages to use
          Depth,    \* components in a path, at most
          MaxH,     \* handles given out in one history
          Ops,      \* calls to use
          MaxData,  \* bytes in a file, at most
          MaxLen,   \* calls in a history, at most
          Roots,    \* {TRUE}: package roots exist initially, {FALSE}: not, or both
          Perms,    \* for MkdirAll
          Emit      \* print the transitions

VARIABLES S, hist, ini, last
vars == <<S, hist, ini, last>>

cf == [impl |-> Impl, reg |-> {1, 2}, rn |-> <<9, 13>>]

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>}
               ELSE LET s == SeqsUpTo(n - 1) IN s \cup {Append(q, c) : q \in s, c \in Comps}
Rels == SeqsUpTo(Depth)
Paths == {<<p>> \o q : p \in Pkgs, q \in Rels}
SortedPaths == SetToSortSeq(Paths, Lex)

RootsInit == SelectSeq(<<[p |-> <<1>>, k |-> "d", pm |-> 493, d |-> <<>>],
               [p |-> <<2>>, k |-> "d", pm |-> 493, d |-> <<>>]>>, LAMBDA x : x.p[1] \in Pkgs)

Init == /\ \E r \in Roots : ini = IF r THEN RootsInit ELSE <<>>
        /\ S = FromList(Blank, ini)
        /\ hist = <<>>
        /\ last = [r |-> "ok"]

If(op, s) == IF op \in Ops THEN s ELSE {}
Hs == DOMAIN S.h
Free == Cardinality(Hs) + 1
CanOpen == Free <= MaxH
Safe(op, s) == If(op, s)

\* the page the reader is assumed to get (any order is allowed; the harness
\* has a real order judged by FSTrace when it differs from this one)
Page(h, n) ==
    LET R == DoReaddir(cf, S, [op |-> "readdir", h |-> h, n |-> n, ls |-> <<>>])
        q == SetToSortSeq(DOMAIN R.x.all, Lex)
    IN  IF R.x.m <= 0 THEN <<>>
        ELSE [i \in 1 .. R.x.m |-> [nm |-> q[i][Len(q[i])]]]

Rootless == {p \in Paths : Len(p) > 1}
\* removing the module directory is left to the random histories
Removable == IF ini = <<>> THEN Paths ELSE Rootless
\* creating a file in place of a missing module directory is unspecified
Creatable == IF ini = <<>> THEN Rootless ELSE Paths

Events ==
    If("mkdirall", {[op |-> "mkdirall", p |-> p, perm |-> m] : p \in Paths, m \in Perms}) \cup
    If("create", IF CanOpen THEN {[op |-> "create", p |-> p, nh |-> Free] : p \in Creatable} ELSE {}) \cup
    If("open", IF CanOpen THEN {[op |-> "open", p |-> p, nh |-> Free] : p \in Paths} ELSE {}) \cup
    If("diropen", IF CanOpen THEN {[op |-> "diropen", p |-> p, rel |-> r, nh |-> Free] : p \in Paths, r \in SeqsUpTo(1)} ELSE {}) \cup
    If("fopen", IF CanOpen THEN {[op |-> "fopen", h |-> h, rel |-> r, nh |-> Free] : h \in Hs, r \in Rels} ELSE {}) \cup
    If("write", {[op |-> "write", h |-> h, d |-> d] :
                    h \in {x \in Hs : Len(S.h[x].buf) < MaxData /\ Len(S.o[S.h[x].id].data) < MaxData},
                    d \in {<<1>>, <<2, 3>>}}) \cup
    If("close", {[op |-> "close", h |-> h] : h \in Hs}) \cup
    If("read", {[op |-> "read", h |-> h, n |-> n] :
                    h \in {x \in Hs : Impl = "disk" \/ ~S.h[x].w}, n \in {1, 9}}) \cup
    If("seek", {[op |-> "seek", h |-> h, off |-> a[1], wh |-> a[2]] :
                    h \in {x \in Hs : ~S.h[x].w /\ ~S.h[x].dir},
                    a \in {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<1, 1>>, <<-1, 1>>, <<0, 2>>, <<-1, 2>>, <<2, 2>>, <<0, 5>>}}) \cup
    If("readdir", {[op |-> "readdir", h |-> h, n |-> n, ls |-> Page(h, n)] :
                    h \in {x \in Hs : ~S.h[x].w}, n \in {-1, 0, 1, 2}}) \cup
    If("fstat", {[op |-> "fstat", h |-> h] : h \in Hs}) \cup
    If("stat", {[op |-> "stat", p |-> p] : p \in Paths}) \cup
    If("walk", {[op |-> "walk", p |-> p, acts |-> a] : p \in Paths,
                    a \in {<<>>, <<1>>, <<0, 1>>, <<0, 0, 1>>, <<0, 0, 0, 1>>, <<0, 2>>, <<0, 0, 2>>}}) \cup
    If("remove", {[op |-> "remove", p |-> p] : p \in Removable}) \cup
    If("removeall", {[op |-> "removeall", p |-> p] : p \in Removable}) \cup
    If("reload", IF Impl = "mem" THEN {[op |-> "reload"]} ELSE {})

\* a memory writer's content is what it will publish
Tree(s) == [p \in DOMAIN s.n |-> [k |-> IF s.o[s.n[p]].dir THEN "d" ELSE "f",
                                  pm |-> s.o[s.n[p]].perm, d |-> s.o[s.n[p]].data]]
TreeList(s) == LET q == SetToSortSeq(DOMAIN s.n, Lex)
               IN  [i \in DOMAIN q |-> [p |-> q[i]] @@ Tree(s)[q[i]]]

Edge(h, x, s) ==
    Emit => PrintT("EDGE " \o ToJson([init |-> ini, h |-> h, x |-> x, n |-> TreeList(s)]))

Next == \E e \in Events :
            LET R == Do(cf, S, e)
            IN  /\ Len(hist) < MaxLen
                /\ S' = R.S
                /\ hist' = Append(hist, e)
                /\ last' = [e |-> e, x |-> R.x, pre |-> S]
                /\ UNCHANGED ini
                /\ Edge(hist', R.x, R.S)

Spec == Init /\ [][Next]_vars

\* what can be observed of a state from now on
HandleView(h) ==
    LET r == S.h[h]
        linked == r.p \in DOMAIN S.n /\ S.n[r.p] = r.id
    IN  [w |-> r.w, p |-> r.p, dir |-> r.dir, linked |-> linked,
         data |-> IF Impl = "mem" THEN r.data ELSE S.o[r.id].data,
         twins |-> {g \in DOMAIN S.h : S.h[g].id = r.id},
         pos |-> r.pos, buf |-> r.buf, wr |-> r.wr, open |-> r.open, sk |-> r.sk,
         lsd |-> r.lsd, ls |-> [q \in DOMAIN r.ls |-> [r.ls[q] EXCEPT !.v = 0]],
         ls0 |-> r.ls0, sz |-> r.inf.sz, pm |-> r.inf.pm]
View == <<Tree(S), [h \in Hs |-> HandleView(h)], ini = <<>>>>

---------------------------------------------------------------------------
(* Properties of the contract, stated without reference to how Do works.   *)

Names(s) == DOMAIN s.n
KindOf(s, p) == s.o[s.n[p]].dir
Bytes(s, p) == s.o[s.n[p]].data
Same(s1, s2, p) == /\ (p \in Names(s1)) = (p \in Names(s2))
                   /\ p \in Names(s1) => /\ s1.n[p] = s2.n[p]
                                         /\ s1.o[s1.n[p]] = s2.o[s2.n[p]]
Strict(p, q) == Len(p) < Len(q) /\ \A i \in 1 .. Len(p) : p[i] = q[i]

HasLast == "e" \in DOMAIN last

\* every entry lives in a directory of its own package, up to the root
Rooted == \A p \in Names(S) : Len(p) > 1 => SubSeq(p, 1, Len(p) - 1) \in Names(S) /\ KindOf(S, SubSeq(p, 1, Len(p) - 1))

\* C02
CreateExact == HasLast /\ last.e.op = "create" =>
    IF last.x.r # "ok" THEN \A p \in Paths : Same(last.pre, S, p)
    ELSE /\ last.e.p \in Names(S) /\ ~KindOf(S, last.e.p) /\ Bytes(S, last.e.p) = <<>>
         /\ \A p \in Paths : p = last.e.p \/ Same(last.pre, S, p) \/ (p = <<last.e.p[1]>> /\ p \notin Names(last.pre))
MkdirExact == HasLast /\ last.e.op = "mkdirall" =>
    IF last.x.r # "ok" THEN \A p \in Paths : Same(last.pre, S, p)
    ELSE \A p \in Paths :
            IF p = last.e.p \/ Strict(p, last.e.p)
            THEN /\ p \in Names(S) /\ KindOf(S, p)
                 /\ p \in Names(last.pre) => Same(last.pre, S, p)
            ELSE Same(last.pre, S, p)
\* C03
RemoveExact == HasLast /\ last.e.op \in {"remove", "removeall"} =>
    \A p \in Paths :
        IF last.x.r = "ok" /\ (p = last.e.p \/ (last.e.op = "removeall" /\ Strict(last.e.p, p)))
        THEN p \notin Names(S) ELSE Same(last.pre, S, p)
RemoveWhen == HasLast /\ last.e.op = "remove" =>
    (last.x.r = "ok") = (last.e.p \in Names(last.pre) /\ \A q \in Names(last.pre) : ~Strict(last.e.p, q))
\* C04
WalkExact == HasLast /\ last.e.op = "walk" /\ last.x.r = "ok" =>
    LET vs == last.x.vs
        a(i) == IF i <= Len(last.e.acts) THEN last.e.acts[i] ELSE 0
        pruned(p) == \E i \in DOMAIN vs : a(i) = 1 /\
                        IF KindOf(S, vs[i]) THEN Strict(vs[i], p)
                        ELSE LET d == SubSeq(vs[i], 1, Len(vs[i]) - 1) IN Strict(d, p) /\ Lex(vs[i], p) /\ p # vs[i]
    IN  /\ \A i, j \in DOMAIN vs : i < j => vs[i] # vs[j] /\ Lex(vs[i], vs[j])
        /\ \A i \in DOMAIN vs : vs[i] \in Names(S) /\ (vs[i] = last.e.p \/ Strict(last.e.p, vs[i]))
        /\ \A p \in Names(S) : (p = last.e.p \/ Strict(last.e.p, p)) =>
                (p \in Range(vs)) = (~pruned(p))
\* C06/C01: a reader of the memory file system has a fixed content
Cursor == HasLast /\ last.e.op = "read" /\ last.x.r = "ok" =>
    LET h == last.pre.h[last.e.h]
        c == IF Impl = "mem" THEN h.data ELSE last.pre.o[h.id].data
    IN  \A i \in DOMAIN last.x.d : last.x.d[i] = c[h.pos + i]
ReadOnly == HasLast /\ last.e.op \in {"read", "seek", "readdir", "open", "fopen", "diropen", "stat", "walk", "fstat", "reload"} =>
    \A p \in Paths : Same(last.pre, S, p)
\* C22
OwnPackage == HasLast /\ "p" \in DOMAIN last.e =>
    \A p \in Paths : p[1] # last.e.p[1] => Same(last.pre, S, p)
\* C23
MissingIsMissing == HasLast /\ last.e.op \in {"open", "stat", "remove"} =>
    /\ (last.x.r = "nx") => last.e.p \notin Names(last.pre)
    /\ last.e.p \notin Names(last.pre) => last.x.r \in {"nx", "e*"}
TypeOK == \A p \in Names(S) : p \in Paths
\* a closed handle gives and takes no data
ClosedDead == HasLast /\ last.e.op \in {"read", "write"} /\ ~last.pre.h[last.e.h].open =>
    last.x.r \in {"er", "**"} /\ \A p \in Paths : Same(last.pre, S, p)

\* of every transition, not only of those into new states
Exact == CreateExact /\ MkdirExact /\ RemoveExact /\ RemoveWhen /\ WalkExact /\ Cursor
         /\ ReadOnly /\ OwnPackage /\ MissingIsMissing /\ ClosedDead
Contract == [][Exact']_vars
=============================================================================
