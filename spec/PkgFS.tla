------------------------------- MODULE PkgFS -------------------------------
(***************************************************************************)
(* The file-system contract of pkger: what every call on a pkging.Pkger    *)
(* (and on the handles it returns) has to answer, and how it changes the   *)
(* state.  One operator per call; Do(cf, S, e) dispatches on e.op.         *)
(*                                                                         *)
(* cf is the configuration of a trace: cf.impl = "mem" (pkging/mem) or     *)
(* "disk" (pkging/stdos) where the two legitimately differ, cf.reg = the   *)
(* packages whose here.Info is known, cf.rn = name of each package's root. *)
(*                                                                         *)
(* A path is <<package, component, component, ...>>, all of them Nat whose *)
(* order is the byte order of the real names.                              *)
(*                                                                         *)
(* State record S:                                                         *)
(*   n  : path -> object            the name space                         *)
(*   o  : object -> [dir,perm,data,v]                                      *)
(*   h  : handle -> handle record   every handle ever returned             *)
(*   mt : version -> time           modification times observed so far     *)
(*   k  : next fresh object/version                                        *)
(* A version v identifies "the content as of one creation or write", so    *)
(* that a modification time may only change when v does.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

EmptyF == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsRoot(p) == Len(p) = 1
Under(r, p) == Len(r) <= Len(p) /\ SubSeq(p, 1, Len(r)) = r   \* p is r or below it

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)       \* per-directory lexical order, directory before contents

Exists(S, p) == p \in DOMAIN S.n
Obj(S, p) == S.o[S.n[p]]
IsDir(S, p) == Exists(S, p) /\ Obj(S, p).dir
IsFile(S, p) == Exists(S, p) /\ ~Obj(S, p).dir
Below(S, p) == {q \in DOMAIN S.n : Under(p, q)}
Children(S, p) == {q \in DOMAIN S.n : Len(q) = Len(p) + 1 /\ Under(p, q)}
FileAbove(S, p) == \E i \in 1 .. Len(p) - 1 : IsFile(S, SubSeq(p, 1, i))

Zeros(n) == [i \in 1 .. n |-> 0]
\* bytes d written at offset pos into data
WriteAt(data, pos, d) ==
    LET pad == IF pos > Len(data) THEN data \o Zeros(pos - Len(data)) ELSE data
    IN  SubSeq(pad, 1, pos) \o d \o SubSeq(pad, pos + Len(d) + 1, Len(pad))
Lesser(a, b) == IF a < b THEN a ELSE b

(*************************** responses *************************************)
(* error classes: "ok", "nx" (os.IsNotExist holds), "eof" (io.EOF),        *)
(* "er" (any other).  "e*" = any error, "**" = anything.                   *)
ErrMatch(x, a) == \/ x = a
                  \/ x = "e*" /\ a \in {"nx", "er"}
                  \/ x = "oe" /\ a \in {"ok", "eof"}
                  \/ x = "**"

\* what every view of an entry has to say; -1 / 0 = unspecified
InfoOf(cf, S, p, ob) ==
    [nm |-> IF IsRoot(p) THEN cf.rn[p[1]] ELSE p[Len(p)],
     sz |-> IF ob.dir THEN -1 ELSE Len(ob.data),
     pm |-> ob.perm,
     k  |-> IF ob.dir THEN "d" ELSE "f",
     v  |-> IF ob.dir /\ cf.impl = "disk" THEN 0 ELSE ob.v]

\* the fields of an observed info that disagree with the expected one
InfoDiff(S, x, a) ==
    (IF x.nm # -1 /\ x.nm # a.nm THEN {"name"} ELSE {}) \cup
    (IF x.sz # -1 /\ x.sz # a.sz THEN {"size"} ELSE {}) \cup
    (IF x.pm # -1 /\ x.pm # a.pm THEN {"perm"} ELSE {}) \cup
    (IF x.k # a.k THEN {"kind"} ELSE {}) \cup
    (IF x.v # 0 /\ x.v \in DOMAIN S.mt /\ S.mt[x.v] # a.mt THEN {"mtime"} ELSE {})

Bind(S, x, a) == IF x.v = 0 \/ x.v \in DOMAIN S.mt THEN S ELSE [S EXCEPT !.mt = Put(@, x.v, a.mt)]

(*************************** handles ***************************************)
\* w: from Create.  live: object behind it (disk: always; mem: writers only)
\* data: what a mem reader sees.  inf: the info as of Open.
\* ls: entries still to be listed, -1 before the first Readdir; ls0: all of them.
NewHandle(cf, S, p, id, w) ==
    [w |-> w, p |-> p, id |-> id, dir |-> S.o[id].dir, data |-> S.o[id].data,
     inf |-> InfoOf(cf, S, p, S.o[id]), pos |-> 0, buf |-> <<>>, wr |-> FALSE,
     sk |-> FALSE, open |-> TRUE, lsd |-> FALSE, ls |-> EmptyF, ls0 |-> {}]

Content(cf, S, h) == IF cf.impl = "mem" THEN h.data ELSE S.o[h.id].data

(*************************** state changes *********************************)
AddObj(S, p, ob) ==
    [S EXCEPT !.n = Put(@, p, S.k), !.o = Put(@, S.k, [ob EXCEPT !.v = S.k]), !.k = @ + 1]

RECURSIVE MkDirs(_, _, _)
MkDirs(S, p, perm) ==       \* create p and what is missing up to the nearest existing ancestor
    IF p = <<>> \/ Exists(S, p) THEN S
    ELSE AddObj(MkDirs(S, Parent(p), perm), p, [dir |-> TRUE, perm |-> perm, data |-> <<>>, v |-> 0])

(*************************** the calls *************************************)
\* each returns [S |-> next state, x |-> expected response]

DoMkdirAll(cf, S, e) ==
    IF IsDir(S, e.p) THEN [S |-> S, x |-> [r |-> "ok"]]
    ELSE IF IsFile(S, e.p) \/ FileAbove(S, e.p) THEN [S |-> S, x |-> [r |-> "e*"]]
    ELSE [S |-> MkDirs(S, e.p, e.perm), x |-> [r |-> "ok"]]

DoCreate(cf, S, e) ==
    LET par == Parent(e.p)
        \* the in-memory root springs into being with its first file
        auto == cf.impl = "mem" /\ Len(e.p) = 2 /\ ~Exists(S, par)
        S1 == IF auto THEN AddObj(S, par, [dir |-> TRUE, perm |-> 493, data |-> <<>>, v |-> 0]) ELSE S
        fail(c) == [S |-> S, x |-> [r |-> c]]
    IN  IF e.p[1] \notin cf.reg THEN fail("e*")
        ELSE IF IsRoot(e.p) \/ IsDir(S, e.p) THEN fail("er")
        ELSE IF FileAbove(S, e.p) THEN fail("e*")
        ELSE IF ~Exists(S1, par) THEN fail("nx")
        ELSE IF cf.impl = "disk" /\ Exists(S, e.p) THEN   \* truncate in place
             LET id == S.n[e.p]
                 S2 == [S EXCEPT !.o[id].data = <<>>, !.o[id].v = S.k, !.k = @ + 1]
             IN  [S |-> [S2 EXCEPT !.h = Put(@, e.nh, NewHandle(cf, S2, e.p, id, TRUE))],
                  x |-> [r |-> "ok", p |-> e.p, i |-> InfoOf(cf, S2, e.p, S2.o[id])]]
        ELSE LET S2 == AddObj(S1, e.p, [dir |-> FALSE, perm |-> 420, data |-> <<>>, v |-> 0])
                 id == S2.n[e.p]
             IN  [S |-> [S2 EXCEPT !.h = Put(@, e.nh, NewHandle(cf, S2, e.p, id, TRUE))],
                  x |-> [r |-> "ok", p |-> e.p, i |-> InfoOf(cf, S2, e.p, S2.o[id])]]

DoWrite(cf, S, e) ==
    LET h == S.h[e.h]
    IN  IF ~h.open \/ ~h.w THEN [S |-> S, x |-> [r |-> "er", n |-> 0]]
        ELSE IF cf.impl = "mem"
        THEN [S |-> [S EXCEPT !.h[e.h].buf = @ \o e.d, !.h[e.h].wr = TRUE],
              x |-> [r |-> "ok", n |-> Len(e.d)]]
        ELSE IF e.d = <<>> THEN [S |-> S, x |-> [r |-> "ok", n |-> 0]]
        ELSE [S |-> [S EXCEPT !.o[h.id].data = WriteAt(@, h.pos, e.d),
                              !.o[h.id].v = S.k, !.k = @ + 1,
                              !.h[e.h].pos = @ + Len(e.d), !.h[e.h].wr = TRUE],
              x |-> [r |-> "ok", n |-> Len(e.d)]]

DoClose(cf, S, e) ==
    LET h == S.h[e.h]
        S1 == [S EXCEPT !.h[e.h].open = FALSE]
    IN  IF ~h.open THEN [S |-> S, x |-> [r |-> "**"]]
        ELSE IF cf.impl = "mem" /\ h.wr     \* publish what has been written
        THEN LET S2 == [S1 EXCEPT !.o[h.id].data = h.buf, !.o[h.id].v = S.k, !.k = @ + 1]
             IN  [S |-> [S2 EXCEPT !.h[e.h].inf = InfoOf(cf, S2, h.p, S2.o[h.id])], x |-> [r |-> "ok"]]
        ELSE [S |-> S1, x |-> [r |-> "ok"]]

\* open p: used by Open, File.Open and Dir.Open
OpenAt(cf, S, e, p) ==
    IF Exists(S, p)
    THEN [S |-> [S EXCEPT !.h = Put(@, e.nh, NewHandle(cf, S, p, S.n[p], FALSE))],
          x |-> [r |-> "ok", p |-> p, i |-> InfoOf(cf, S, p, Obj(S, p))]]
    ELSE [S |-> S, x |-> [r |-> "nx"]]

DoOpen(cf, S, e) == OpenAt(cf, S, e, e.p)
DoFopen(cf, S, e) == OpenAt(cf, S, e, S.h[e.h].p \o e.rel)
\* pkger.Dir(p).Open(rel): the directory itself has to be there
DoDirOpen(cf, S, e) == IF ~Exists(S, e.p) THEN [S |-> S, x |-> [r |-> "nx"]]
                       ELSE OpenAt(cf, S, e, e.p \o e.rel)

DoRead(cf, S, e) ==
    LET h == S.h[e.h]
        c == Content(cf, S, h)
        got == SubSeq(c, h.pos + 1, Lesser(Len(c), h.pos + e.n))
    IN  IF e.n = 0 THEN [S |-> S, x |-> [r |-> IF h.open /\ ~h.dir THEN "oe" ELSE "**", d |-> <<>>]]
        ELSE IF ~h.open \/ h.dir THEN [S |-> S, x |-> [r |-> "er", d |-> <<>>]]
        ELSE IF h.pos >= Len(c) THEN [S |-> S, x |-> [r |-> "eof", d |-> <<>>]]
        ELSE [S |-> [S EXCEPT !.h[e.h].pos = @ + Len(got)], x |-> [r |-> "ok", d |-> got]]

DoSeek(cf, S, e) ==
    LET h == S.h[e.h]
        base == CASE e.wh = 0 -> 0 [] e.wh = 1 -> h.pos [] e.wh = 2 -> Len(Content(cf, S, h))
                  [] OTHER -> -1000000
        to == base + e.off
    IN  IF ~h.open THEN [S |-> S, x |-> [r |-> "er", pos |-> -1]]
        ELSE IF h.dir \/ h.w THEN [S |-> [S EXCEPT !.h[e.h].sk = TRUE], x |-> [r |-> "**", pos |-> -1]]  \* not specified
        ELSE IF to < 0 THEN [S |-> [S EXCEPT !.h[e.h].sk = TRUE], x |-> [r |-> "er", pos |-> -1]]
        ELSE [S |-> [S EXCEPT !.h[e.h].pos = to, !.h[e.h].sk = TRUE], x |-> [r |-> "ok", pos |-> to]]

\* infos of the children of directory p
ChildInfos(cf, S, p) == [q \in Children(S, p) |-> InfoOf(cf, S, q, Obj(S, q))]

DoReaddir(cf, S, e) ==
    LET h == S.h[e.h]
        fresh == ChildInfos(cf, S, h.p)
        all == IF h.lsd THEN h.ls ELSE fresh
        \* a disk directory that changed under the handle: unspecified
        wild == cf.impl = "disk" /\ \/ ~IsDir(S, h.p)
                                    \/ h.sk
                                    \/ h.id # S.n[h.p]
                                    \/ h.lsd /\ h.ls0 # DOMAIN fresh
        \* the disk stats each entry when it returns it
        cur == IF cf.impl = "disk" /\ ~wild THEN [q \in DOMAIN all |-> fresh[q]] ELSE all
        m == IF e.n <= 0 THEN Cardinality(DOMAIN all) ELSE Lesser(e.n, Cardinality(DOMAIN all))
        returned == {q \in DOMAIN all : q[Len(q)] \in {e.ls[i].nm : i \in 1 .. Len(e.ls)}}
        S1 == [S EXCEPT !.h[e.h].lsd = TRUE,
                        !.h[e.h].ls0 = IF h.lsd THEN @ ELSE DOMAIN fresh,
                        !.h[e.h].ls = Del(cur, IF e.n <= 0 THEN DOMAIN all ELSE returned)]
    IN  IF ~h.open \/ ~h.dir THEN [S |-> S, x |-> [r |-> "er", m |-> 0, all |-> EmptyF]]
        ELSE IF wild THEN [S |-> [S EXCEPT !.h[e.h].lsd = TRUE, !.h[e.h].ls0 = {<<>>}],
                           x |-> [r |-> "**", m |-> -1, all |-> EmptyF]]
        ELSE IF e.n > 0 /\ DOMAIN all = {} THEN [S |-> S1, x |-> [r |-> "eof", m |-> 0, all |-> EmptyF]]
        ELSE [S |-> S1, x |-> [r |-> "ok", m |-> m, all |-> cur]]

DoStat(cf, S, e) ==
    IF Exists(S, e.p) THEN [S |-> S, x |-> [r |-> "ok", i |-> InfoOf(cf, S, e.p, Obj(S, e.p))]]
    ELSE [S |-> S, x |-> [r |-> "nx"]]

\* a handle keeps describing the entry as it was opened (closing a writer of
\* the memory file system refreshes it)
DoFstat(cf, S, e) ==
    LET h == S.h[e.h]
        i == IF cf.impl = "disk" /\ h.w THEN [h.inf EXCEPT !.sz = -1, !.v = 0] ELSE h.inf
    IN  [S |-> S, x |-> [r |-> "ok", i |-> i]]

\* Walk: acts[k] is what the k-th callback returns: 0 nil, 1 SkipDir, 2 an error
RECURSIVE Visit(_, _, _, _, _, _)
Visit(S, ps, i, skip, acts, vs) ==
    IF i > Len(ps) THEN [vs |-> vs, r |-> "ok"]
    ELSE IF skip # <<>> /\ Under(skip, ps[i]) THEN Visit(S, ps, i + 1, skip, acts, vs)
    ELSE LET k == Len(vs) + 1
             a == IF k <= Len(acts) THEN acts[k] ELSE 0
             vs1 == Append(vs, ps[i])
         IN  CASE a = 0 -> Visit(S, ps, i + 1, skip, acts, vs1)
               [] a = 1 -> Visit(S, ps, i + 1, IF IsDir(S, ps[i]) THEN ps[i] ELSE Parent(ps[i]), acts, vs1)
               [] OTHER -> [vs |-> vs1, r |-> "x"]

WalkSeq(S, p) == SetToSortSeq(Below(S, p), Lex)
DoWalk(cf, S, e) ==
    LET w == Visit(S, WalkSeq(S, e.p), 1, <<>>, e.acts, <<>>)
    IN  IF Below(S, e.p) = {}
        THEN [S |-> S, x |-> [r |-> "**", vs |-> <<>>, is |-> <<>>]]  \* memory: nothing to do; disk: an error
        ELSE [S |-> S, x |-> [r |-> w.r, vs |-> w.vs,
                              is |-> [j \in 1 .. Len(w.vs) |-> InfoOf(cf, S, w.vs[j], Obj(S, w.vs[j]))]]]

DoRemove(cf, S, e) ==
    IF ~Exists(S, e.p) THEN [S |-> S, x |-> [r |-> "nx"]]
    ELSE IF Below(S, e.p) # {e.p} THEN [S |-> S, x |-> [r |-> "er"]]
    ELSE [S |-> [S EXCEPT !.n = Del(@, {e.p})], x |-> [r |-> "ok"]]

DoRemoveAll(cf, S, e) ==
    [S |-> [S EXCEPT !.n = Del(@, Below(S, e.p))],
     x |-> [r |-> IF FileAbove(S, e.p) THEN "**" ELSE "ok"]]

\* serialise and load again: the same name space, all handles given up
DoReload(cf, S, e) == [S |-> [S EXCEPT !.h = EmptyF], x |-> [r |-> "ok"]]

\* name resolution on its own
DoParse(cf, S, e) == [S |-> S, x |-> [r |-> "ok", p |-> e.p]]

\* descriptors held for the library (disk): one for each open handle
DoFds(cf, S, e) ==
    [S |-> S, x |-> [r |-> "ok", n |-> Cardinality({h \in DOMAIN S.h : S.h[h].open})]]

\* a call that gives out no handle and does not concern the packages at hand:
\* reading sources, listing, packing, copying into memory
DoOther(cf, S, e) == [S |-> S, x |-> [r |-> "**"]]

\* observation of everything: Stat of every name in use, and the raw content
DoSnap(cf, S, e) == [S |-> S, x |-> [r |-> "ok"]]

Do(cf, S, e) ==
    CASE e.op = "mkdirall"  -> DoMkdirAll(cf, S, e)
      [] e.op = "create"    -> DoCreate(cf, S, e)
      [] e.op = "write"     -> DoWrite(cf, S, e)
      [] e.op = "close"     -> DoClose(cf, S, e)
      [] e.op = "open"      -> DoOpen(cf, S, e)
      [] e.op = "fopen"     -> DoFopen(cf, S, e)
      [] e.op = "diropen"   -> DoDirOpen(cf, S, e)
      [] e.op = "read"      -> DoRead(cf, S, e)
      [] e.op = "seek"      -> DoSeek(cf, S, e)
      [] e.op = "readdir"   -> DoReaddir(cf, S, e)
      [] e.op = "stat"      -> DoStat(cf, S, e)
      [] e.op = "fstat"     -> DoFstat(cf, S, e)
      [] e.op = "walk"      -> DoWalk(cf, S, e)
      [] e.op = "remove"    -> DoRemove(cf, S, e)
      [] e.op = "removeall" -> DoRemoveAll(cf, S, e)
      [] e.op = "reload"    -> DoReload(cf, S, e)
      [] e.op = "parse"     -> DoParse(cf, S, e)
      [] e.op = "fds"       -> DoFds(cf, S, e)
      [] e.op = "other"     -> DoOther(cf, S, e)
      [] e.op = "snap"      -> DoSnap(cf, S, e)

(*************************** initial states ********************************)
RECURSIVE FromList(_, _)
FromList(S, l) ==     \* l: sequence of [p, dir, perm, data]
    IF l = <<>> THEN S
    ELSE FromList(AddObj(S, Head(l).p, [dir |-> Head(l).k = "d", perm |-> Head(l).pm,
                                        data |-> Head(l).d, v |-> 0]), Tail(l))
Blank == [n |-> EmptyF, o |-> EmptyF, h |-> EmptyF, mt |-> EmptyF, k |-> 1]
=============================================================================
