--------------------------------- MODULE Cmd ---------------------------------
(***************************************************************************)
(* The pkger command: what a command line means, and what it does to the   *)
(* module it is run in.                                                    *)
(*                                                                         *)
(* A line is a sequence of words.  A word is                               *)
(*   [w, flag, has, bool, p, path, dir, v]                                 *)
(* w: the text; flag: the flag it would be ("" for none, "--" for the end  *)
(* of the flags); has: with "=value"; bool: the value as a Boolean, "T",   *)
(* "F" or "" for neither; p, path: the file that w names; dir: the         *)
(* directory below the root it is as an argument of -o; v: the same for    *)
(* the value.                                                              *)
(***************************************************************************)
EXTENDS Decls

Subs == {"info", "list", "parse", "path", "serve", "stat"}
Bools(c) == CASE c = "" -> {"h"} [] c = "list" -> {"json"} [] c \in {"parse", "path"} -> {"h"} [] OTHER -> {}
Strings(c) == CASE c = "" -> {"o", "include"} [] c = "list" -> {"include"} [] OTHER -> {}
\* those that take their arguments as they are
Raw == {"info", "serve", "stat"}

Plain(x) == [w |-> x.w, p |-> x.p, path |-> x.path, dir |-> x.dir]
(* the flags of command c from word i on; set: what was set so far, in order *)
RECURSIVE Flags(_, _, _, _)
Flags(c, ws, i, set) ==
  IF i > Len(ws) \/ ws[i].flag = "" THEN [st |-> "ok", rest |-> i, set |-> set]
  ELSE IF ws[i].flag = "--" THEN [st |-> "ok", rest |-> i + 1, set |-> set]
  ELSE LET x == ws[i]  bad == [st |-> "bad", rest |-> i, set |-> set]
       IN IF x.flag \in Bools(c)
          THEN IF x.has /\ x.bool = "" THEN bad
               ELSE Flags(c, ws, i + 1, Append(set, [flag |-> x.flag, on |-> x.bool # "F", x |-> x.v]))
          ELSE IF x.flag \in Strings(c)
          THEN IF x.has THEN Flags(c, ws, i + 1, Append(set, [flag |-> x.flag, on |-> TRUE, x |-> x.v]))
               ELSE IF i = Len(ws) THEN bad
               ELSE Flags(c, ws, i + 2, Append(set, [flag |-> x.flag, on |-> TRUE, x |-> Plain(ws[i + 1])]))
          ELSE IF x.flag \in {"h", "help"} THEN [bad EXCEPT !.st = "help"]
          ELSE bad

Of(set, f) == SelectSeq(set, LAMBDA s : s.flag = f)
On(set, f) == LET s == Of(set, f) IN s # <<>> /\ s[Len(s)].on
Words(set, f) == LET s == Of(set, f) IN [k \in DOMAIN s |-> s[k].x]

Plains(ws) == [k \in DOMAIN ws |-> Plain(ws[k])]
M(kind, json, inc, out, args) == [kind |-> kind, json |-> json, inc |-> inc, out |-> out, args |-> args]
Usage == M("usage", FALSE, <<>>, <<>>, <<>>)
Wrong == M("wrong", FALSE, <<>>, <<>>, <<>>)

Sub(c, ws) ==
  IF \E k \in DOMAIN ws : ws[k].w = "-h" THEN Usage
  ELSE IF c \in Raw THEN M(c, FALSE, <<>>, <<>>, Plains(ws))
  ELSE LET f == Flags(c, ws, 1, <<>>)  args == SubSeq(ws, f.rest, Len(ws))
       IN CASE f.st = "bad" -> Wrong
            [] f.st = "help" \/ On(f.set, "h") -> Usage
            [] c = "path" /\ args = <<>> -> Wrong
            [] c = "list" -> M(c, On(f.set, "json"), Words(f.set, "include"), <<>>, <<>>)
            [] OTHER -> M(c, FALSE, <<>>, <<>>, Plains(args))

(* what a line means *)
Meaning(ws) ==
  LET f == Flags("", ws, 1, <<>>)  rest == SubSeq(ws, f.rest, Len(ws))  outs == Words(f.set, "o")
  IN CASE f.st = "bad" -> Wrong
       [] f.st = "help" \/ On(f.set, "h") -> Usage
       [] rest = <<>> -> M("pack", FALSE, Words(f.set, "include"), IF outs = <<>> THEN <<>> ELSE outs[Len(outs)].dir, <<>>)
       [] rest[1].w \notin Subs -> Wrong
       [] OTHER -> Sub(rest[1].w, Tail(rest))

Kinds == Subs \cup {"usage", "wrong", "pack"}

-----------------------------------------------------------------------------
(* What it does.  app: the module; tree: as in Decls, with h what a file is, and bad, a Go file that is none; *)
(* decls: as in Decls, with src, the file it is in; pkgs: the packages, as   *)
(* [name, p, path]; cwd: where, below the root                               *)
Out(app, m) == [p |-> app, path |-> Append(m.out, "pkged.go")]
Without(tree, t) == SelectSeq(tree, LAMBDA e : ~At(e, t))
Included(decls, m) == decls \cup {[fn |-> "-include", p |-> m.inc[k].p, path |-> m.inc[k].path, src |-> <<>>] : k \in DOMAIN m.inc}
IsDir(tree, app, path) == \E i \in DOMAIN tree : tree[i].dir /\ At(tree[i], [p |-> app, path |-> path])
Removed(app, m) == IF m.kind = "pack" THEN Out(app, m) ELSE [p |-> app, path |-> <<"pkged.go">>]

\* where package p is; the root of the module is one, whatever is in it
Where(pkgs, app, p) == {[p |-> x.p, path |-> x.path] : x \in {y \in pkgs : y.name = p}} \cup {[p |-> q, path |-> <<>>] : q \in {app} \cap {p}}
\* what is in a package below the root of a module has a name with the path of the package, too
RECURSIVE Aliased(_, _, _, _)
Aliased(tree, pkgs, app, ps) ==
  IF ps = {} THEN tree
  ELSE LET p == CHOOSE p \in ps : TRUE
           rest == Aliased(tree, pkgs, app, ps \ {p})
       IN IF Where(pkgs, app, p) = {} THEN rest
          ELSE LET w == CHOOSE w \in Where(pkgs, app, p) : TRUE
                   some == SelectSeq(tree, LAMBDA e : AtOrBelow(e, w))
               IN rest \o [k \in DOMAIN some |-> [some[k] EXCEPT !.p = p, !.path = SubSeq(@, Len(w.path) + 1, Len(@))]]
\* where what x names is
Found(tree, pkgs, app, x) ==
  {i \in DOMAIN tree : \E w \in Where(pkgs, app, x.p) : At(tree[i], [p |-> w.p, path |-> w.path \o x.path])}
Stats(tree, pkgs, app, x) ==
  LET i == CHOOSE i \in Found(tree, pkgs, app, x) : TRUE
      all == IF tree[i].dir THEN SelectSeq(tree, LAMBDA e : Below(e, tree[i]) /\ Len(e.path) = Len(tree[i].path) + 1) ELSE <<tree[i]>>
  IN [k \in DOMAIN all |-> [name |-> Name(all[k]), dir |-> all[k].dir, s |-> all[k].s]]
Root == [w |-> ".", p |-> "", path |-> <<>>, dir |-> <<>>]

\* the declarations in the files at or below w
Said(app, decls, w) == {[fn |-> d.fn, p |-> d.p, path |-> d.path, src |-> d.src] :
                    d \in {e \in decls : AtOrBelow([p |-> app, path |-> e.src], w)}}

Good == [ok |-> TRUE, docs |-> <<>>, files |-> {}, told |-> {}, said |-> {}]
Bad == [Good EXCEPT !.ok = FALSE]
(* ok: exit status zero; docs: what info and stat print, in order; files: what list prints or pack packs; *)
(* told: what path prints; said: what parse prints                                                          *)
Does(app, tree, decls, pkgs, cwd, m) ==
  CASE m.kind = "usage" -> Good
    [] m.kind = "wrong" -> Bad
    [] m.kind \in {"list", "pack"} ->
         LET t == Aliased(Without(tree, Removed(app, m)), pkgs, app, {m.inc[k].p : k \in DOMAIN m.inc} \ {tree[i].p : i \in DOMAIN tree})
             ds == Included(decls, m)
             fs == IF m.kind = "list" THEN Files(t, ds) ELSE Packed(t, ds)
         IN IF Fails(t, ds) \/ (\E i \in DOMAIN t : t[i].bad) \/ (m.kind = "pack" /\ ~IsDir(t, app, m.out)) THEN Bad
            ELSE [Good EXCEPT !.files = {[p |-> t[i].p, path |-> t[i].path] : i \in fs}]
    [] m.kind = "path" -> [Good EXCEPT !.told = {[w |-> m.args[k].w, p |-> m.args[k].p, path |-> m.args[k].path] : k \in DOMAIN m.args}]
    [] m.kind = "parse" ->
         LET args == IF m.args = <<>> THEN <<Root>> ELSE m.args
             at(x) == IF x.w = "." THEN {[p |-> app, path |-> cwd]} ELSE {[p |-> y.p, path |-> y.path] : y \in {z \in pkgs : z.name = x.w}}
         IN IF \E k \in DOMAIN args : at(args[k]) = {} \/ (\E i \in DOMAIN tree : tree[i].bad /\ \E w \in at(args[k]) : AtOrBelow(tree[i], w)) THEN Bad
            ELSE [Good EXCEPT !.said = {[w |-> args[k].w, ds |-> Said(app, decls, CHOOSE w \in at(args[k]) : TRUE)] : k \in DOMAIN args}]
    [] m.kind = "info" ->
         LET args == IF m.args = <<>> THEN <<Root>> ELSE m.args
             at(x) == IF x.w = "." THEN {[p |-> app, path |-> cwd]} ELSE Where(pkgs, app, x.w)
             stop == {k \in DOMAIN args : at(args[k]) = {}}
             n == IF stop = {} THEN Len(args) ELSE (CHOOSE k \in stop : \A j \in stop : k <= j) - 1
         IN [Good EXCEPT !.ok = stop = {}, !.docs = [k \in 1..n |-> CHOOSE w \in at(args[k]) : TRUE]]
    [] m.kind = "stat" ->
         LET args == IF m.args = <<>> THEN <<[Root EXCEPT !.p = app]>> ELSE m.args
             stop == {k \in DOMAIN args : Found(tree, pkgs, app, args[k]) = {}}
             n == IF stop = {} THEN Len(args) ELSE (CHOOSE k \in stop : \A j \in stop : k <= j) - 1
             RECURSIVE all(_)
             all(k) == IF k > n THEN <<>> ELSE Stats(tree, pkgs, app, args[k]) \o all(k + 1)
         IN [Good EXCEPT !.ok = stop = {}, !.docs = all(1)]
    [] m.kind = "serve" -> Bad
\* it alone may be there or not, or be another, afterwards
Touches(app, m) == IF m.kind \in {"list", "pack"} THEN {Removed(app, m)} ELSE {}
=============================================================================
