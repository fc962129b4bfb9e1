-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* What a static file server answers for a tree of files: net/http's       *)
(* FileServer over a directory.                                            *)
(*                                                                         *)
(* tree: sequence of [path, dir, len], ordered by the full name; path is   *)
(* the sequence of names, len the length of the file.                      *)
(* root: the path of the directory that is served.                         *)
(* request: [segs, slash, head, ranges, since] - the elements of the path  *)
(* of the URL ("" and dots among them), whether it ends with a slash, HEAD *)
(* or GET, the ranges asked for, and whether If-Modified-Since names the   *)
(* time of the file ("same"), an earlier one, or is absent.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Index == "index.html"
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* the index in tree, 0 if there is none
At(tree, path) == IF \E i \in DOMAIN tree : tree[i].path = path THEN CHOOSE i \in DOMAIN tree : tree[i].path = path ELSE 0

RECURSIVE Clean(_)
Clean(segs) ==
  IF segs = <<>> THEN <<>>
  ELSE LET c == Clean(Front(segs))
           l == Last(segs)
       IN IF l = "" \/ l = "." THEN c
          ELSE IF l = ".." THEN (IF c = <<>> THEN c ELSE Front(c))
          ELSE Append(c, l)

\* the last element of the path as it is written
RECURSIVE Base(_)
Base(segs) == IF segs = <<>> THEN "/" ELSE IF Last(segs) = "" THEN Base(Front(segs)) ELSE Last(segs)

\* children of a directory in order
RECURSIVE Pick(_, _)
Pick(S, n) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Pick(S \ {m}, n)
Children(tree, path) == {i \in DOMAIN tree : Len(tree[i].path) = Len(path) + 1 /\ SubSeq(tree[i].path, 1, Len(path)) = path}
Names(tree, path) == LET s == Pick(Children(tree, path), 0)
                     IN [k \in DOMAIN s |-> Last(tree[s[k]].path) \o (IF tree[s[k]].dir THEN "/" ELSE "")]

Answer == [status |-> 0, loc |-> "", kind |-> "none", at |-> 0, parts |-> <<>>, range |-> <<>>, list |-> <<>>]
Redirect(to) == [Answer EXCEPT !.status = 301, !.loc = to]
Error(s) == [Answer EXCEPT !.status = s]

\* ---- ranges: [k, a, b], k being "ab" (a-b), "a" (a-), "s" (-a), or "bad"
\* the ranges that are meant, as <<first, length>>; errors: "bad", "none" if none of them overlaps
RECURSIVE Ranges(_, _)
Ranges(rs, n) ==
  IF rs = <<>> THEN [err |-> "", lost |-> FALSE, out |-> <<>>]
  ELSE LET p == Ranges(Front(rs), n)
           r == Last(rs)
           add(x, len) == [p EXCEPT !.out = Append(@, <<x, len>>)]
           min(x, y) == IF x < y THEN x ELSE y
       IN IF p.err # "" THEN p
          ELSE CASE r.k = "bad" -> [p EXCEPT !.err = "bad"]
                 [] r.k = "s" -> add(n - min(r.a, n), min(r.a, n))
                 [] r.a >= n -> [p EXCEPT !.lost = TRUE]
                 [] r.k = "a" -> add(r.a, n - r.a)
                 [] r.b < r.a -> [p EXCEPT !.err = "bad"]
                 [] OTHER -> add(r.a, min(r.b, n - 1) - r.a + 1)
RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE Last(ps)[2] + Sum(Front(ps))

Content(tree, i, req) ==
  LET n == tree[i].len
      whole == [Answer EXCEPT !.status = 200, !.kind = "content", !.at = i, !.parts = <<<<0, n>>>>]
      rs == Ranges(req.ranges, n)
  IN IF req.since = "same" THEN [Answer EXCEPT !.status = 304]
     ELSE IF req.ranges = <<>> THEN whole
     ELSE IF rs.err # "" THEN Error(416)
     ELSE IF rs.out = <<>> THEN (IF rs.lost /\ n > 0 THEN [Error(416) EXCEPT !.range = <<-1, -1, n>>] ELSE whole)
     ELSE IF Sum(rs.out) > n THEN whole
     ELSE [whole EXCEPT !.status = 206, !.parts = rs.out,
                        !.range = IF Len(rs.out) = 1 THEN <<rs.out[1][1], rs.out[1][1] + rs.out[1][2] - 1, n>> ELSE <<>>]

List(tree, i, req) ==
  IF req.since = "same" THEN [Answer EXCEPT !.status = 304]
  ELSE [Answer EXCEPT !.status = 200, !.kind = "list", !.list = Names(tree, tree[i].path)]

Respond(tree, root, req) ==
  LET p == root \o Clean(req.segs)
      i == At(tree, p)
      x == At(tree, Append(p, Index))
  IN IF req.segs # <<>> /\ ~req.slash /\ Last(req.segs) = Index THEN Redirect("./")
     ELSE IF i = 0 THEN Error(404)
     ELSE IF tree[i].dir
     THEN IF ~req.slash THEN Redirect(Base(req.segs) \o "/")
          ELSE IF x = 0 THEN List(tree, i, req)
          ELSE IF tree[x].dir THEN List(tree, x, req)
          ELSE Content(tree, x, req)
     ELSE IF ~req.slash THEN Content(tree, i, req)
     ELSE IF Base(req.segs) \in {"/", "."} THEN Error(500)
     ELSE Redirect("../" \o Base(req.segs))
=============================================================================
