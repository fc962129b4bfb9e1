------------------------------ MODULE MC_Http ------------------------------
(* Every request of up to MaxSegs path elements, with up to MaxRanges      *)
(* ranges where there is content, to a few trees.                          *)
EXTENDS Http, Json
CONSTANTS MaxSegs, MaxRanges, Emit
VARIABLES t, root, req
F(path, n) == [path |-> path, dir |-> FALSE, len |-> n]
D(path) == [path |-> path, dir |-> TRUE, len |-> 0]
Trees == <<
  \* files and directories of the same name as the root, an empty file, no index
  <<D(<<>>), F(<<"go.mod">>, 29), F(<<"main.go">>, 30), D(<<"web">>), F(<<"web", "e">>, 0), F(<<"web", "f">>, 10), D(<<"web", "web">>),
    F(<<"web", "web", "f">>, 1), D(<<"web", "web", "web">>), F(<<"webx">>, 3)>>,
  \* an index, a directory called like an index, an empty directory
  <<D(<<>>), F(<<"go.mod">>, 29), F(<<"main.go">>, 30), D(<<"web">>), D(<<"web", "e">>), F(<<"web", "index.html">>, 7), D(<<"web", "web">>),
    D(<<"web", "web", "index.html">>), F(<<"web", "web", "index.html", "f">>, 2)>>,
  \* an empty index, and one below a file-less directory
  <<D(<<>>), F(<<"go.mod">>, 29), F(<<"index.html">>, 0), F(<<"main.go">>, 30), D(<<"web">>), D(<<"web", "f">>), F(<<"web", "f", "f">>, 70000),
    D(<<"web", "web">>), D(<<"web", "web", "e">>), F(<<"web", "web", "e", "index.html">>, 5)>>
>>
Segs == {"web", "f", "e", "index.html", "..", ".", "", "no"}
Plain == [segs |-> <<>>, slash |-> TRUE, head |-> FALSE, ranges |-> <<>>, since |-> ""]
Init == t \in DOMAIN Trees /\ root \in {<<>>, <<"web">>} /\ req = Plain
T == Trees[t]
\* the path grows from the left, as long as it is plain; one whose last element is empty ends with a slash
Deeper == /\ Len(req.segs) < MaxSegs /\ req.ranges = <<>> /\ req.since = "" /\ ~req.head
          /\ (IF req.segs = <<>> THEN TRUE ELSE ~req.slash \/ Last(req.segs) = "")
          /\ \E s \in Segs, slash \in BOOLEAN : (s = "" => slash) /\ req' = [req EXCEPT !.segs = Append(@, s), !.slash = slash]
Here == Respond(T, root, req)
Vary == /\ req.ranges = <<>> /\ req.since = "" /\ ~req.head
        /\ \E h \in BOOLEAN, s \in {"", "same", "earlier"} : (h \/ s # "") /\ req' = [req EXCEPT !.head = h, !.since = s]
N == T[Here.at].len
Some(n) == [k : {"a", "s"}, a : {x \in {0, 1, n - 1, n, n + 1} : x >= 0}, b : {0}]
           \cup [k : {"ab"}, a : {x \in {0, 1, n - 1, n} : x >= 0}, b : {x \in {0, n - 2, n - 1, n} : x >= 0}] \cup {[k |-> "bad", a |-> 0, b |-> 0]}
Range == /\ Len(req.ranges) < MaxRanges /\ req.since = ""
         /\ Respond(T, root, [req EXCEPT !.ranges = <<>>]).kind = "content"
         /\ LET n == T[Respond(T, root, [req EXCEPT !.ranges = <<>>]).at].len
            IN \E r \in Some(n) : req' = [req EXCEPT !.ranges = Append(@, r)]
Next == (Deeper \/ Vary \/ Range) /\ UNCHANGED <<t, root>>
Spec == Init /\ [][Next]_<<t, root, req>>

\* ---- what a user counts on
Under(path) == Len(path) >= Len(root) /\ SubSeq(path, 1, Len(root)) = root
Contained == Here.at # 0 => Under(T[Here.at].path)
\* a redirect leads, in at most three steps, to something that is none, and to the same file
Resolve(r, loc) ==
  LET dir == IF r.slash THEN r.segs ELSE IF r.segs = <<>> THEN <<>> ELSE Front(r.segs)
      \* what a browser makes of it: no dots, at most the last slash
      url(add, slash) == [Plain EXCEPT !.segs = Clean(dir \o add), !.slash = slash \/ Clean(dir \o add) = <<>>]
      b == Base(r.segs)
  IN IF loc = "./" THEN url(<<>>, TRUE)
     ELSE IF loc = b \o "/" THEN url(<<b>>, TRUE)
     ELSE url(<<"..", b>>, FALSE)
RECURSIVE Follow(_, _)
Follow(r, n) == LET a == Respond(T, root, r) IN IF a.status # 301 \/ n = 0 THEN a ELSE Follow(Resolve(r, a.loc), n - 1)
End == Follow(req, 3)
Dots == {"..", ".", ""}
Settles == Here.status = 301 /\ {req.segs[i] : i \in DOMAIN req.segs} \cap Dots = {} => End.status # 301
Finds == Here.status = 301 /\ {req.segs[i] : i \in DOMAIN req.segs} \cap (Dots \cup {Index}) = {} => End.status = 200
\* never a byte that is not in the file
Inside == \A i \in DOMAIN Here.parts : Here.parts[i][1] >= 0 /\ Here.parts[i][2] >= 0 /\ Here.parts[i][1] + Here.parts[i][2] <= T[Here.at].len
\* everything below the root is found by its own URL, or under that of its directory
Own(i, slash) == [Plain EXCEPT !.segs = SubSeq(T[i].path, Len(root) + 1, Len(T[i].path)), !.slash = slash \/ T[i].path = root]
Reach == req = Plain => \A i \in DOMAIN T : Under(T[i].path) =>
            LET a == Respond(T, root, Own(i, T[i].dir))
            IN IF T[i].dir THEN a.status = 200
               ELSE IF Last(T[i].path) = Index THEN Respond(T, root, Resolve(Own(i, FALSE), a.loc)).at = i
               ELSE a.status = 200 /\ a.at = i /\ a.parts = <<<<0, T[i].len>>>>
Out == Emit => PrintT("CASE " \o ToJson([t |-> t, root |-> root, req |-> req, want |-> Here]))
TreeOut == (Emit /\ req = Plain /\ root = <<>>) => PrintT("TREE " \o ToJson([t |-> t, tree |-> T]))
=============================================================================
