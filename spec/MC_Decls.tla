----------------------------- MODULE MC_Decls -----------------------------
(* Every set of up to MaxDecls declarations over a small pair of modules.  *)
EXTENDS Decls, Json
CONSTANTS Kinds, MaxDecls, Emit
VARIABLES decls
A == "app.test/app"
D == "dep.test/dep"
E(p, path, dir) == [p |-> p, path |-> path, dir |-> dir]
\* in the order of "package:/path"
Tree == <<E(A, <<>>, TRUE), E(A, <<"a">>, TRUE), E(A, <<"a", "b">>, TRUE), E(A, <<"a", "b", "w">>, FALSE), E(A, <<"a", "b", "y.tmp">>, FALSE),
          E(A, <<"a", "x">>, FALSE), E(A, <<"ab">>, TRUE), E(A, <<"ab", "z">>, FALSE), E(A, <<"go.mod">>, FALSE),
          E(A, <<"main.go">>, FALSE), E(A, <<"sub">>, TRUE), E(A, <<"sub", "s.go">>, FALSE),
          E(D, <<>>, TRUE), E(D, <<"a">>, TRUE), E(D, <<"a", "x">>, FALSE), E(D, <<"dep.go">>, FALSE), E(D, <<"go.mod">>, FALSE)>>
Targets == {[p |-> A, path |-> q] : q \in {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "y.tmp">>, <<"a", "x">>, <<"ab">>, <<"no">>, <<"a", "no">>}}
           \cup {[p |-> D, path |-> q] : q \in {<<"a">>, <<"a", "x">>, <<"no">>}}
All == {[fn |-> k, p |-> t.p, path |-> t.path] : k \in Kinds, t \in Targets}

Init == decls = {}
Next == Cardinality(decls) < MaxDecls /\ \E d \in All \ decls : decls' = decls \cup {d}
Spec == Init /\ [][Next]_decls

\* what is created is not listed, unless it is named below something created
NotCreated == \A i \in Files(Tree, decls) : ~Created(decls, Tree[i])
\* a file that is listed is there because something at or above it was named
Named == \A i \in Files(Tree, decls) : \E d \in decls : d.fn \in Namers /\ AtOrBelow(Tree[i], d)
\* what is named and there is listed
Listed == \A d \in decls : d.fn \in Namers /\ ~Created(decls, d) /\ Exists(Tree, d) => \E i \in Files(Tree, decls) : At(Tree[i], d)
\* declarations of one package have no effect on another
Apart == \A p \in {A, D} : {i \in Files(Tree, decls) : Tree[i].p = p} = Files(Tree, {d \in decls : d.p = p})
\* a further declaration that names something never takes anything away
Monotone == [][\A d \in decls' \ decls : d.fn \in Namers => Files(Tree, decls) \subseteq Files(Tree, decls')]_decls
Out == Emit => PrintT("CASE " \o ToJson([decls |-> decls, err |-> Fails(Tree, decls), files |-> Files(Tree, decls),
                                        packed |-> Packed(Tree, decls)]))
TreeOut == (Emit /\ decls = {}) => PrintT("TREE " \o ToJson(Tree))
=============================================================================
