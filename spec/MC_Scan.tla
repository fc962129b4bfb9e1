------------------------------ MODULE MC_Scan ------------------------------
(* All files of up to MaxLen tokens, each with what it declares.           *)
EXTENDS Scan, Json
CONSTANTS MaxLen, MaxDepth, Emit
VARIABLES glob, prog
all == <<vars, glob, prog>>

Lit(s) == [k |-> "lit", v |-> s]
Name == "a"
Globs == {<<>>, <<[t |-> "const", n |-> Name, v |-> Lit("/g")]>>, <<[t |-> "var", n |-> Name]>>,
          <<[t |-> "const", n |-> Name, v |-> [k |-> "dyn"]]>>}
Args == {Lit("/p"), [k |-> "ref", n |-> Name], [k |-> "dyn"]}
Toks == {[t |-> "in"], [t |-> "out"], [t |-> "var", n |-> Name],
         [t |-> "const", n |-> Name, v |-> Lit("/c")], [t |-> "const", n |-> Name, v |-> [k |-> "ref", n |-> Name]]}
        \cup {[t |-> "call", q |-> "pkger", fn |-> "Open", a |-> a, pos |-> 0] : a \in Args}
        \cup {[t |-> "call", q |-> q, fn |-> f, a |-> Lit("/p"), pos |-> 0] : q \in {"other"}, f \in {"Open"}}
        \cup {[t |-> "call", q |-> "pkger", fn |-> "Remove", a |-> Lit("/p"), pos |-> 0]}

Init == /\ glob \in Globs /\ prog = <<>>
        /\ Begin(glob)

\* what compiles: no second declaration of a name in a block, a constant that
\* refers to one that there is, and no reference to what is not declared
Fine(tok) == /\ tok.t \in {"const", "var"} => Name \notin DOMAIN scopes[Top] \/ Top = 1
             /\ tok.t = "const" /\ tok.v.k = "ref" => Lookup(scopes, Name).k \in {"lit", "odd"}
             /\ tok.t = "call" /\ tok.a.k = "ref" => \E i \in DOMAIN scopes : Name \in DOMAIN scopes[i]
             /\ tok.t = "in" => Top <= MaxDepth
             /\ tok.t = "out" => Top > 1 /\ prog[Len(prog)].t # "in"
             /\ Top = 1 => tok.t = "in"         \* all that is not at package level is in some block
Next == /\ Len(prog) < MaxLen
        /\ \E tok \in Toks :
             /\ Fine(tok)
             /\ LET p == IF tok.t = "call" THEN [tok EXCEPT !.pos = Len(prog) + 1] ELSE tok
                IN Read(p) /\ prog' = Append(prog, p)
        /\ UNCHANGED glob
Spec == Init /\ [][Next]_all

\* only calls of pkger's functions are reported, each once, where it is
Calls == {i \in DOMAIN prog : prog[i].t = "call"}
Only == \A d \in must \cup may : \E i \in Calls : /\ prog[i].pos = d.pos /\ prog[i].fn = d.fn /\ prog[i].q = "pkger"
                                                  /\ prog[i].fn \in Fns /\ prog[i].a.k # "dyn"
OncePerCall == \A d, e \in must \cup may : d.pos = e.pos => d = e
\* every literal is found
Literals == \A i \in Calls : prog[i].q = "pkger" /\ prog[i].fn \in Fns /\ prog[i].a.k = "lit"
              => [fn |-> prog[i].fn, v |-> prog[i].a.v, pos |-> i] \in must
\* what is in force at package level is in force where nothing hides it
Out == Emit /\ Top = 1 /\ Len(prog) > 0 /\ Calls # {} =>
         PrintT("PROG " \o ToJson([glob |-> glob, body |-> prog, must |-> must, may |-> may]))
=============================================================================
