------------------------------- MODULE Scan -------------------------------
(***************************************************************************)
(* What the source of a module declares.                                   *)
(*                                                                         *)
(* A Go file is the set of what it declares at package level and the       *)
(* stream of what matters in the rest of it, in source order:              *)
(*   [t |-> "in"], [t |-> "out"]        a block (scope) begins, ends       *)
(*   [t |-> "const", n, v]              n is a constant from here on, its  *)
(*                                      value written as v                 *)
(*   [t |-> "var", n]                   n is something else from here on   *)
(*   [t |-> "call", q, fn, a, pos]      q.fn(a, ...): what is nested in    *)
(*                                      its arguments follows in the       *)
(*                                      stream                             *)
(* with a, v one of [k |-> "lit", v |-> s] (a string literal of value s),  *)
(* [k |-> "ref", n |-> name], [k |-> "dyn"] (anything else), and           *)
(* [k |-> "odd", v |-> s] (s, but not as a literal: a constant declared as *)
(* another constant, or in parentheses, where the property leaves it open  *)
(* whether that is a declaration).                                         *)
(*                                                                         *)
(* Reading a file is one step per token: scopes is the stack of bindings,  *)
(* must are the declarations found, may those that are left open.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fns == {"Dir", "Open", "Stat", "Walk", "Include", "MkdirAll", "Create"}

VARIABLES scopes, must, may
vars == <<scopes, must, may>>

Bind(sc, n, v) == [m \in DOMAIN sc \cup {n} |-> IF m = n THEN v ELSE sc[m]]
None == [m \in {} |-> FALSE]

RECURSIVE Lookup(_, _)
Lookup(ss, n) == IF ss = <<>> THEN [k |-> "dyn"]
                 ELSE IF n \in DOMAIN ss[Len(ss)] THEN ss[Len(ss)][n]
                 ELSE Lookup(SubSeq(ss, 1, Len(ss) - 1), n)

\* what the name of a constant written as v stands for
Odd(v) == IF v.k = "lit" THEN [k |-> "odd", v |-> v.v] ELSE v
Const(ss, v) == IF v.k = "ref" THEN Odd(Lookup(ss, v.n)) ELSE v
\* what an argument stands for
Value(ss, a) == IF a.k = "ref" THEN Lookup(ss, a.n) ELSE a

\* the package level: in force in all of the file, whatever the order
RECURSIVE Global(_)
Global(g) == IF g = <<>> THEN None
             ELSE LET d == g[Len(g)]
                  IN Bind(Global(SubSeq(g, 1, Len(g) - 1)), d.n,
                          IF d.t = "const" THEN d.v ELSE [k |-> "dyn"])

Begin(g) == /\ scopes = <<Global(g)>>
            /\ must = {}
            /\ may = {}

Top == Len(scopes)
Declare(n, v) == /\ scopes' = [scopes EXCEPT ![Top] = Bind(@, n, v)]
                 /\ UNCHANGED <<must, may>>

Read(tok) ==
  CASE tok.t = "in"    -> scopes' = Append(scopes, None) /\ UNCHANGED <<must, may>>
    [] tok.t = "out"   -> scopes' = SubSeq(scopes, 1, Top - 1) /\ UNCHANGED <<must, may>>
    [] tok.t = "const" -> Declare(tok.n, Const(scopes, tok.v))
    [] tok.t = "var"   -> Declare(tok.n, [k |-> "dyn"])
    [] tok.t = "call"  ->
         LET v == Value(scopes, tok.a)
             d == IF v.k \in {"lit", "odd"} THEN {[fn |-> tok.fn, v |-> v.v, pos |-> tok.pos]} ELSE {}
             mine == tok.q = "pkger" /\ tok.fn \in Fns
         IN /\ must' = must \cup (IF mine /\ v.k = "lit" THEN d ELSE {})
            /\ may' = may \cup (IF mine /\ v.k = "odd" THEN d ELSE {})
            /\ UNCHANGED scopes

---------------------------------------------------------------------------
\* directories, as sequences of names; the module root, <<>>, is always read
IgnoredName(n) == SubSeq(n, 1, 1) \in {".", "_"} \/ n \in {"vendor", "node_modules", "testdata"}
Ignored(path) == \E i \in DOMAIN path : IgnoredName(path[i])
IsGo(n) == Len(n) > 3 /\ SubSeq(n, Len(n) - 2, Len(n)) = ".go"
=============================================================================
