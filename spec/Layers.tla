------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Stacks of layered file systems (pkging.Wrap) and what every call has to *)
(* do with them.  A stack is built from layers by Wrap(parent, with), in   *)
(* any shape; top to bottom it is Flat(tree).  Each layer answers a call   *)
(* with "ok" or with one kind of failure.                                  *)
(*                                                                         *)
(* Walked is what Wrap does (with first, then parent), stated over the     *)
(* tree; Visited is what the property asks for, stated over the flat       *)
(* stack.  TLC checks that they agree and prints every case; the harness   *)
(* performs them on the real code.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLayers, Outcomes, Emit

Lookups == {"parse", "current", "info", "create", "open", "stat"}
Changes == {"mkdirall", "walk", "remove", "removeall"}

\* shapes with n layers, numbered from lo: [par, with], leaves [id]
Leaf(i) == [id |-> i]
IsLeaf(t) == "id" \in DOMAIN t
None == [none |-> TRUE]
IsNone(t) == "none" \in DOMAIN t

RECURSIVE Shapes(_, _)
Shapes(lo, n) ==
    (IF n = 1 THEN {Leaf(lo)} ELSE {}) \cup
    (IF n = 1 THEN {[par |-> None, with |-> Leaf(lo)]} ELSE {}) \cup
    UNION {{[par |-> p, with |-> w] : p \in Shapes(lo, k), w \in Shapes(lo + k, n - k)} : k \in 1 .. n - 1}
\* a stack is something Wrap returned
Stacks(n) == {t \in Shapes(1, n) : ~IsLeaf(t)}

RECURSIVE Flat(_)
Flat(t) == IF IsNone(t) THEN <<>> ELSE IF IsLeaf(t) THEN <<t.id>> ELSE Flat(t.with) \o Flat(t.par)

\* --- as the property puts it: o is the outcome of each layer
FirstIn(s, P(_)) == LET k == {i \in DOMAIN s : P(s[i])} IN
                    IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
Visited(op, s, o) ==
    LET stop == IF op \in Lookups THEN FirstIn(s, LAMBDA l : o[l] = "ok") ELSE FirstIn(s, LAMBDA l : o[l] # "ok")
    IN  IF stop = 0 THEN s ELSE SubSeq(s, 1, stop)
Answer(op, s, o) ==
    LET v == Visited(op, s, o)
        l == v[Len(v)]
    IN  IF op \in Changes /\ o[l] = "ok" THEN [l |-> 0, r |-> "ok"] ELSE [l |-> l, r |-> o[l]]

\* --- as Wrap does it
RECURSIVE Walked(_, _, _)
Walked(op, t, o) ==
    IF IsLeaf(t) THEN [v |-> <<t.id>>, r |-> [l |-> IF op \in Changes /\ o[t.id] = "ok" THEN 0 ELSE t.id, r |-> o[t.id]]]
    ELSE LET a == Walked(op, t.with, o)
             go == IF op \in Lookups THEN a.r.r # "ok" ELSE a.r.r = "ok"
         IN  IF ~go \/ IsNone(t.par) THEN a
             ELSE LET b == Walked(op, t.par, o) IN [v |-> a.v \o b.v, r |-> b.r]

VARIABLES t, op, o
Init == /\ t \in UNION {Stacks(n) : n \in 1 .. MaxLayers}
        /\ op \in Lookups \cup Changes
        /\ o \in [1 .. Len(Flat(t)) -> Outcomes]
Next == UNCHANGED <<t, op, o>>
Spec == Init /\ [][Next]_<<t, op, o>>

Same == LET w == Walked(op, t, o)
        IN  w.v = Visited(op, Flat(t), o) /\ w.r = Answer(op, Flat(t), o)
\* nothing below the layer that decided is touched, and every layer above it is, once
Once == LET v == Visited(op, Flat(t), o) IN
        /\ Cardinality({v[i] : i \in DOMAIN v}) = Len(v)
        /\ \A i \in 1 .. Len(v) : v[i] = Flat(t)[i]
        /\ \A i \in 1 .. Len(v) - 1 : (o[v[i]] = "ok") = (op \in Changes)
Out == Emit => PrintT("CASE " \o ToJson([t |-> t, op |-> op, o |-> o, v |-> Visited(op, Flat(t), o),
                                          r |-> Answer(op, Flat(t), o)]))
=============================================================================
