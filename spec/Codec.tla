-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Embedded data and its damage.  An encoded payload is a row of cells:    *)
(* the magic of the format, header bytes without a meaning, the body in    *)
(* two parts, the checksum and the length.  Damage alters, cuts, removes,  *)
(* inserts, repeats and exchanges cells, or puts something before or       *)
(* behind the whole.                                                       *)
(*                                                                         *)
(* Load is what a decoder must do that checks everything.  Its answer is   *)
(* never anything but an error or the original content; TLC checks that    *)
(* for every script of damages, and prints each with whether anything is   *)
(* damaged at all.  The harness applies every script to real payloads.     *)
(*                                                                         *)
(* Checks names the checks the decoder makes: without any one of them TLC  *)
(* finds a script under which it returns something else (see DESIGN.md).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDamage, Checks, Emit

\* a cell: f field, v: what is in it ("o": as encoded, "x": something else), m: is it
\* one of the payload's own cells
Cell(f) == [f |-> f, v |-> "o", m |-> TRUE]
Fields == <<"magic", "slack", "body1", "body2", "sum", "len">>
Original == [i \in 1 .. 6 |-> Cell(Fields[i])]
Junk == [f |-> "junk", v |-> "x", m |-> FALSE]
Foreign(w) == [i \in 1 .. 6 |-> [f |-> Fields[i], v |-> w, m |-> FALSE]]

VARIABLES p, script
vars == <<p, script>>

Init == p = Original /\ script = <<>>

Cut(s, i) == SubSeq(s, 1, i - 1)
Damage(d, q) ==
    /\ p' = q
    /\ script' = Append(script, d)

N == Len(p)
Next ==
    /\ Len(script) < MaxDamage
    /\ \/ \E i \in 1 .. N :
             \/ Damage([d |-> "alter", i |-> i, j |-> 0], [p EXCEPT ![i].v = "x"])
             \/ Damage([d |-> "cut", i |-> i, j |-> 0], Cut(p, i))
             \* cut inside of a cell
             \/ Damage([d |-> "cutin", i |-> i, j |-> 0], Append(Cut(p, i), [p[i] EXCEPT !.v = "x"]))
             \/ Damage([d |-> "drop", i |-> i, j |-> 0], Cut(p, i) \o SubSeq(p, i + 1, N))
             \/ Damage([d |-> "dropin", i |-> i, j |-> 0], [p EXCEPT ![i].v = "x"])
             \/ Damage([d |-> "dup", i |-> i, j |-> 0], SubSeq(p, 1, i) \o SubSeq(p, i, N))
             \/ Damage([d |-> "insert", i |-> i, j |-> 0], Cut(p, i) \o <<Junk>> \o SubSeq(p, i, N))
             \/ \E j \in i + 1 .. N : Damage([d |-> "swap", i |-> i, j |-> j], [p EXCEPT ![i] = p[j], ![j] = p[i]])
       \/ \E what \in {"junk", "self", "other", "empty", "space"} :
             LET more == IF what = "self" THEN p
                         ELSE IF what = "other" THEN Foreign("other")
                         ELSE IF what = "empty" THEN Foreign("empty")
                         ELSE <<Junk>>
             IN  \/ Damage([d |-> "append-" \o what, i |-> 0, j |-> 0], p \o more)
                 \/ Damage([d |-> "prepend-" \o what, i |-> 0, j |-> 0], more \o p)
Spec == Init /\ [][Next]_vars

\* ---- a decoder
\* one member: what it decodes to ("err" if a check it makes fails)
Member(m) ==
    IF Len(m) < 6 /\ "whole" \in Checks THEN "err"
    ELSE IF Len(m) < 3 THEN "err"
    ELSE IF ~(m[1].f = "magic" /\ m[1].v # "x") THEN "err"
    ELSE LET is(i, f, w) == Len(m) >= i /\ m[i].f = f /\ m[i].v = w
             good(w) == is(3, "body1", w) /\ is(4, "body2", w)
             got == IF good("o") THEN "same" ELSE IF good("other") THEN "other" ELSE IF good("empty") THEN "nothing" ELSE "wrong"
             sum(w) == is(5, "sum", w)
             agree == CASE got = "same" -> sum("o") [] got = "other" -> sum("other") [] got = "nothing" -> sum("empty")
                        [] OTHER -> FALSE
         IN  IF "sum" \in Checks /\ ~agree THEN "err"
             ELSE IF "whole" \in Checks /\ m[6].f # "len" THEN "err"
             ELSE got

\* all of it
Load == IF Len(p) <= 6 THEN Member(p)
        ELSE IF "end" \in Checks THEN "err"
        ELSE LET a == Member(SubSeq(p, 1, 6)) IN
             IF a # "same" THEN a ELSE "more"

Pristine == p = Original
\* "other" in place of the whole original is not damage of it but another payload
Gone == \A i \in DOMAIN p : ~(p[i].m /\ p[i].f \in {"body1", "body2"})
NeverWrong == Load \in {"err", "same", "other", "nothing"}
Undamaged == Pristine => Load = "same"
Rejected == Load = "other" \/ Load = "nothing" => Len(p) = 6
Out == Emit => PrintT("CODEC " \o ToJson([s |-> script, pristine |-> Pristine,
                                           replaced |-> Load \in {"other", "nothing"} \/ (Gone /\ \E i \in DOMAIN p : ~p[i].m)]))
=============================================================================
