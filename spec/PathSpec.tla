------------------------------ MODULE PathSpec ------------------------------
(***************************************************************************)
(* What a name means.  A name is a sequence of tokens; the token "D"       *)
(* stands for the segments of the module's absolute directory (so that     *)
(* <<"/","D">> is that directory), "p" for the module's own path, "q" for  *)
(* the path of another module.  "B" is a backslash, every other token one character.       *)
(*                                                                         *)
(* Parse(s) = [sp, pkg, segs]: sp = FALSE where the documentation does not *)
(* say what a name means (it still has to mean something canonical).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Tokens, MaxLen, Emit

Own == <<"p">>

(* s without the spaces around it *)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) = " " THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Slashes(s) == [i \in DOMAIN s |-> IF s[i] = "B" THEN "/" ELSE s[i]]

RECURSIVE Split(_)      \* the segments between slashes, empty ones included
Split(s) ==
    IF "/" \notin Range(s) THEN <<s>>
    ELSE LET i == CHOOSE i \in DOMAIN s : s[i] = "/" /\ \A j \in 1 .. i - 1 : s[j] # "/"
         IN  <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))

RECURSIVE Climb(_, _)   \* resolve dot segments; the root is its own parent
Climb(done, todo) ==
    IF todo = <<>> THEN done
    ELSE LET h == Head(todo)
         IN  CASE h = <<>> \/ h = <<".">> -> Climb(done, Tail(todo))
               [] h = <<".", ".">> -> Climb(IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1), Tail(todo))
               [] OTHER -> Climb(Append(done, h), Tail(todo))
Segs(s) == Climb(<<>>, Split(s))

Dots(s) == <<".", ".">> \in Range(Split(s))
Macro(s) == \E x \in {"D", "p", "q"} : x \in Range(s)

Colon(s) ==     \* where the package ends, 0 if there is none
    LET c == {i \in 1 .. Len(s) - 1 : s[i] = ":" /\ s[i + 1] = "/"}
    IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

Res(sp, pkg, segs) == [sp |-> sp, pkg |-> pkg, segs |-> segs]

\* a proper package path
Plain(q) == /\ q # <<>>
            /\ ~\E k \in DOMAIN q : q[k] \in {":", " ", ".", "D"}
            /\ <<>> \notin Range(Split(q))

Parse(s) ==
    LET t == Slashes(TrimL(TrimR(s)))
        i == Colon(t)
        rooted(pkg, name) ==
            \* a macro token stands for several segments: climbing out of it is not modelled
            \* and a last component ending with a space can not be named
            LET q == Segs(name)
            IN  Res(~(Dots(name) /\ Macro(name)) /\ (q # <<>> => q[Len(q)][Len(q[Len(q)])] # " "), pkg, q)
    IN  IF t = <<>> \/ t = <<":">> THEN Res(TRUE, Own, <<>>)
        ELSE IF t[1] = "/"
             THEN LET r == rooted(Own, t)
                  IN  IF r.segs # <<>> /\ r.segs[1] = <<"D">> THEN [r EXCEPT !.segs = Tail(@)] ELSE r
        ELSE IF i = 1
             THEN LET r == rooted(Own, Tail(t))
                  IN  IF r.segs # <<>> /\ r.segs[1] = <<"D">> THEN [r EXCEPT !.segs = Tail(@)] ELSE r
        ELSE IF i > 1
             THEN LET r == rooted(SubSeq(t, 1, i - 1), SubSeq(t, i + 1, Len(t)))
                  IN  [r EXCEPT !.sp = @ /\ Plain(r.pkg)]
        \* no more than a package
        ELSE LET q == IF t[Len(t)] = ":" THEN SubSeq(t, 1, Len(t) - 1) ELSE t
             IN  IF t = <<".">> THEN Res(TRUE, Own, <<>>)
                 ELSE Res(Plain(q), q, <<>>)

\* a name given to a handle: relative to its directory, never above it, and
\* with its spaces
Rel(s) == LET t == Slashes(s) IN [sp |-> ~(Dots(t) /\ Macro(t)), segs |-> Segs(t)]

RECURSIVE Join(_)
Join(segs) == IF segs = <<>> THEN <<>> ELSE <<"/">> \o Head(segs) \o Join(Tail(segs))
Canon(r) == r.pkg \o <<":">> \o (IF r.segs = <<>> THEN <<"/">> ELSE Join(r.segs))

VARIABLE s
Init == s \in UNION {[1 .. n -> Tokens] : n \in 0 .. MaxLen}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

(* C08: nothing climbs out, whatever the name *)
Contained == LET r == Parse(s) IN \A i \in DOMAIN r.segs :
                /\ r.segs[i] \notin {<<>>, <<".">>, <<".", ".">>}
                /\ "/" \notin Range(r.segs[i]) /\ "B" \notin Range(r.segs[i])
(* C09: the canonical form means itself *)
Settled == LET r == Parse(s) IN r.sp =>
                LET c == Parse(Canon(r)) IN c.pkg = r.pkg /\ c.segs = r.segs
(* C09: redundant spellings *)
RECURSIVE Double(_)
Double(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = "/" THEN <<"/", "/">> ELSE <<Head(q)>>) \o Double(Tail(q))
Respelled == LET r == Parse(s) IN r.sp =>
                /\ Parse(<<" ">> \o s \o <<" ">>) = r
                /\ Parse([i \in DOMAIN s |-> IF s[i] = "/" THEN "B" ELSE s[i]]) = r
                /\ LET d == Parse(Double(s)) IN d.sp => d = r
                /\ Parse(IF "/" \in Range(s) /\ s[Len(s)] # " " THEN s \o <<"/", ".">> ELSE s).segs = r.segs
Out == Emit => PrintT("NAME " \o ToJson([s |-> s, r |-> Parse(s), rel |-> Rel(s)]))
=============================================================================
