------------------------------- MODULE MC_Cmd -------------------------------
(* All lines of up to MaxLen of the words given, and some longer ones, and what they mean. *)
EXTENDS Cmd, Json, IOUtils
CONSTANTS MaxLen, Emit
Vocabulary == JsonDeserialize(IOEnv.WORDS)
VARIABLE line
Init == line \in {<<>>} \cup Range(JsonDeserialize(IOEnv.LINES))
Next == /\ Len(line) < MaxLen
        /\ \E k \in DOMAIN Vocabulary : line' = Append(line, k)
Spec == Init /\ [][Next]_line
L == [k \in DOMAIN line |-> Vocabulary[line[k]]]
Mean == Meaning(L)
Say == Emit => PrintT("LINE " \o ToJson([line |-> line, kind |-> Mean.kind, json |-> Mean.json, out |-> Mean.out,
                  uses |-> {Mean.inc[k].w : k \in DOMAIN Mean.inc} \cup {Mean.args[k].w : k \in DOMAIN Mean.args}]))

Total == Mean.kind \in Kinds
\* only packing has an output, only packing and listing select files, only they touch anything
Sober == /\ (Mean.out # <<>> => Mean.kind = "pack")
         /\ (Mean.inc # <<>> => Mean.kind \in {"pack", "list"})
         /\ (Mean.args # <<>> => Mean.kind \in Subs \ {"list"})
         /\ (Touches("a", Mean) # {} <=> Mean.kind \in {"pack", "list"})
\* what is not understood is not undone by what follows, and asking for help always is help before it
Hasty == \A k \in 0..Len(L) :
           LET a == SubSeq(L, 1, k)  f == Flags("", a, 1, <<>>)
           IN /\ (f.st = "bad" /\ k < Len(L) /\ a[Len(a)].flag \notin Strings("") => Mean = Wrong)
              /\ (f.st = "help" => Mean = Usage)
\* "-f v" and "-f=v" are the same
Joined(ws, i) == [k \in 1..Len(ws) - 1 |-> IF k < i THEN ws[k] ELSE IF k > i THEN ws[k + 1]
                   ELSE [ws[i] EXCEPT !.w = "", !.has = TRUE, !.v = Plain(ws[i + 1])]]
Same(a, b) == /\ a.kind = b.kind /\ a.json = b.json /\ a.out = b.out /\ Len(a.inc) = Len(b.inc) /\ a.args = b.args
              /\ \A k \in DOMAIN a.inc : a.inc[k].p = b.inc[k].p /\ a.inc[k].path = b.inc[k].path
EitherForm == \A i \in 1..Len(L) - 1 :
                L[i].flag \in {"o", "include"} /\ ~L[i].has /\ (\A j \in 1..i - 1 : L[j].flag \in {"o", "include"} /\ L[j].has)
                  => Same(Mean, Meaning(Joined(L, i)))
\* -o twice: the last; -include adds up, in order
Adds == \A i \in DOMAIN L :
          (L[i].flag = "include" /\ L[i].has /\ (\A j \in 1..i - 1 : L[j].flag \in {"o", "include"} /\ L[j].has) /\ Mean.kind = "pack")
             => \E k \in DOMAIN Mean.inc : Mean.inc[k] = L[i].v
=============================================================================
