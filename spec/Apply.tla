------------------------------- MODULE Apply -------------------------------
(***************************************************************************)
(* The package-level functions and Apply.  A call takes the stack in force *)
(* when it reaches its first layer and goes on with that very stack,       *)
(* whatever is applied meanwhile - also from inside of the call: by a      *)
(* layer, or by a walk function.  Applying with an error panics and        *)
(* changes nothing.                                                        *)
(*                                                                         *)
(* TLC enumerates every schedule of Calls calls (started, and then let go  *)
(* from layer to layer), MaxApply successful and MaxErr failing applies    *)
(* and MaxPeek calls run to completion, each from outside or from within a *)
(* call.  Every complete schedule is printed with what has to be seen at   *)
(* each step; the harness performs it on the real code.                    *)
(*                                                                         *)
(* Layers answer lookups with an error and changes with success, so each   *)
(* call has to see its whole stack.  Layer 0 stands for everything applied *)
(* before (Base); with Base = FALSE nothing has been, and the disk answers.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Calls, MaxApply, MaxErr, MaxPeek, Bases, Emit

VARIABLES base, stack, applied, calls, errs, peeks, h
vars == <<base, stack, applied, calls, errs, peeks, h>>

Idle == [st |-> "idle"]
Init == /\ base \in Bases
        /\ stack = IF base THEN <<0>> ELSE <<>>
        /\ applied = 0 /\ errs = 0 /\ peeks = 0
        /\ calls = [c \in 1 .. Calls |-> Idle]
        /\ h = <<>>

Running == {c \in 1 .. Calls : calls[c].st = "in"}
Actors == {0} \cup Running       \* 0: the caller's own goroutine

Apply(who) ==
    /\ applied < MaxApply
    /\ applied' = applied + 1
    /\ stack' = <<applied + 1>> \o stack
    /\ h' = Append(h, [a |-> "apply", who |-> who, l |-> applied + 1])
    /\ UNCHANGED <<base, calls, errs, peeks>>

ApplyErr(who) ==
    /\ errs < MaxErr
    /\ errs' = errs + 1
    /\ h' = Append(h, [a |-> "applyerr", who |-> who])
    /\ UNCHANGED <<base, stack, applied, calls, peeks>>

\* a call that runs to completion at once
Peek(who) ==
    /\ peeks < MaxPeek
    /\ peeks' = peeks + 1
    /\ h' = Append(h, [a |-> "peek", who |-> who, v |-> stack])
    /\ UNCHANGED <<base, stack, applied, calls, errs>>

\* a call begins, and is at its first layer (or the disk has answered it)
Start(c) ==
    /\ calls[c].st = "idle"
    /\ \A d \in 1 .. c - 1 : calls[d].st # "idle"       \* calls are interchangeable
    /\ calls' = [calls EXCEPT ![c] = [st |-> IF stack = <<>> THEN "done" ELSE "in", s |-> stack, k |-> 1]]
    /\ h' = Append(h, [a |-> "start", c |-> c, v |-> IF stack = <<>> THEN <<>> ELSE <<stack[1]>>])
    /\ UNCHANGED <<base, stack, applied, errs, peeks>>

\* it goes on to the next layer of the stack it began with, or returns
Step(c) ==
    LET x == calls[c] IN
    /\ x.st = "in"
    /\ calls' = [calls EXCEPT ![c] = IF x.k < Len(x.s) THEN [x EXCEPT !.k = @ + 1] ELSE [x EXCEPT !.st = "done"]]
    /\ h' = Append(h, [a |-> "step", c |-> c, v |-> IF x.k < Len(x.s) THEN <<x.s[x.k + 1]>> ELSE <<>>])
    /\ UNCHANGED <<base, stack, applied, errs, peeks>>

Next == \/ \E who \in Actors : Apply(who) \/ ApplyErr(who) \/ Peek(who)
        \/ \E c \in 1 .. Calls : Step(c) \/ Start(c)
Spec == Init /\ [][Next]_vars

Done == applied = MaxApply /\ errs = MaxErr /\ peeks = MaxPeek /\ \A c \in 1 .. Calls : calls[c].st = "done"

\* ---- what has to hold
\* no layer is lost, and the latest is on top
NothingLost == stack = [i \in 1 .. applied |-> applied + 1 - i] \o (IF base THEN <<0>> ELSE <<>>)
\* a call sees a stack in force between its start and its end, as a whole
Suffix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, Len(t) - Len(s) + 1, Len(t))
OneStack == \A c \in 1 .. Calls : calls[c].st # "idle" => Suffix(calls[c].s, stack)
Only == [][/\ \A c \in 1 .. Calls : calls[c].st = "in" => calls'[c].s = calls[c].s
           /\ Suffix(stack, stack') /\ Len(stack') <= Len(stack) + 1]_vars
Out == (Emit /\ Done) => PrintT("SCHED " \o ToJson([base |-> base, h |-> h]))
=============================================================================
