------------------------------- MODULE Pack -------------------------------
(***************************************************************************)
(* Packing as a process that can be struck: each step is a call to the     *)
(* operating system, or the work between two of them, and at any of them   *)
(* one fault may hit - the call fails (once, or from then on), something   *)
(* panics, the process dies.                                               *)
(*                                                                         *)
(* Ok is the contract: what may be found afterwards.  The steps below are  *)
(* a design; with Design = "rename" (what the tool does: everything is     *)
(* prepared in memory, written to another name and renamed) it meets the   *)
(* contract, with "direct" (writing to the output name) and "tidy" (that,  *)
(* and removing it on an error) it does not, which TLC confirms.           *)
(*                                                                         *)
(* out: what is under the output name - "none", "stale" (that of an        *)
(* earlier run, complete), "part", "full" (complete, of this run).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Faults == {"none", "err", "stuck", "panic", "kill"}    \* err: one call fails; stuck: it keeps failing
Phases == {"clean", "list", "read", "open", "write", "close", "rename"}

(* status: what the process said - "ok", "failed", or "dead" if it had no chance to *)
Ok(fault, phase, status, out) ==
  \* an error while writing, or when closing what was written, may mean that some of it is lost
  CASE status = "ok"     -> out = "full" /\ ~(fault \in {"err", "stuck"} /\ phase \in {"write", "close"})
                            /\ ~(fault = "stuck" /\ phase \in {"list", "read"}) /\ ~(fault = "panic" /\ phase # "")
    \* what can not be removed may stay, if it was complete
    [] status = "failed" -> out = "none" \/ (fault = "stuck" /\ phase = "clean" /\ out \in {"stale", "full"})
    [] status = "dead"   -> out \in {"none", "stale", "full"} /\ fault = "kill"

---------------------------------------------------------------------------
CONSTANTS Design, Chunks
VARIABLES pc, out, tmp, n, fault, phase, status
vars == <<pc, out, tmp, n, fault, phase, status>>

Init == /\ pc = "clean" /\ out \in {"none", "stale"} /\ tmp = "none" /\ n = 0
        /\ fault \in Faults /\ phase = "" /\ status = "running"

Running == status = "running"
Hit(p) == fault # "none" /\ phase = "" /\ phase' = p      \* the fault strikes here
Miss == UNCHANGED phase
Target == IF Design = "rename" THEN tmp ELSE out

\* the process ends with an error: what it cleans up first is a matter of design
Fail == /\ status' = "failed" /\ pc' = "end"
        /\ \/ Design = "rename" /\ tmp' = "none" /\ out' = out
           \/ Design = "tidy" /\ out' = "none" /\ tmp' = tmp
           \/ Design = "direct" /\ UNCHANGED <<out, tmp>>
        /\ UNCHANGED <<n, fault>>
\* nothing runs any more after a panic but what is deferred
Panic == IF Design = "rename" THEN Fail ELSE status' = "failed" /\ pc' = "end" /\ UNCHANGED <<out, tmp, n, fault>>
Die == /\ fault = "kill" /\ phase = "" /\ Running
       /\ phase' = pc /\ status' = "dead" /\ pc' = "end" /\ UNCHANGED <<out, tmp, n, fault>>

Clean == /\ pc = "clean" /\ Running
         /\ \/ Miss /\ out' = "none" /\ pc' = "list"
            \/ fault \in {"err", "stuck"} /\ Hit("clean") /\ out' = out /\ pc' = "list"    \* ignored: the rename replaces it
         /\ UNCHANGED <<tmp, n, fault, status>>
Work(p, next) == /\ pc = p /\ Running
                 /\ \/ Miss /\ pc' = next /\ UNCHANGED <<out, tmp, n, fault, status>>
                    \/ fault \in {"err", "stuck"} /\ Hit(p) /\ Fail
                    \/ fault = "panic" /\ Hit(p) /\ Panic
Put(v) == IF Design = "rename" THEN tmp' = v /\ out' = out ELSE out' = v /\ tmp' = tmp
Open == /\ pc = "open" /\ Running
        /\ \/ Miss /\ Put("part") /\ pc' = "write" /\ UNCHANGED <<n, fault, status>>
           \/ fault \in {"err", "stuck"} /\ Hit("open") /\ Fail
Write == /\ pc = "write" /\ Running
         /\ \/ Miss /\ n' = n + 1 /\ Put(IF n + 1 = Chunks THEN "full" ELSE "part")
               /\ pc' = (IF n + 1 = Chunks THEN "close" ELSE "write") /\ UNCHANGED <<fault, status>>
            \/ fault \in {"err", "stuck"} /\ Hit("write") /\ Fail
Close == /\ pc = "close" /\ Running
         /\ \/ Miss /\ pc' = "rename" /\ UNCHANGED <<out, tmp, n, fault, status>>
            \/ fault \in {"err", "stuck"} /\ Hit("close") /\ Fail
Rename == /\ pc = "rename" /\ Running
          /\ \/ Miss /\ pc' = "end" /\ status' = "ok" /\ n' = n /\ fault' = fault
                /\ IF Design = "rename" THEN out' = tmp /\ tmp' = "none" ELSE UNCHANGED <<out, tmp>>
             \/ Design = "rename" /\ fault \in {"err", "stuck"} /\ Hit("rename") /\ Fail
Next == Clean \/ Work("list", "read") \/ Work("read", "open") \/ Open \/ Write \/ Close \/ Rename \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Contract == status # "running" => Ok(fault, phase, status, out)
\* at no moment is there a truncated file under the output name
NeverPart == out # "part"
Ends == <>(status # "running")
=============================================================================
