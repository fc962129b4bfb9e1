-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a module that uses the tool: its files change (ver counts   *)
(* the versions), it is packed into one output or another, listed, built,  *)
(* and what was built is run, with the sources out of reach.               *)
(*                                                                         *)
(* outs: which version an output holds, 0 if there is none.  bin: what the *)
(* program was built from, by output.  shown: what the last run looked at. *)
(*                                                                         *)
(* TLC enumerates the histories (hist), which are then lived by real       *)
(* modules; LifeTrace judges what was seen.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Outs, MaxLen, Emit
VARIABLES ver, outs, bin, shown, hist
vars == <<ver, outs, bin, shown, hist>>
None == [o \in Outs |-> -1]
Init == ver = 1 /\ outs = [o \in Outs |-> 0] /\ bin = None /\ shown = None /\ hist = <<>>
Act(a) == Len(hist) < MaxLen /\ hist' = Append(hist, a)
Pack(o) == /\ Act("pack:" \o o) /\ outs' = [outs EXCEPT ![o] = ver] /\ UNCHANGED <<ver, bin, shown>>
\* listing looks past the output in the root of the module by removing it
List == /\ Act("list") /\ outs' = [o \in Outs |-> IF o = "root" THEN 0 ELSE outs[o]] /\ UNCHANGED <<ver, bin, shown>>
Edit == /\ Act("edit") /\ ver' = ver + 1 /\ UNCHANGED <<outs, bin, shown>>
Build == /\ Act("build") /\ bin' = outs /\ UNCHANGED <<ver, outs, shown>>
Run == /\ bin # None /\ Act("run") /\ shown' = bin /\ UNCHANGED <<ver, outs, bin>>
Next == (\E o \in Outs : Pack(o)) \/ List \/ Edit \/ Build \/ Run
Spec == Init /\ [][Next]_vars

TypeOK == /\ ver \in 1..(MaxLen + 1) /\ \A o \in Outs : outs[o] \in 0..ver /\ bin[o] \in -1..ver
\* a program shows what was packed when it was built, never anything later
Frozen == \A o \in Outs : shown[o] <= bin[o] \/ \E i \in DOMAIN hist : hist[i] = "build"
\* packing twice changes nothing: it depends on the files alone
Last(a) == hist # <<>> /\ hist[Len(hist)] = a
Idempotent == \A o \in Outs : Last("pack:" \o o) => outs[o] = ver
BinKept == [][bin' # bin => Len(hist') > 0 /\ hist'[Len(hist')] = "build"]_vars
Out == Emit /\ Last("run") => PrintT("LIFE " \o ToJson([h |-> hist]))
=============================================================================
