---------------------------- MODULE LayersTrace ----------------------------
(***************************************************************************)
(* Recorded calls on real stacks: each event has the flat stack, the       *)
(* operation, what each layer was told to answer, the layers that were     *)
(* called (in order, arguments unchanged = ok), and whose answer came back.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

L == INSTANCE Layers WITH MaxLayers <- 0, Outcomes <- {}, Emit <- FALSE, t <- 0, op <- 0, o <- 0

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, l, bad
Init == k \in DOMAIN Traces /\ l = 1 /\ bad = FALSE
Ev == Traces[k][l]
Good(e) == /\ e.v = L!Visited(e.op, e.s, e.o)
           /\ e.r = L!Answer(e.op, e.s, e.o).r
           /\ e.l = L!Answer(e.op, e.s, e.o).l
           /\ e.args
Next == /\ ~bad /\ l <= Len(Traces[k])
        /\ bad' = ~Good(Ev)
        /\ bad' => PrintT("MISMATCH " \o ToJson([t |-> k, l |-> l, v |-> L!Visited(Ev.op, Ev.s, Ev.o),
                                                   x |-> L!Answer(Ev.op, Ev.s, Ev.o)]))
        /\ l' = l + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, l, bad>>
Conforms == ~bad
=============================================================================
