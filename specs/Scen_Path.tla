------------------------------ MODULE Scen_Path ------------------------------
(* All corridors: sequences of up to MaxItems mirrors and panes, each end, each  *)
(* bounce limit.  Written to VERIF_OUT for the recorder.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxItems, MaxLimit
VARIABLES items, fin, lim, emitted
Init == items = <<>> /\ fin \in {"light", "back", "none"} /\ lim \in 0 .. MaxLimit /\ emitted = FALSE
Grow == /\ ~emitted /\ Len(items) < MaxItems
        /\ \E k \in {"metal", "glass", "blend"} : items' = Append(items, k)
        /\ UNCHANGED <<fin, lim, emitted>>
Next == Grow
Spec == Init /\ [][Next]_<<items, fin, lim, emitted>>
AllCases == (UNION {[1 .. k -> {"metal", "glass", "blend"}] : k \in 0 .. MaxItems}) \X {"light", "back", "none"} \X (0 .. MaxLimit)
Written == /\ TLCGet("stats").distinct = Len(SetToSeq(AllCases))
           /\ ndJsonSerialize(IOEnv.VERIF_OUT,
                SetToSeq({[items |-> c[1], fin |-> c[2], max |-> c[3]] : c \in AllCases}))
=============================================================================
