------------------------------ MODULE Scen_Rows ------------------------------
(* The orders in which W workers can finish the H rows of a sample, rows named in *)
(* the order in which they are started: all behaviours of Render's Take and of the *)
(* last AddLocked of a row, projected on the finishing order.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxH, MaxW
VARIABLES H, W, started, busy, order
vars == <<H, W, started, busy, order>>
Init == H \in 1 .. MaxH /\ W \in 1 .. MaxW /\ started = 0 /\ busy = {} /\ order = <<>>
(* rows are taken greedily: a worker without a row takes the next *)
Take == /\ started < H /\ Cardinality(busy) < W
        /\ started' = started + 1 /\ busy' = busy \cup {started + 1}
        /\ UNCHANGED <<H, W, order>>
Finish == /\ started = H \/ Cardinality(busy) = W
          /\ \E r \in busy : busy' = busy \ {r} /\ order' = Append(order, r)
          /\ UNCHANGED <<H, W, started>>
Emit == /\ Len(order) = H
        /\ PrintT(<<"ORDER", H, W, order>>)
        /\ UNCHANGED vars
Next == Take \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
(* with one worker rows finish as they start; W workers let a row be overtaken by all later ones *)
Feasible == \A i \in 1 .. Len(order) : order[i] <= i + W - 1
=============================================================================
