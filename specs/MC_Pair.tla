------------------------------- MODULE MC_Pair -------------------------------
EXTENDS Pair, TLC, Json
CONSTANTS MaxN
Strats == {"every", "final", "rarely"}
Cfg(n, s) == [n |-> n, strat |-> s]
Combos == {<<"every", "rarely">>, <<"rarely", "rarely">>, <<"final", "every">>}
Short == {<<Cfg(a, s), Cfg(b, t)>> : a \in 0 .. 1, b \in 0 .. 2, s \in Strats, t \in Strats}
Long == {<<Cfg(a, c[1]), Cfg(b, c[2])>> : a \in 2 .. MaxN, b \in 2 .. MaxN, c \in Combos}
Three == {<<Cfg(1, s), Cfg(1, t), Cfg(1, "every")>> : s \in {"every", "rarely"}, t \in {"final", "rarely"}}
MCConfigs == Short \cup Long \cup Three
(* schedules to be replayed *)
ScenConfigs == {<<Cfg(a, c[1]), Cfg(b, c[2])>> : a \in 1 .. MaxN, b \in 1 .. MaxN, c \in Combos}
               \cup {<<Cfg(1, "every"), Cfg(1, "rarely"), Cfg(1, "final")>>}
Emit == /\ Over /\ PrintT("SCHED " \o ToJson([c |-> cfgs, h |-> hist]))
        /\ UNCHANGED vars
ScenSpec == Init /\ [][Next \/ Emit]_vars
=============================================================================
