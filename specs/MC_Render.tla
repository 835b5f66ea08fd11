------------------------------ MODULE MC_Render ------------------------------
EXTENDS Render
CONSTANT MaxN
(* the outer behaviour is checked in MC_Session for all configurations: here few of them *)
MCConfigs == {[n |-> MaxN, strat |-> s, lights |-> TRUE, chain |-> c, d |-> 1] :
                s \in {"every", "final"}, c \in {<<>>, <<"ok", "ok">>, <<"fail", "ok">>}}
             \cup {[n |-> MaxN, strat |-> "interval", lights |-> TRUE, chain |-> <<>>, d |-> 1]}
=============================================================================
