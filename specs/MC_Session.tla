----------------------------- MODULE MC_Session -----------------------------
EXTENDS Session
CONSTANT MaxN
Chains == {<<>>, <<"ok">>, <<"ok", "ok">>, <<"fail", "ok">>, <<"ok", "fail">>}
MCConfigs == {[n |-> n, strat |-> s, lights |-> li, chain |-> c, d |-> dd] :
                n \in 0 .. MaxN, s \in {"every", "final", "interval"}, li \in BOOLEAN, c \in Chains, dd \in {1, 2}}
=============================================================================
