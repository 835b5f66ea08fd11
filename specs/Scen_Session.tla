---------------------------- MODULE Scen_Session ----------------------------
(* The surroundings' side of Session, enumerated: at which sample and at which    *)
(* moment in it the caller aborts, hangs up or stops listening.  The recorder      *)
(* plays each of these schedules against the real renderer.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN, Acts
VARIABLE done

(* the moments: before the call; at the first, a middle, the last draw of a sample; *)
(* on receiving a report                                                            *)
Moments(n) == {[when |-> "before", m |-> 0]}
              \cup {[when |-> w, m |-> m] : w \in {"first", "middle", "last"}, m \in 1 .. n}
              \cup {[when |-> "report", m |-> m] : m \in 1 .. n}
Strats == {"every", "final", "interval"}
Scenarios == UNION {{[n |-> n, strat |-> s, act |-> a, when |-> mo.when, m |-> mo.m] :
                        s \in Strats, a \in Acts, mo \in Moments(n)} : n \in 0 .. MaxN}
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Scenarios))
Spec == Init /\ [][Next]_done
=============================================================================
