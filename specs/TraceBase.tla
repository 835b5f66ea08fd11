------------------------------ MODULE TraceBase ------------------------------
(* Validation of traces recorded from the real code.  The trace is a file of   *)
(* events (one JSON object per line, env VERIF_TRACE); Judge(e) is the set of  *)
(* names of the clauses of the specification that event e contradicts ({} =    *)
(* the event is a behaviour the specification allows).  A contradicted event   *)
(* is reported and validation goes on, so that the whole trace is examined.    *)
(* The trace is cut in Chunks pieces that TLC validates in parallel.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_), Chunks

Events == ndJsonDeserialize(IOEnv.VERIF_TRACE)
NEv == Len(Events)

VARIABLES chunk, l

CLo(c) == ((c - 1) * NEv) \div Chunks + 1
CHi(c) == (c * NEv) \div Chunks

(* no call of the code under test may panic, hang or crash the process *)
Verdict(e) == IF e.ev \in {"panic", "hang", "crash"} THEN {e.ev} ELSE Judge(e)

TInit == /\ chunk \in 1 .. Chunks
         /\ l = CLo(chunk)

TNext == /\ l <= CHi(chunk)
         /\ LET bad == Verdict(Events[l])
            IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
         /\ l' = l + 1
         /\ UNCHANGED chunk

TSpec == TInit /\ [][TNext]_<<chunk, l>>

(* every event was consumed *)
Consumed == TLCGet("stats").distinct = NEv + Chunks
=============================================================================
