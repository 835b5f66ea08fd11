-------------------------------- MODULE Alone --------------------------------
(* A render on its own, step by step: what it delivers as a function of its        *)
(* configuration [n, strat] and of what its caller does.  It can be stopped twice  *)
(* per sample: after its first draw and half way through; stop 0 is before the     *)
(* call.                                                                           *)
EXTENDS Integers, Sequences
Due(cfg, m) == CASE cfg.strat = "every" -> TRUE
                 [] cfg.strat = "final" -> m = cfg.n
                 [] cfg.strat = "rarely" -> m = 1 \/ m = cfg.n    \* an interval longer than the render
Fresh == [p |-> 0, rep |-> <<>>, abort |-> FALSE, alive |-> TRUE, res |-> "none"]
(* the samples an image shows: <<render, number>> *)
Own(r, m) == [i \in 1 .. m |-> <<r, i>>]

(* completion of sample m, with image img *)
Completed(cfg, s, m, img) ==
  IF Due(cfg, m) /\ s.abort THEN [s EXCEPT !.res = "ok"]
  ELSE IF ~s.alive THEN [s EXCEPT !.res = "err"]
  ELSE LET t == [s EXCEPT !.rep = Append(@, [k |-> m, image |-> Due(cfg, m), shows |-> IF Due(cfg, m) THEN img ELSE <<>>])]
       IN IF m = cfg.n \/ s.abort THEN [t EXCEPT !.res = "ok"] ELSE [t EXCEPT !.p = @ + 1]
Step(cfg, r, s) ==
  IF s.res # "none" THEN s
  ELSE IF s.p = 0 THEN IF cfg.n = 0 \/ s.abort THEN [s EXCEPT !.res = "ok"] ELSE [s EXCEPT !.p = 1]
  ELSE IF s.p % 2 = 1 THEN [s EXCEPT !.p = @ + 1]
  ELSE Completed(cfg, s, s.p \div 2, Own(r, s.p \div 2))
After(cfg, r, s, a) == CASE a = "go" -> Step(cfg, r, s)
                         [] a = "abort" -> [s EXCEPT !.abort = TRUE]
                         [] a = "drop" -> [s EXCEPT !.alive = FALSE]
RECURSIVE AloneFrom(_, _, _, _)
AloneFrom(cfg, r, s, acts) == IF acts = <<>> THEN s ELSE AloneFrom(cfg, r, After(cfg, r, s, Head(acts)), Tail(acts))
(* the acts of a schedule <<render, act>>, .. that concern render r *)
RECURSIVE Concern(_, _)
Concern(sched, r) == IF sched = <<>> THEN <<>>
                     ELSE (IF Head(sched)[1] = r THEN <<Head(sched)[2]>> ELSE <<>>) \o Concern(Tail(sched), r)
Alone(cfg, r, sched) == AloneFrom(cfg, r, Fresh, Concern(sched, r))
=============================================================================
