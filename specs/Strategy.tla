------------------------------- MODULE Strategy -------------------------------
(* When a completed sample k of n gets an image, at clock now, the last image     *)
(* having been decided on at clock last.  Session's ImageDue in isolation.         *)
EXTENDS Integers
Elapsed(now, last) == IF now < last THEN 0 ELSE now - last
Must(strat, k, n, now, last, d) == CASE strat = "every" -> TRUE
                                     [] strat = "final" -> k = n
                                     [] strat = "interval" -> k = n \/ Elapsed(now, last) > d
(* exactly at the duration either answer is right *)
May(strat, k, n, now, last, d) == \/ Must(strat, k, n, now, last, d)
                                  \/ strat = "interval" /\ Elapsed(now, last) = d
JudgeDecision(e) == (IF Must(e.strat, e.k, e.n, e.now, e.last, e.d) /\ ~e.got THEN {"image-missing"} ELSE {})
               \cup (IF ~May(e.strat, e.k, e.n, e.now, e.last, e.d) /\ e.got THEN {"image-unasked"} ELSE {})

(* a render of very many samples, summarised: how many reports, those off their k/n, and  *)
(* the first, the last and the number of reports with images                              *)
JudgeLong(e) == (IF e.r = "ok" /\ e.reports = e.n THEN {} ELSE {"incomplete"})
           \cup (IF e.wrong = <<>> /\ e.p = 1000000 /\ e.left = 0 THEN {} ELSE {"progress"})
           \cup (IF e.final # e.n \/ e.shown = 0 THEN {"no-final-image"} ELSE {})
           \cup (IF (e.strat = "final") => (e.shown = 1) THEN {} ELSE {"image-unasked"})
           \cup (IF (e.strat = "every" => e.shown = e.n) /\ (e.strat # "final" => e.first = 1) THEN {} ELSE {"image-missing"})
=============================================================================
