------------------------------- MODULE T_Pair -------------------------------
(* trace validation for R09: recorded renders side by side, each against what it   *)
(* delivers on its own                                                             *)
EXTENDS TraceBase, Image
A == INSTANCE Alone
JudgeRender(e, r) ==
  LET g == e.renders[r]
      x == A!Alone([n |-> g.n, strat |-> g.strat], r, e.sched)
  IN (IF g.res # x.res THEN {"outcome"} ELSE {})
     \cup (IF Len(g.reps) # Len(x.rep) \/ \E i \in 1 .. Min2(Len(g.reps), Len(x.rep)) :
              g.reps[i].image # x.rep[i].image \/ Abs(g.reps[i].p * g.n - 1000000 * x.rep[i].k) > g.n
           THEN {"reports"} ELSE {})
     \cup UNION {IF g.reps[i].image THEN JudgeImage(g.reps[i].img) ELSE {} : i \in 1 .. Len(g.reps)}
MyJudge(e) == CASE e.ev = "renders" -> UNION {JudgeRender(e, r) : r \in 1 .. Len(e.renders)}
                [] e.ev = "unscheduled" -> {}
                [] OTHER -> {"render-failed"}
=============================================================================
