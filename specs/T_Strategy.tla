------------------------------ MODULE T_Strategy ------------------------------
(* trace validation for R01, R03: decisions of the real strategies, long renders *)
EXTENDS TraceBase, Strategy
MyJudge(e) == CASE e.ev = "decision" -> JudgeDecision(e)
                [] e.ev = "long" -> JudgeLong(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
