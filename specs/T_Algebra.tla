----------------------------- MODULE T_Algebra -----------------------------
(* trace validation for G06 *)
EXTENDS TraceBase, Algebra
MyJudge(e) == CASE e.ev = "vec" -> JudgeVec(e)
                [] e.ev = "interval" -> JudgeInterval(e)
                [] e.ev = "ray" -> JudgeRay(e)
                [] e.ev = "onb" -> JudgeOnb(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
