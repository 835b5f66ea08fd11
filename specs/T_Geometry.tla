----------------------------- MODULE T_Geometry -----------------------------
(* trace validation for G02, G03, G05 *)
EXTENDS TraceBase, Geometry
MyJudge(e) == CASE e.ev = "hit" -> JudgeHit(e)
                [] e.ev = "bbox" -> JudgeBox(e)
                [] e.ev = "boxhit" -> JudgeBoxHit(e)
                [] e.ev = "union" -> JudgeUnion(e)
                [] e.ev = "slab" -> JudgeSlab(e)
                [] e.ev = "center" -> JudgeCenter(e)
                [] e.ev = "trans" -> JudgeTrans(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
