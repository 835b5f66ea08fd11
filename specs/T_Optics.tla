------------------------------ MODULE T_Optics ------------------------------
(* trace validation for M03, M04 *)
EXTENDS TraceBase, Optics
MyJudge(e) == CASE e.ev = "glass" -> JudgeGlass(e) \cup JudgeCommon(e)
                [] e.ev = "metal" -> JudgeMetal(e) \cup JudgeCommon(e)
                [] e.ev = "furnace" -> JudgeFurnace(e)
                [] e.ev = "emit" -> JudgeEmit(e)
                [] e.ev = "blend" -> JudgeBlend(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
