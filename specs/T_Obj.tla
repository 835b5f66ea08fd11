-------------------------------- MODULE T_Obj --------------------------------
(* trace validation for L01 and L02 *)
EXTENDS TraceBase, Obj
MyJudge(e) == CASE e.ev = "model" -> JudgeModel(e)
                [] e.ev = "grid" -> JudgeGrid(e)
                [] e.ev = "load" -> JudgeLoad(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
