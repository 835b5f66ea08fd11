------------------------------ MODULE T_Lights ------------------------------
(* trace validation for G04 *)
EXTENDS TraceBase
INSTANCE Lights WITH Bug <- "none", work <- 0, found <- 0, root <- 0
MyJudge(e) == CASE e.ev = "lights" -> JudgeLights(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
