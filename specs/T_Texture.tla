------------------------------ MODULE T_Texture ------------------------------
(* trace validation for T01, T02, T03 *)
EXTENDS TraceBase, Texture
MyJudge(e) == CASE e.ev = "texel" -> JudgeTexel(e)
                [] e.ev = "solid" -> JudgeSolid(e)
                [] e.ev = "bump" -> JudgeBump(e)
                [] e.ev = "pattern" -> JudgePattern(e)
                [] e.ev = "fail" -> JudgeFail(e)
                [] e.ev = "tilt" -> JudgeTilt(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
