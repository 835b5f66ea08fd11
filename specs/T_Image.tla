------------------------------- MODULE T_Image -------------------------------
(* trace validation for R02 and R06: recorded images of scenes of known light *)
EXTENDS TraceBase, Image
MyJudge(e) == CASE e.ev = "image" -> JudgeImage(e)
                [] e.ev = "aux" -> JudgeAux(e)
                [] e.ev = "rendered" -> {}
                [] OTHER -> {"render-failed"}
=============================================================================
