-------------------------------- MODULE T_Post --------------------------------
(* trace validation for P01, P02 *)
EXTENDS TraceBase, Post
MyJudge(e) == CASE e.ev = "tone" -> JudgeTone(e)
                [] e.ev = "bloom" -> JudgeBloom(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
