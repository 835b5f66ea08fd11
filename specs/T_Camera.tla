------------------------------- MODULE T_Camera -------------------------------
(* trace validation for C01 *)
EXTENDS TraceBase, Camera
MyJudge(e) == CASE e.ev = "camera" -> JudgeCam(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
