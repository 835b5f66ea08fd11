------------------------------- MODULE T_Fog -------------------------------
(* trace validation for M02 *)
EXTENDS TraceBase, Fog
MyJudge(e) == CASE e.ev = "fog" -> JudgeFog(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
