----------------------------- MODULE T_Sampling -----------------------------
(* trace validation for M01, M04, M05 *)
EXTENDS TraceBase, Sampling
MyJudge(e) == CASE e.ev = "dist" -> JudgeDist(e)
                [] e.ev = "range" -> IF e.bad = 0 THEN {} ELSE {"out-of-range"}
                [] e.ev = "density" -> JudgeDensity(e)
                [] e.ev = "mix" -> JudgeMix(e)
                [] e.ev = "cos" -> JudgeCos(e)
                [] e.ev = "aim" -> JudgeAim(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
