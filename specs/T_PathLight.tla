----------------------------- MODULE T_PathLight -----------------------------
(* trace validation for R07 and R08 *)
EXTENDS TraceBase
INSTANCE PathLight WITH MaxSurf <- 0, Limits <- {0}, Weights <- {1}, Bug <- "none", surfs <- 0, fin <- 0, lim <- 0,
                        depth <- 0, stack <- 0, phase <- 0, ret <- 0, att <- 0, dist <- 0
MyJudge(e) == CASE e.ev = "path" -> JudgePath(e)
                [] e.ev = "corridor" -> JudgeCorridor(e)
                [] e.ev = "pixel" -> JudgePixel(e)
                [] e.ev = "preview" -> JudgePreview(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
