-------------------------------- MODULE T_Bvh --------------------------------
(* trace validation for G01: recorded searches of real hierarchies *)
EXTENDS TraceBase
INSTANCE Bvh WITH Los <- {0}, His <- {0}, Lanes <- {1}, Lane <- 1, MaxN <- 0, Mins <- {0}, Maxs <- {0},
                  Bug <- "none", list <- 0, node <- 0, kind <- 0, iv <- 0, stack <- 0, best <- 0
MyJudge(e) == CASE e.ev = "nearest" -> JudgeNearest(e)
                [] OTHER -> {"unknown-event"}
=============================================================================
