----------------------------- MODULE T_Construct -----------------------------
(* trace validation for R05: which bloom parameters are accepted *)
EXTENDS TraceBase
MyJudge(e) == CASE e.ev = "bloomnew" -> (IF e.ok # e.valid THEN {"bloom-" \o (IF e.ok THEN "accepted" ELSE "refused")} ELSE {})
                                        \cup (IF ~e.ok /\ e.msg = 0 THEN {"no-message"} ELSE {})
                [] OTHER -> {"unknown-event"}
=============================================================================
