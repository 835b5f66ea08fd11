---------------------------- MODULE MC_PathLight ----------------------------
EXTENDS PathLight
MCLimits == 0 .. 4
MCWeights == {0, 1, 2}
=============================================================================
