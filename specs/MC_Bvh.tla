------------------------------- MODULE MC_Bvh -------------------------------
EXTENDS Bvh
MCLos == {-2, 0, 1, 2}
MCHis == {-1, 1, 2}
MCMins == {-3, 0, 1}
=============================================================================
