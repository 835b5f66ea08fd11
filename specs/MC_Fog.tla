-------------------------------- MODULE MC_Fog --------------------------------
(* A ray on its way through fog, one half-value length at a time: weights of scattering  *)
(* in each are those of the specification, wherever the counting starts (no memory), and *)
(* all of it scatters or passes.  A variant in which the fog remembers (the walk starts  *)
(* at the border although the interval starts later) is found out.                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS M, Memory
VARIABLES skip, at, through, scat
Two(n) == 2 ^ n
vars == <<skip, at, through, scat>>
(* masses in units of 2^-2M *)
All == Two(2 * M)
Init == /\ skip \in 0 .. M - 1 /\ at = 0 /\ scat = <<>>
        /\ through = IF Memory THEN All \div Two(skip) ELSE All
Step == /\ at < M - skip
        /\ scat' = Append(scat, through \div 2) /\ through' = through \div 2 /\ at' = at + 1
        /\ UNCHANGED skip
Next == Step
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Mass == through + Sum(scat) = All
Depths == \A j \in 1 .. Len(scat) : scat[j] = All \div Two(j)
=============================================================================
