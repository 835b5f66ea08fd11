----------------------------- MODULE MC_Sampling -----------------------------
(* The measures are probability measures and fit together; rejection sampling on a grid  *)
(* of draws is uniform over what it accepts, and choosing by a draw is fair.              *)
EXTENDS Sampling, TLC
CONSTANTS MaxM, Grid
VARIABLES m, w, st, got
Kinds == {"float", "index", "disc", "cosine", "unit", "cone", "ball", "quad", "tri", "cube"}
Init == m \in 1 .. MaxM /\ w \in Kinds /\ st = "draw" /\ got = <<0, 0, 0>>
(* a draw: a cell of the grid; accepted if it lies in the ball (disc) *)
Cells == (-Grid .. Grid) \X (-Grid .. Grid) \X (IF w = "ball" THEN -Grid .. Grid ELSE {0})
Accept(c) == Dot(c, c) < Grid * Grid
Draw == /\ st = "draw" /\ w \in {"ball", "disc"} /\ m = 1
        /\ \E c \in Cells : /\ got' = c
                            /\ st' = IF Accept(c) THEN "done" ELSE "draw"
        /\ UNCHANGED <<m, w>>
Next == Draw
Spec == Init /\ [][Next]_<<m, w, st, got>>
D(b) == Measure(w, m, b)[2]
IsMeasure == SumSeq([b \in 1 .. Bins(w, m) |-> Measure(w, m, b)[1]]) = D(1) /\ \A b \in 1 .. Bins(w, m) : D(b) = D(1) /\ Measure(w, m, b)[1] >= 0
(* the shadow of a cosine weighted direction is uniform over the disc: bands of the sine are rings; by the *)
(* symmetry of the square the bands of the cosine have the same weights                                     *)
Malley == \A b \in 1 .. Bins("disc", m) : Measure("disc", m, b) = Measure("cosine", m, b)
(* half of the bands of a ball's radius hold an eighth of its volume *)
Eighth == (m % 2 = 0) => LET s == [b \in 1 .. Bins("ball", m) |-> Measure("ball", m, b)[1]]
                             half == {b \in 1 .. Bins("ball", m) : b <= Bins("ball", m) \div 2}
                         IN 8 * SumSeq(SubSeq(s, 1, Bins("ball", m) \div 2)) = m * m * m * Ball2 * Sectors
AcceptedInside == st = "done" => Dot(got, got) < Grid * Grid
(* a uniform sample is fair, and shifting much of one bin into another is not *)
Even == LET N == 10000 * D(1)
        IN D(1) <= 100 => /\ \A b \in 1 .. Bins(w, m) : InBounds(10000 * Measure(w, m, b)[1], N, Measure(w, m, b))
                          /\ \A b \in 1 .. Bins(w, m) : Measure(w, m, b)[1] > 0 => ~InBounds(10800 * Measure(w, m, b)[1], N, Measure(w, m, b))
=============================================================================
