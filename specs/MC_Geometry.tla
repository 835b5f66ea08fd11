---------------------------- MODULE MC_Geometry ----------------------------
(* The specification of the shapes checked against itself: on a small lattice, every ray. *)
EXTENDS Geometry
CONSTANTS R, RD
VARIABLES o, d, sh
Coord == -R .. R
Shapes == {[k |-> "sphere", c |-> <<0, 0, 0>>, r |-> 1], [k |-> "sphere", c |-> <<1, 0, 0>>, r |-> 2],
           [k |-> "quad", q |-> <<-1, -1, 0>>, u |-> <<2, 0, 0>>, v |-> <<0, 2, 1>>],
           [k |-> "tri", a |-> <<-1, -1, 0>>, b |-> <<1, -1, 0>>, c |-> <<-1, 1, 1>>],
           [k |-> "box", a |-> <<1, 0, -1>>, b |-> <<-1, 1, 1>>]}
Dirs == ((-RD .. RD) \X (-RD .. RD) \X (-RD .. RD)) \ {<<0, 0, 0>>}
Init == o \in Coord \X Coord \X Coord /\ d = <<0, 0, 0>> /\ sh \in Shapes
Next == d = <<0, 0, 0>> /\ d' \in Dirs /\ UNCHANGED <<o, sh>>
Spec == Init /\ [][Next]_<<o, d, sh>>
C == IF d = <<0, 0, 0>> THEN {} ELSE Crossings(sh, o, d)
At(t) == [i \in 1 .. 3 |-> o[i] * 1000 + (t \div 1000) * d[i]]
Tol == 12
(* every crossing lies on the shape, within its extremes *)
OnShape == \A c \in C : LET p == At(c.t) IN
  /\ \A i \in 1 .. 3 : Extreme(sh)[1][i] * 1000 - Tol <= p[i] /\ p[i] <= Extreme(sh)[2][i] * 1000 + Tol
  /\ sh.k = "sphere" => Abs(Dot(VSub(p, VMul(1000, sh.c)), VSub(p, VMul(1000, sh.c))) - sh.r * sh.r * Mega) <= 60000
  /\ sh.k \in {"quad", "tri"} => LET n == OuterNormal(sh, p, 1)
                                     q == IF sh.k = "quad" THEN sh.q ELSE sh.a
                                 IN Abs(Dot(n, VSub(p, VMul(1000, q)))) <= 100
(* convex shapes are crossed at most twice; a box with interior crossings exactly as its slabs say *)
InsideSlabs == "missed-box" \in JudgeSlab([blo |-> Lo(sh), bhi |-> Hi(sh), o |-> o, d |-> d, got |-> FALSE])
ClearOfSlabs == "box-not-there" \in JudgeSlab([blo |-> Lo(sh), bhi |-> Hi(sh), o |-> o, d |-> d, got |-> TRUE])
BoxAgrees == (sh.k = "box" /\ d # <<0, 0, 0>>) =>
  /\ Cardinality({c \in C : c.sure}) <= 2
  /\ (\E c \in C : c.sure /\ c.t > 0) => ~ClearOfSlabs
  /\ InsideSlabs => \E c \in C : c.t >= 0
  /\ ClearOfSlabs => \A c \in C : c.t <= 0
(* the faces look outwards: seen from a crossing, the ray enters before it leaves *)
EnterLeave == sh.k \in {"box", "sphere"} =>
  \A a, b \in C : (a.sure /\ b.sure /\ a.t < b.t) =>
     /\ Dot(OuterNormal(sh, [i \in 1 .. 3 |-> 1000 * At(a.t)[i]], a.face), d) <= 0 
     /\ Dot(OuterNormal(sh, [i \in 1 .. 3 |-> 1000 * At(b.t)[i]], b.face), d) >= 0
(* rigid motions: quarter turns of point and direction keep lengths, and compose *)
Quarter == {<<"rx", 0, 1, 1>>, <<"ry", 0, 1, 1>>, <<"rz", 0, 1, 1>>, <<"rx", 3, 4, 5>>, <<"ry", 3, -4, 5>>, <<"rz", -4, 3, 5>>}
Rigid == \A t \in Quarter : LET p == Trans(t, <<o[1], o[2], o[3], 1>>, FALSE)
                                v == Trans(t, <<d[1], d[2], d[3], 1>>, TRUE)
                                q == <<p[1], p[2], p[3]>>
                            IN /\ Dot(q, q) = p[4] * p[4] * Dot(o, o)
                               /\ p[1] * v[1] + p[2] * v[2] + p[3] * v[3] = p[4] * v[4] * Dot(o, d)
                               /\ Trans(<<t[1], t[2], -t[3], t[4]>>, p, FALSE) = <<o[1], o[2], o[3], 1>>
=============================================================================
