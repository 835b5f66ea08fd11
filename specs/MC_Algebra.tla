----------------------------- MODULE MC_Algebra -----------------------------
(* the definitions satisfy the laws they stand for, on all small arguments *)
EXTENDS Algebra, TLC
CONSTANT R
VARIABLES a, b, st
Coord == -R .. R
V == Coord \X Coord \X Coord
Init == a \in V /\ b = <<0, 0, 0>> /\ st = 0
Next == st = 0 /\ st' = 1 /\ b' \in V /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, st>>
Zero == <<0, 0, 0>>
Laws ==
  /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0
  /\ Cross(a, b) = VMul(-1, Cross(b, a))
  /\ Dot(Cross(a, b), Cross(a, b)) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b)
  /\ VAdd(VSub(a, b), b) = a
Normals == {<<<<1, 2, 2>>, 3>>, <<<<0, 3, -4>>, 5>>, <<<<-2, 6, 3>>, 7>>, <<<<0, 1, 0>>, 1>>}
ReflectLaws == \A n \in Normals : LET r == Refl(a, n[1], n[2]) IN
  /\ Dot(r[1], r[1]) = r[2] * r[2] * Dot(a, a)
  /\ Dot(r[1], n[1]) = -r[2] * Dot(a, n[1])
  /\ Cross(VSub(r[1], VMul(r[2], a)), n[1]) = Zero
(* lines through a and b: nothing is closer than the shortest distance, which is reached *)
Dirs == {<<1, 0, 0>>, <<0, 1, 1>>, <<1, -1, 2>>, <<2, 0, 0>>}
DistanceLaws == \A x \in Dirs, y \in Dirs : LET D == Dist2(a, x, b, y) IN
  /\ LET E == Dist2(b, y, a, x) IN D[1] * E[2] = E[1] * D[2]
  /\ \A s \in -2 .. 2, t \in -2 .. 2 : LET p == VSub(VAdd(a, VMul(s, x)), VAdd(b, VMul(t, y))) IN D[1] <= D[2] * Dot(p, p)
IvLaws ==
  LET i == <<a[1], a[2]>>
      j == <<b[1], b[2]>>
  IN /\ \A x \in Coord : Has(i, x) \/ Has(j, x) => Has(Join(i, j), x)
     /\ i[1] <= i[2] => Has(i, Clamp(i, a[3])) /\ (Has(i, a[3]) => Clamp(i, a[3]) = a[3])
     /\ Join(i, <<Big, -Big>>) = i
     /\ \A x \in Coord : Has(i, x) = Has(Shift(i, b[3]), x + b[3])
     /\ Has(Widen(i, 2), 2 * a[3]) = Has(<<i[1] - 1, i[2] + 1>>, a[3])
=============================================================================
