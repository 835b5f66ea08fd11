------------------------------- MODULE Algebra -------------------------------
(* Vectors, intervals and rays (G06): exact results on integer arguments, which the *)
(* recorder presents to the real code multiplied by powers of two.                  *)
EXTENDS Num, FiniteSets

Big == 1000000000            \* stands for infinity in intervals

(* ------------------------------------------------------------------- vectors *)
Refl(v, N, h) == <<[i \in 1 .. 3 |-> v[i] * h * h - 2 * Dot(v, N) * N[i]], h * h>>      \* n = N/h a unit vector
IsVec(m, v) == \A i \in 1 .. 3 : Abs(m[i] - v[i] * 100000) <= 1
IsVecQ(m, v, d) == \A i \in 1 .. 3 : IsRat(m[i], v[i], d[i], 5, 1)
IsNum(m, x) == Abs(m - x * 100000) <= 1

(* sqrt(x) * 10^3, x <= 4 * 10^8 *)
RECURSIVE Digits(_, _, _)
Digits(q, r, k) == IF k = 0 THEN q
                   ELSE LET x == CHOOSE x \in 0 .. 9 : (20 * q + x) * x <= 100 * r /\ (x = 9 \/ (20 * q + x + 1) * (x + 1) > 100 * r)
                        IN Digits(10 * q + x, 100 * r - (20 * q + x) * x, k - 1)
Sqrt3(D) == LET q == ISqrt(D) IN Digits(q, D - q * q, 3)

JudgeVec(e) ==
  LET a == e.a
      b == e.b
      k == e.k
      one == <<1, 1, 1>>
      C(name, ok) == IF ok THEN {} ELSE {name}
      L2 == Dot(a, a)
      w == Sqrt3(L2)
  IN C("add", IsVec(e.add, VAdd(a, b))) \cup C("add-assign", IsVec(e.addassign, VAdd(a, b)))
     \cup C("sub", IsVec(e.sub, VSub(a, b))) \cup C("add-number", IsVec(e.adds, VAdd(a, VMul(k, one))))
     \cup C("sub-number", IsVec(e.subs, VSub(a, VMul(k, one))))
     \cup C("product", IsVec(e.mul, [i \in 1 .. 3 |-> a[i] * b[i]])) \cup C("times-number", IsVec(e.smul, VMul(k, a)) /\ IsVec(e.smulf, VMul(k, a)))
     \cup C("quotient", (\A i \in 1 .. 3 : b[i] # 0) => IsVecQ(e.div, a, b))
     \cup C("by-number", k # 0 => IsVecQ(e.sdiv, a, <<k, k, k>>))
     \cup C("neg", IsVec(e.neg, VMul(-1, a))) \cup C("dot", IsNum(e.dot, Dot(a, b))) \cup C("cross", IsVec(e.cross, Cross(a, b)))
     \cup C("length-squared", IsNum(e.lsq, L2))
     \cup C("length", Abs(e.len \div 100 - w) <= 1)
     \cup C("unit", L2 # 0 => \A i \in 1 .. 3 : Abs(e.unit[i] - Scaled(a[i] * 1000, Max2(w, 1), 5)) <= (IF w = 0 THEN 0 ELSE 100000 \div w) + 3)
     \cup C("axis", \A i \in 1 .. 3 : IsNum(e.axis[i], a[i])) \cup C("axis-other", IsNum(e.axis[4], a[3]) /\ IsNum(e.axis[5], a[3]))
     \cup C("reflect", LET r == Refl(a, e.N, e.h) IN IsVecQ(e.refl, r[1], <<r[2], r[2], r[2]>>))
     \cup C("near-zero", e.small = (\A i \in 1 .. 3 : Abs(e.tiny[i]) < 10))
     \cup C("uv-difference", \A i \in 1 .. 2 : IsNum(e.uv[i], a[i] - b[i]))
     \cup C("degrees", IsNum(e.deg, k))

(* ------------------------------------------------------------------ intervals *)
(* <<min, max>>; -Big and Big are infinite *)
Has(iv, x) == iv[1] <= x /\ x <= iv[2]
Clamp(iv, x) == IF x < iv[1] THEN iv[1] ELSE IF x > iv[2] THEN iv[2] ELSE x
Join(a, b) == <<Min2(a[1], b[1]), Max2(a[2], b[2])>>
Shift(iv, x) == [i \in 1 .. 2 |-> IF Abs(iv[i]) = Big THEN iv[i] ELSE iv[i] + x]
Widen(iv, x) == <<IF Abs(iv[1]) = Big THEN iv[1] ELSE 2 * iv[1] - x, IF Abs(iv[2]) = Big THEN iv[2] ELSE 2 * iv[2] + x>>   \* doubled
IsEnd(m, x) == IF x = Big THEN m = PosInf ELSE IF x = -Big THEN m = NegInf ELSE IsNum(m, x)
IsEnd2(m, x) == IF x = Big THEN m = PosInf ELSE IF x = -Big THEN m = NegInf ELSE Abs(2 * m - x * 100000) <= 2
IsIv(m, iv) == IsEnd(m[1], iv[1]) /\ IsEnd(m[2], iv[2])
JudgeInterval(e) ==
  LET C(name, ok) == IF ok THEN {} ELSE {name}
      fin == Abs(e.i[1]) # Big /\ Abs(e.i[2]) # Big
  IN C("contains", e.has = Has(e.i, e.x))
     \cup C("clamp", e.i[1] <= e.i[2] => IsEnd(e.clamp, Clamp(e.i, e.x)))
     \cup C("size", IF fin THEN IsNum(e.size, e.i[2] - e.i[1]) ELSE e.i[1] = e.i[2] \/ e.size = (IF e.i[1] = Big \/ e.i[2] = -Big THEN NegInf ELSE PosInf))
     \cup C("union", IsIv(e.join, Join(e.i, e.j)) /\ IsIv(e.joinrev, Join(e.i, e.j)))
     \cup C("shift", IsIv(e.plus, Shift(e.i, e.x)) /\ IsIv(e.minus, Shift(e.i, -e.x)))
     \cup C("expand", IsEnd2(e.wide[1], Widen(e.i, e.x)[1]) /\ IsEnd2(e.wide[2], Widen(e.i, e.x)[2]))
     \cup C("constants", IsIv(e.empty, <<Big, -Big>>) /\ IsIv(e.all, <<-Big, Big>>) /\ e.rays = <<100, PosInf>>)

(* ----------------------------------------------------------------------- rays *)
(* squared shortest distance of the lines a + s x, b + t y as a rational <<num, den>> *)
Dist2(a, x, b, y) ==
  LET n == Cross(x, y)
      od == VSub(a, b)
      p == Cross(x, od)
  IN IF Dot(n, n) = 0 THEN <<Dot(p, p), Dot(x, x)>> ELSE <<Dot(od, n) * Dot(od, n), Dot(n, n)>>
JudgeRay(e) ==
  LET D == Dist2(e.a, e.x, e.b, e.y)
      g == Gcd(D[1], D[2])
      N == D[1] \div g
      Q == D[2] \div g
      w == Scaled(Sqrt3(N * Q), Q, 3)                      \* sqrt(N/Q) * 10^6
      at == [i \in 1 .. 3 |-> e.a[i] * 4 + e.t * e.x[i]]    \* times 4
  IN (IF \A i \in 1 .. 3 : Abs(4 * e.at[i] - at[i] * 100000) <= 4 THEN {} ELSE {"point-at-length"})
     \cup (IF IsVec(e.orig, e.a) /\ IsVec(e.dir, e.x) THEN {} ELSE {"ray"})
     \cup (IF Abs(e.dist - w) <= 1000 \div Q + 5 THEN {} ELSE {"distance"})
     \cup (IF Abs(e.distrev - w) <= 1000 \div Q + 5 THEN {} ELSE {"distance"})

(* ------------------------------------------------- orthonormal bases (10^4) *)
OrthoUnit(u, v) == Abs(Dot(u, v)) <= 30000
JudgeOnb(e) ==
  LET w == Sqrt3(Dot(e.w, e.w))
  IN (IF \A i \in 1 .. 3 : Abs(e.c[i] - Scaled(e.w[i] * 1000, w, 4)) <= 3 + 10000 \div w THEN {} ELSE {"basis-direction"})
     \cup (IF \A u \in {e.a, e.b, e.c} : Abs(Dot(u, u) - 100000000) <= 60000 THEN {} ELSE {"basis-length"})
     \cup (IF OrthoUnit(e.a, e.b) /\ OrthoUnit(e.a, e.c) /\ OrthoUnit(e.b, e.c) THEN {} ELSE {"basis-angles"})
     \cup (IF \A i \in 1 .. 3 : Abs(e.l[i] - (e.p[1] * e.a[i] + e.p[2] * e.b[i] + e.p[3] * e.c[i])) <= 40 THEN {} ELSE {"basis-coordinates"})
=============================================================================
