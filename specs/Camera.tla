--------------------------------- MODULE Camera ---------------------------------
(* The camera (C01).  It looks along -back; the right side of the view is up x back,  *)
(* its upper side back x right, whatever the length of up and however it leans.         *)
(* Lengths are relative to the distance D between camera and look-at point.              *)
EXTENDS Sampling

Right(up, back) == Cross(up, back)
Above(up, back) == Cross(back, Right(up, back))
Len2(a) == Dot(a, a)
LenOf(a) == ISqrt(Len2(a))                          \* for vectors of whole length
Whole(a) == LenOf(a) * LenOf(a) = Len2(a)

(* view coordinates are k / 2^e; the tangent of half the opening is p / q; the image is  *)
(* w x h.  Where the ray meets the plane through the look-at point, from that point:      *)
(* rightwards (2u - 1) (p/q) (w/h), upwards (2v - 1) (p/q), as <<numerator, denominator>> *)
Red(a) == LET g == Gcd(a[1], a[2]) IN IF g = 0 THEN a ELSE <<a[1] \div g, a[2] \div g>>
Across(u, tan, w, h) == Red(<<(2 * u[1] - Pow(2, u[2])) * Red(<<tan[1] * w, tan[2] * h>>)[1], Pow(2, u[2]) * Red(<<tan[1] * w, tan[2] * h>>)[2]>>)
Upwards(v, tan) == Red(<<(2 * v[1] - Pow(2, v[2])) * tan[1], Pow(2, v[2]) * tan[2]>>)

SMulDiv(a, b, d) == Sgn(a) * Sgn(b) * MulDiv(Abs(a), Abs(b), d)
(* component c of the focus point, 10^5 *)
Focus5(e, c) == LET r == Right(e.up, e.back)
                    a == Above(e.up, e.back)
                    x == Across(e.u, e.tan, e.w, e.h)
                    y == Upwards(e.v, e.tan)
                IN SMulDiv(Scaled(x[1], x[2], 5), r[c], LenOf(r)) + SMulDiv(Scaled(y[1], y[2], 5), a[c], LenOf(a))

CamTol(e) == 4 + (Abs(e.focus[1]) + Abs(e.focus[2]) + Abs(e.focus[3])) \div 20000
JudgeCam(e) ==
  IF ~Whole(Right(e.up, e.back)) \/ ~Whole(Above(e.up, e.back)) THEN {"bad-case"}
  ELSE (IF \A c \in 1 .. 3 : Abs(e.focus[c] - Focus5(e, c)) <= CamTol(e) THEN {} ELSE {"focus-point"})
       \cup (IF e.forward THEN {} ELSE {"backwards"})
       \cup (IF e.spread <= 2 + CamTol(e) \div 4 THEN {} ELSE {"out-of-focus"})             \* all rays of the coordinate
       \cup (IF e.offplane <= 2 THEN {} ELSE {"not-in-the-lens-plane"})
       \cup (IF e.lens THEN (IF e.outside = 0 /\ Fair("disc", e.m, e.total, e.counts) THEN {} ELSE {"lens"})
             ELSE IF e.same THEN {} ELSE {"starts-elsewhere"})
=============================================================================
