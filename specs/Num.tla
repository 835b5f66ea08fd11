--------------------------------- MODULE Num ---------------------------------
(* Exact rational arithmetic within TLC's 32-bit integers.  The recorder writes *)
(* measured reals as integers, real * scale rounded to nearest.                 *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE IF b < 0 THEN Gcd(a, -b) ELSE Gcd(b, a % b)
RECURSIVE SumPart(_, _, _)
SumPart(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a] ELSE LET h == (a + b) \div 2 IN SumPart(s, a, h) + SumPart(s, h + 1, b)
SumSeq(s) == SumPart(s, 1, Len(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* the not-finite values of the recorder, and its limit *)
NaN    == 2000000001
PosInf == 2000000002
NegInf == 2000000003
Finite(m) == Abs(m) <= 2000000000

(* floor(n/d * 10^k), d > 0, by long division: no intermediate exceeds 10 d *)
RECURSIVE LongDiv(_, _, _)
LongDiv(r, d, k) == IF k = 0 THEN 0
                    ELSE ((10 * r) \div d) * Pow(10, k - 1) + LongDiv((10 * r) % d, d, k - 1)
Scaled(n, d, k) == LET s == IF d < 0 THEN -1 ELSE 1
                       nn == s * n
                       dd == s * d
                   IN (nn \div dd) * Pow(10, k) + LongDiv(nn % dd, dd, k)

(* measured m (scaled by 10^k) equals n/d within tol units *)
IsRat(m, n, d, k, tol) == Abs(m - Scaled(n, d, k)) <= tol + 1

(* integer square root of x < 2^31 *)
RECURSIVE SqrtIter(_, _)
SqrtIter(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE SqrtIter(x, h)
ISqrt(x) == IF x = 0 THEN 0 ELSE SqrtIter(x, IF x > 1000000 THEN 46340 ELSE x)

(* floor(a*b/d) for a <= 10^8, b >= 0, 0 < d <= 10^7, whatever the product *)
RECURSIVE MulDivQR(_, _, _)
MulDivQR(a, b, d) == IF b = 0 THEN <<0, 0>>
                     ELSE LET p == MulDivQR(a, b \div 10, d)
                              x == 10 * p[2] + a * (b % 10)
                          IN <<10 * p[1] + x \div d, x % d>>
MulDiv(a, b, d) == MulDivQR(a, b, d)[1]

(* vectors are <<x, y, z>> *)
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VMul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
VNear(m, e, tol) == \A i \in 1 .. 3 : Abs(m[i] - e[i]) <= tol
=============================================================================
