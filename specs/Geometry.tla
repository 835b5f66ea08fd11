------------------------------- MODULE Geometry -------------------------------
(* Exact geometry of the shapes on the integer lattice: where a ray meets a       *)
(* sphere, quad, triangle or box (G03), the boxes around them and the slab test    *)
(* (G02), transformations (G05).  The real code sees the same configurations,      *)
(* also in random poses; measurements come back in the lattice's frame.            *)
EXTENDS Num, FiniteSets, TLC

Mega == 1000000

(* sqrt(D) * 10^k, floor, D <= 10^6, k <= 4 *)
RECURSIVE SqrtDigits(_, _, _)
SqrtDigits(q, r, k) == IF k = 0 THEN q
                       ELSE LET x == CHOOSE x \in 0 .. 9 : (20 * q + x) * x <= 100 * r /\ (x = 9 \/ (20 * q + x + 1) * (x + 1) > 100 * r)
                            IN SqrtDigits(10 * q + x, 100 * r - (20 * q + x) * x, k - 1)
Sqrt4(D) == LET q == ISqrt(D) IN SqrtDigits(q, D - q * q, 4)

(* ------------------------------------------------------------------- crossings *)
(* a crossing: t (length along the ray, 10^6), tol (its uncertainty), sure (strictly *)
(* inside the shape: must be found), face (of a box)                                 *)
Crossing(t, tol, sure, face) == [t |-> t, tol |-> tol, sure |-> sure, face |-> face]

SphereCrossings(s, o, d) ==
  LET oc == VSub(o, s.c)
      a == Dot(d, d)
      b == Dot(oc, d)
      D == b * b - a * (Dot(oc, oc) - s.r * s.r)
  IN IF D < 0 THEN {}
     ELSE IF D = 0 THEN {Crossing(Scaled(-b, a, 6), 300, FALSE, 1)}
     ELSE LET w == Sqrt4(D)
          IN {Crossing(((-b * 10000 - w) \div a) * 100, 300, TRUE, 1), Crossing(((-b * 10000 + w) \div a) * 100, 300, TRUE, 1)}

(* plane coordinates <<alpha, beta, den>> of the point at num/nd *)
PlaneCoords(q, u, v, o, d) ==
  LET n == Cross(u, v)
      nd == Dot(n, d)
      num == Dot(n, VSub(q, o))
      P == VAdd(VMul(nd, VSub(o, q)), VMul(num, d))        \* (point - q) * nd
      s == IF nd < 0 THEN -1 ELSE 1
  IN [num |-> s * num, nd |-> s * nd, a |-> s * Dot(n, Cross(P, v)), b |-> s * Dot(n, Cross(u, P)), den |-> s * nd * Dot(n, n)]
Parallel(u, v, d) == Dot(Cross(u, v), d) = 0

FlatCrossings(tri, q, u, v, o, d, face) ==
  IF Parallel(u, v, d) THEN {}
  ELSE LET c == PlaneCoords(q, u, v, o, d)
           closed == IF tri THEN c.a >= 0 /\ c.b >= 0 /\ c.a + c.b <= c.den
                     ELSE c.a >= 0 /\ c.b >= 0 /\ c.a <= c.den /\ c.b <= c.den
           open == IF tri THEN c.a > 0 /\ c.b > 0 /\ c.a + c.b < c.den
                   ELSE c.a > 0 /\ c.b > 0 /\ c.a < c.den /\ c.b < c.den
       IN IF closed THEN {Crossing(Scaled(c.num, c.nd, 6), 4, open, face)} ELSE {}

(* faces of the box of corners a, b: outward normals +z, +x, -z, -x, +y, -y *)
Lo(s) == [i \in 1 .. 3 |-> Min2(s.a[i], s.b[i])]
Hi(s) == [i \in 1 .. 3 |-> Max2(s.a[i], s.b[i])]
Face(s, f) ==
  LET l == Lo(s)
      h == Hi(s)
      X == <<h[1] - l[1], 0, 0>>
      Y == <<0, h[2] - l[2], 0>>
      Z == <<0, 0, h[3] - l[3]>>
  IN CASE f = 1 -> <<<<l[1], l[2], h[3]>>, X, Y>>
       [] f = 2 -> <<<<h[1], l[2], l[3]>>, Y, Z>>
       [] f = 3 -> <<<<l[1], l[2], l[3]>>, Y, X>>
       [] f = 4 -> <<<<l[1], l[2], l[3]>>, Z, Y>>
       [] f = 5 -> <<<<l[1], h[2], l[3]>>, Z, X>>
       [] f = 6 -> <<<<l[1], l[2], l[3]>>, X, Z>>
FaceNormal(f) == <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 0, -1>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>>>[f]

Crossings(s, o, d) ==
  CASE s.k = "sphere" -> SphereCrossings(s, o, d)
    [] s.k = "quad" -> FlatCrossings(FALSE, s.q, s.u, s.v, o, d, 1)
    [] s.k = "tri" -> FlatCrossings(TRUE, s.a, VSub(s.b, s.a), VSub(s.c, s.a), o, d, 1)
    [] s.k = "box" -> UNION {FlatCrossings(FALSE, Face(s, f)[1], Face(s, f)[2], Face(s, f)[3], o, d, f) : f \in 1 .. 6}

(* outward normal (not unit) at a crossing, the hit point p in 10^6 for spheres *)
OuterNormal(s, p, face) ==
  CASE s.k = "sphere" -> VSub(p, VMul(Mega, s.c))
    [] s.k = "quad" -> Cross(s.u, s.v)
    [] s.k = "tri" -> Cross(VSub(s.b, s.a), VSub(s.c, s.a))
    [] s.k = "box" -> FaceNormal(face)

(* texture coordinates of a flat shape, <<u numerator, v numerator, denominator>> *)
FlatUv(s, o, d) ==
  IF s.k = "quad" THEN LET c == PlaneCoords(s.q, s.u, s.v, o, d) IN <<c.a, c.b, c.den>>
  ELSE LET c == PlaneCoords(s.a, VSub(s.b, s.a), VSub(s.c, s.a), o, d)
           mix(i) == s.uv[1][i] * c.den + c.a * (s.uv[2][i] - s.uv[1][i]) + c.b * (s.uv[3][i] - s.uv[1][i])
       IN <<mix(1), mix(2), 4 * c.den>>

(* ------------------------------------------------------------ recorded intersections *)
(* the interval [lo, hi] in 10^6 *)
(* where all numbers involved are small binary fractions, edges and ends count, too *)
SureIn(e, c) == IF e.exact THEN e.lo <= c.t /\ c.t <= e.hi
                ELSE c.sure /\ e.lo + c.tol < c.t /\ c.t < e.hi - c.tol
MaybeIn(e, c) == e.lo - c.tol <= c.t /\ c.t <= e.hi + c.tol

NormalOk(e, c) ==
  LET g == OuterNormal(e.s, e.p, c.face)
      into == IF e.s.k = "sphere" THEN Sgn(Dot(VSub(e.p, VMul(Mega, e.s.c)), e.d)) ELSE Sgn(Dot(g, e.d))
      (* seen from a tangent either side is the ray's *)
      turns == IF e.s.k = "sphere" /\ ~c.sure THEN {1, -1} ELSE IF into < 0 THEN {1} ELSE {-1}
  IN \E turn \in turns : IF e.s.k = "sphere"
     THEN \A i \in 1 .. 3 : Abs(e.n[i] * e.s.r - turn * g[i]) <= 40
     ELSE LET m == [i \in 1 .. 3 |-> e.n[i] \div 100]
          IN /\ Abs(Dot(m, m) - 100000000) <= 60000
             /\ turn * Dot(g, m) > 0
             /\ \A i \in 1 .. 3 : Abs(Cross(m, g)[i]) <= 150
FrontOk(e, c) ==
  LET g == OuterNormal(e.s, e.p, c.face)
  IN e.front = (Dot([i \in 1 .. 3 |-> IF e.s.k = "sphere" THEN g[i] \div 10 ELSE g[i]], e.d) < 0)
(* sphere: x = -rho cos 2 pi u, z = rho sin 2 pi u, y = -cos pi v; the recorder gives the  *)
(* cosines and sines of what it measured (10^4)                                             *)
SphereUvOk(e) ==
  LET g == [i \in 1 .. 3 |-> ((e.p[i] - Mega * e.s.c[i]) \div (100 * e.s.r))]       \* 10^4
      rho == ISqrt(g[1] * g[1] + g[3] * g[3])
  IN /\ Abs(g[2] + e.cv) <= 15
     /\ rho < 500 \/ /\ Abs(g[1] + (rho * e.cu) \div 10000) <= 15
                      /\ Abs(g[3] - (rho * e.su) \div 10000) <= 15
FlatUvOk(e) == LET w == FlatUv(e.s, e.o, e.d)
               IN IsRat(e.uv[1], w[1], w[3], 6, 4) /\ IsRat(e.uv[2], w[2], w[3], 6, 4)

(* the faces of a box meet: a hit on an edge may be either face's *)
Matches(e) == {c \in Crossings(e.s, e.o, e.d) : Abs(c.t - e.t) <= c.tol + 2 /\ MaybeIn(e, c)}

JudgeHit(e) ==
  LET C == Crossings(e.s, e.o, e.d)
  IN IF ~e.got
     THEN IF \E c \in C : SureIn(e, c) THEN {"missed-hit"} ELSE {}
     ELSE LET M == Matches(e)
          IN IF M = {} THEN {"no-such-crossing"}
             ELSE (IF \E c \in C : SureIn(e, c) /\ c.t + c.tol + 2 < e.t THEN {"not-the-nearest"} ELSE {})
                  \cup (IF Abs(e.t) < 300 * Mega /\ ~(\A i \in 1 .. 3 : Abs(e.p[i] - (e.o[i] * Mega + e.t * e.d[i])) <= 12 + Abs(e.d[i])) THEN {"hit-point"} ELSE {})
                  \cup (IF \E c \in M : NormalOk(e, c) /\ (c.sure => FrontOk(e, c)) THEN {}
                        ELSE IF \E c \in M : NormalOk(e, c) THEN {"front-face"} ELSE {"normal"})
                  \cup (IF e.uvok /\ ~(IF e.s.k = "sphere" THEN SphereUvOk(e) ELSE IF e.s.k = "box" THEN TRUE ELSE FlatUvOk(e))
                        THEN {"texture-coordinates"} ELSE {})

(* ------------------------------------------------------------------ boxes (G02) *)
Extreme(s) ==
  CASE s.k = "sphere" -> <<[i \in 1 .. 3 |-> s.c[i] - s.r], [i \in 1 .. 3 |-> s.c[i] + s.r]>>
    [] s.k = "quad" -> LET P == {s.q, VAdd(s.q, s.u), VAdd(s.q, s.v), VAdd(VAdd(s.q, s.u), s.v)}
                       IN <<[i \in 1 .. 3 |-> CHOOSE x \in {p[i] : p \in P} : \A p \in P : x <= p[i]],
                            [i \in 1 .. 3 |-> CHOOSE x \in {p[i] : p \in P} : \A p \in P : x >= p[i]]>>
    [] s.k = "tri" -> LET P == {s.a, s.b, s.c}
                      IN <<[i \in 1 .. 3 |-> CHOOSE x \in {p[i] : p \in P} : \A p \in P : x <= p[i]],
                           [i \in 1 .. 3 |-> CHOOSE x \in {p[i] : p \in P} : \A p \in P : x >= p[i]]>>
    [] s.k = "box" -> <<Lo(s), Hi(s)>>

(* measured box: e.lo, e.hi in units of the lattice times 1000, one unit being e.unit     *)
(* nanometres, say; flat: an extent below 1/10000 may be, and one of zero must be, widened *)
(* to a positive thickness of at most 2/10000                                              *)
AxisOk(e, i) ==
  LET x == Extreme(e.s)
      lo == 1000 * x[1][i]
      hi == 1000 * x[2][i]
      thin == (x[2][i] - x[1][i]) <= e.thin          \* extents up to this many units are flat
      pad == e.pad                                    \* 2/10000 in measured units
  IN IF thin THEN /\ e.lo[i] <= lo + 1 /\ hi - 1 <= e.hi[i] /\ lo - e.lo[i] <= pad /\ e.hi[i] - hi <= pad
                  /\ e.wide[i]
     ELSE Abs(e.lo[i] - lo) <= 2 /\ Abs(e.hi[i] - hi) <= 2
JudgeBox(e) == IF \A i \in 1 .. 3 : AxisOk(e, i) THEN {} ELSE {"bounding-box"}

(* whatever meets the shape meets its box *)
JudgeBoxHit(e) == IF ~e.got /\ \E c \in Crossings(e.s, e.o, e.d) : c.sure /\ c.t > 1000 + c.tol THEN {"shape-outside-its-box"} ELSE {}

(* a box of boxes (measured, 10^6): their union; of none: empty *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
JudgeUnion(e) ==
  IF e.boxes = <<>> THEN IF e.empty THEN {} ELSE {"union-of-nothing"}
  ELSE IF \A i \in 1 .. 3 : /\ e.lo[i] = MinOf({e.boxes[k][1][i] : k \in 1 .. Len(e.boxes)})
                            /\ e.hi[i] = MaxOf({e.boxes[k][2][i] : k \in 1 .. Len(e.boxes)})
       THEN {} ELSE {"not-the-union"}

(* slab test on the lattice: the parameters at which the ray is strictly between the planes *)
(* of axis i, as rationals over positive denominators; <<>>: never, "all": always            *)
Slab(l, h, o, d) == IF d = 0 THEN (IF l < o /\ o < h THEN "all" ELSE IF o < l \/ o > h THEN "none" ELSE "edge")
                    ELSE IF d > 0 THEN <<l - o, h - o, d>> ELSE <<o - h, o - l, -d>>
(* a/x < b/y for x, y > 0 *)
Less(a, x, b, y) == a * y < b * x
Leq(a, x, b, y) == a * y <= b * x
JudgeSlab(e) ==
  LET sl == [i \in 1 .. 3 |-> Slab(e.blo[i], e.bhi[i], e.o[i], e.d[i])]
      mv == {i \in 1 .. 3 : e.d[i] # 0}
      fixed == {sl[i] : i \in (1 .. 3) \ mv}
      enters == {<<0, 1>>} \cup {<<sl[i][1], sl[i][3]>> : i \in mv}
      leaves == {<<sl[i][2], sl[i][3]>> : i \in mv}
      inside == fixed \subseteq {"all"} /\ \A x \in enters, y \in leaves : Less(x[1], x[2], y[1], y[2])
      away == "none" \in fixed \/ \E x \in enters, y \in leaves : Less(y[1], y[2], x[1], x[2])
  IN (IF inside /\ ~e.got THEN {"missed-box"} ELSE {}) \cup (IF away /\ e.got THEN {"box-not-there"} ELSE {})

JudgeCenter(e) == (IF \A i \in 1 .. 3 : e.center[i] = (e.blo[i] + e.bhi[i]) * (Mega \div 2) THEN {} ELSE {"center"})
             \cup (LET D == Dot(VSub(e.bhi, e.blo), VSub(e.bhi, e.blo)) IN IF Abs(e.diag \div 100 - Sqrt4(D)) <= 2 THEN {} ELSE {"diagonal"})
             \cup (IF \A i \in 1 .. 3 : e.slo[i] = (e.blo[i] + e.shift[i]) * Mega /\ e.shi[i] = (e.bhi[i] + e.shift[i]) * Mega THEN {} ELSE {"shifted-box"})
             \cup (IF \A i \in 1 .. 3 : e.clo[i] = Min2(e.blo[i], e.plo[i]) * Mega /\ e.chi[i] = Max2(e.bhi[i], e.phi[i]) * Mega THEN {} ELSE {"combined-box"})

(* -------------------------------------------------------- transformations (G05) *)
(* a transformation: <<"t", x, y, z>>, <<"s", n, d>>, <<"rx"|"ry"|"rz", c, s, h>> with cos = c/h, *)
(* sin = s/h, <<"list", <<..>>>>; points are <<x, y, z, den>>                                     *)
Reduce(p) == LET g == Gcd(Gcd(p[1], p[2]), Gcd(p[3], p[4])) IN <<p[1] \div g, p[2] \div g, p[3] \div g, p[4] \div g>>
RECURSIVE Trans(_, _, _), TransList(_, _, _)
Trans(tr, p, dir) ==
  CASE tr[1] = "t" -> IF dir THEN p ELSE <<p[1] + tr[2] * p[4], p[2] + tr[3] * p[4], p[3] + tr[4] * p[4], p[4]>>
    [] tr[1] = "s" -> Reduce(<<p[1] * tr[2], p[2] * tr[2], p[3] * tr[2], p[4] * tr[3]>>)
    [] tr[1] = "rx" -> Reduce(<<p[1] * tr[4], tr[2] * p[2] + tr[3] * p[3], tr[2] * p[3] - tr[3] * p[2], p[4] * tr[4]>>)
    [] tr[1] = "ry" -> Reduce(<<tr[2] * p[1] + tr[3] * p[3], p[2] * tr[4], tr[2] * p[3] - tr[3] * p[1], p[4] * tr[4]>>)
    [] tr[1] = "rz" -> Reduce(<<tr[2] * p[1] + tr[3] * p[2], tr[2] * p[2] - tr[3] * p[1], p[3] * tr[4], p[4] * tr[4]>>)
    [] tr[1] = "nop" -> p
    [] tr[1] = "list" -> TransList(tr[2], p, dir)
TransList(l, p, dir) == IF l = <<>> THEN p ELSE TransList(Tail(l), Trans(Head(l), p, dir), dir)

JudgeTrans(e) ==
  LET r == Trans(e.tr, <<e.p[1], e.p[2], e.p[3], 1>>, e.dir)
  IN IF \A i \in 1 .. 3 : IsRat(e.got[i], r[i], r[4], 6, 2) THEN {} ELSE {"transformed-point"}
=============================================================================
