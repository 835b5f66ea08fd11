------------------------------- MODULE Sampling -------------------------------
(* Random sampling (M01, M05, and the sampled halves of M02-M04, C01).  A measure   *)
(* gives every bin of a partition its exact rational probability; recorded samples  *)
(* of the real code are counted per bin, and may deviate by six standard deviations.*)
EXTENDS Num, FiniteSets

Sectors == 8
Ball2 == 4

(* number of bins, and <<P, D>>: probability P/D of bin b = 1 .. Bins *)
Bins(w, m) == CASE w \in {"float", "index"} -> m
                [] w \in {"disc", "cosine", "unit", "cone"} -> m * Sectors
                [] w = "ball" -> m * Ball2 * Sectors
                [] w = "quad" -> m * m
                [] w = "tri" -> 2 * m * m
                [] w = "cube" -> m * m * m
Odd(k) == 2 * k - 1                          \* k^2 - (k-1)^2
Cube(k) == 3 * k * k - 3 * k + 1             \* k^3 - (k-1)^3
Band(b) == (b - 1) \div Sectors + 1
Measure(w, m, b) ==
  CASE w \in {"float", "index"} -> <<1, m>>
    (* the disc by rings of equal width; directions by bands of equal height (Archimedes); *)
    (* cosine weighted directions by bands of the cosine                                     *)
    [] w \in {"disc", "cosine"} -> <<Odd(Band(b)), m * m * Sectors>>
    [] w \in {"unit", "cone"} -> <<1, m * Sectors>>
    [] w = "ball" -> <<Cube((b - 1) \div (Sectors * Ball2) + 1), m * m * m * Ball2 * Sectors>>
    [] w = "quad" -> <<1, m * m>>
    [] w = "cube" -> <<1, m * m * m>>
    (* a triangle: m^2 congruent triangles, upright (even) and upside down ones *)
    [] w = "tri" -> LET c == (b - 1) \div 2
                        i == c \div m
                        j == c % m
                    IN IF i + j + ((b - 1) % 2) < m THEN <<1, m * m>> ELSE <<0, m * m>>

(* six standard deviations of a count with mean e (e = N P/D <= 4 * 10^6) *)
Dev(e) == 6 * (ISqrt(e) + 1)
InBounds(c, N, p) == LET e == (N * p[1]) \div p[2] IN IF p[1] = 0 THEN c = 0 ELSE Abs(c - e) <= Dev(e)
(* weighted counts: weights of at most two *)
InBounds2(c, N, p) == LET e == (N * p[1]) \div p[2] IN Abs(c - e) <= 6 * (ISqrt(2 * e) + 1) + 1
Fair(w, m, N, counts) == /\ Len(counts) = Bins(w, m)
                         /\ \A b \in 1 .. Len(counts) : InBounds(counts[b], N, Measure(w, m, b))

JudgeDist(e) == (IF e.bad = 0 THEN {} ELSE {"out-of-range"})
           \cup (IF Fair(e.what, e.m, e.total, e.counts) /\ SumSeq(e.counts) + e.bad = e.total THEN {} ELSE {"distribution"})

(* ------------------------------------------------------------------ densities *)
RECURSIVE SDigits(_, _, _)
SDigits(q, r, k) == IF k = 0 THEN q
                    ELSE LET x == CHOOSE x \in 0 .. 9 : (20 * q + x) * x <= 100 * r /\ (x = 9 \/ (20 * q + x + 1) * (x + 1) > 100 * r)
                         IN SDigits(10 * q + x, 100 * r - (20 * q + x) * x, k - 1)
(* sqrt(D) * 10^4, D <= 10^6 *)
Root4(D) == LET q == ISqrt(D) IN SDigits(q, D - q * q, 4)

(* density per solid angle (times 10^6) of light s seen from lattice point o in direction d: *)
(* distance^2 / (|cos| * area), one over the solid angle of a sphere's cone, one over the    *)
(* whole sphere inside                                                                       *)
Flat(s) == IF s.k = "quad" THEN [q |-> s.q, u |-> s.u, v |-> s.v] ELSE [q |-> s.a, u |-> VSub(s.b, s.a), v |-> VSub(s.c, s.a)]
InsideSphere(s, o) == Dot(VSub(o, s.c), VSub(o, s.c)) < s.r * s.r
FlatDensity(s, o, d) ==
  LET f == Flat(s)
      n == Cross(f.u, f.v)
      num == Dot(n, VSub(f.q, o))
      nd == Abs(Dot(n, d))
      A == num * num * Dot(d, d)
      B == nd * nd * nd
      g == Gcd(A, B)
  IN (IF s.k = "tri" THEN 2 ELSE 1) * MulDiv(Root4(Dot(d, d)) * 100, A \div g, B \div g)
SphereDensity(s, o) ==
  IF InsideSphere(s, o) THEN 79577                        \* 10^6 / (4 pi)
  ELSE LET D == Dot(VSub(s.c, o), VSub(s.c, o))
           x == D * 10000 + Root4(D * (D - s.r * s.r))     \* 10^4 (D + sqrt(D (D - r^2)))
       IN MulDiv(x, 11300, 710 * s.r * s.r)               \* / (2 pi r^2), pi = 355/113
Density(s, o, d) == IF s.k = "sphere" THEN SphereDensity(s, o) ELSE FlatDensity(s, o, d)

(* whether direction d from o hits: "yes", "no" or "edge" *)
Aimed(s, o, d) ==
  IF s.k = "sphere"
  THEN LET oc == VSub(o, s.c)
           b == Dot(oc, d)
           D == b * b - Dot(d, d) * (Dot(oc, oc) - s.r * s.r)
       IN IF InsideSphere(s, o) THEN "yes" ELSE IF D < 0 \/ b > 0 THEN "no" ELSE IF D = 0 THEN "edge" ELSE "yes"
  ELSE LET f == Flat(s)
           n == Cross(f.u, f.v)
           sg == Sgn(Dot(n, d))
           nd == sg * Dot(n, d)
           num == sg * Dot(n, VSub(f.q, o))
           P == VAdd(VMul(nd, VSub(o, f.q)), VMul(num, d))
           a == Dot(n, Cross(P, f.v))
           b == Dot(n, Cross(f.u, P))
           den == nd * Dot(n, n)
       IN IF nd = 0 \/ num < 0 THEN "no"
          ELSE IF a < 0 \/ b < 0 \/ (IF s.k = "tri" THEN a + b > den ELSE a > den \/ b > den) THEN "no"
          ELSE IF a = 0 \/ b = 0 \/ (IF s.k = "tri" THEN a + b = den ELSE a = den \/ b = den) THEN "edge" ELSE "yes"
Near(m, x) == Abs(m - x) <= x \div 4000 + 6
JudgeDensity(e) ==
  LET aim == Aimed(e.s, e.o, e.d)
      x == Density(e.s, e.o, e.d)
      ok == CASE aim = "yes" -> Near(e.got, x)
              [] aim = "no" -> e.got = 0
              [] OTHER -> e.got = 0 \/ Near(e.got, x)
  IN IF ok THEN {} ELSE IF aim = "no" THEN {"density-off-the-light"} ELSE {"density"}

(* the recorded density of several lights is the average, that of a mix the mean of the two *)
JudgeMix(e) == (IF (\E i \in 1 .. Len(e.each) : e.each[i] > 100000000) \/ Abs(e.container * Len(e.each) - SumSeq(e.each)) <= 2 * Len(e.each) THEN {} ELSE {"average-over-lights"})
          \cup (IF e.container > 500000000 \/ Abs(2 * e.mixed - (e.container + e.cosine)) <= 4 THEN {} ELSE {"mixed-density"})
(* reported cosine density times 10^6: 10^6 cos / pi, for lattice normal and direction *)
CosDensity(n, d) == LET c == Dot(n, d) IN IF c <= 0 THEN 0 ELSE MulDiv(318310, c * 10000, Root4(Dot(n, n) * Dot(d, d)))
JudgeCos(e) == IF Abs(e.got - CosDensity(e.w, e.d)) <= 30 + CosDensity(e.w, e.d) \div 3000 /\ e.sphere = 79577 THEN {} ELSE {"cosine-density"}

(* directions drawn towards a light *)
JudgeAim(e) ==
  LET w == IF e.s.k = "sphere" THEN (IF InsideSphere(e.s, e.o) THEN "unit" ELSE "cone") ELSE e.s.k
  IN (IF e.missed = 0 THEN {} ELSE {"missed-the-light"})
     \cup (IF e.badpdf = 0 THEN {} ELSE {"density-not-positive"})
     \cup (IF w = "unit" THEN (IF Fair(w, e.m, e.total, e.unit) THEN {} ELSE {"distribution"})
           ELSE IF Fair(w, e.m, e.total, e.counts) THEN {} ELSE {"distribution"})
=============================================================================
