---------------------------------- MODULE Fog ----------------------------------
(* Fog of constant density in a closed convex boundary (M02).  The density is chosen  *)
(* such that the part of the ray inside the volume and inside the requested interval   *)
(* is m half-value lengths long: the ray passes j of them unscattered with probability *)
(* 1/2^j exactly.                                                                      *)
EXTENDS Geometry

(* crossings of a boundary: a shape, or a mesh of triangles *)
Border(s, o, d) == IF s.k = "mesh"
                   THEN UNION {FlatCrossings(TRUE, s.f[i][1], VSub(s.f[i][2], s.f[i][1]), VSub(s.f[i][3], s.f[i][1]), o, d, i) : i \in 1 .. Len(s.f)}
                   ELSE Crossings(s, o, d)
MinT(C) == CHOOSE x \in {c.t : c \in C} : \A c \in C : x <= c.t
MaxT(C) == CHOOSE x \in {c.t : c \in C} : \A c \in C : x >= c.t
(* the part inside volume and interval, never before the ray's start: <<from, to>> *)
Part(s, o, d, a, b) == LET C == Border(s, o, d)
                       IN IF C = {} THEN <<0, 0>>
                          ELSE LET f == Max2(Max2(MinT(C), a), 0)
                                   t == Min2(MaxT(C), b)
                               IN IF f < t THEN <<f, t>> ELSE <<0, 0>>

(* six standard deviations of a count with mean N/2^j *)
DepthOk(c, N, j) == LET e == N \div Pow(2, j) IN Abs(c - e) <= 6 * (ISqrt(e) + 1)
JudgeFog(e) ==
  LET p == Part(e.s, e.o, e.d, e.a, e.b)
      len == MulDiv((e.to - e.from) \div 10, Sqrt4(Dot(e.d, e.d)) \div 10, 10000)  \* in units, times 10^4
  IN (IF e.outside = 0 THEN {} ELSE {"scattered-outside"})
     \cup (IF e.badpoint = 0 THEN {} ELSE {"scatter-point"})
     \cup (IF p = <<0, 0>> THEN (IF e.none = e.total THEN {} ELSE {"scattered-outside"})
           ELSE (IF Abs(e.from - p[1]) > 310 \/ Abs(e.to - p[2]) > 310 \/ Abs(MulDiv(e.dens, len, 10000) - e.m * 693147) > 20000 THEN {"case-of-another-volume"} ELSE {})
                \cup (IF (\A j \in 1 .. e.m : DepthOk(e.counts[j], e.total, j)) /\ DepthOk(e.none, e.total, e.m) THEN {} ELSE {"depth-distribution"}))
================================================================================
