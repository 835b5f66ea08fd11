-------------------------------- MODULE Optics --------------------------------
(* What surfaces do to rays (M03, M04): mirrors, glass, matte surfaces, emitters,    *)
(* blends.  A ray arrives along lattice vector v at a surface of unit normal N/h      *)
(* (N . N = h * h) on the ray's side; outgoing directions are recorded times |v| and  *)
(* 10^5, so that everything but a root is exact.                                      *)
EXTENDS Sampling

Five == 100000
(* mirror direction, exactly: v - 2 (v.N) N / h^2 *)
Mirror(v, N, h) == <<[i \in 1 .. 3 |-> v[i] * h * h - 2 * Dot(v, N) * N[i]], h * h>>
IsMirror(m, v, N, h, tol) == LET r == Mirror(v, N, h) IN \A i \in 1 .. 3 : IsRat(m[i], r[1][i], r[2], 5, tol)

(* ratio of indices e = <<n, d>>: 1/index into the front, index out of it *)
Ratio(e) == IF e.front THEN <<e.ior[2], e.ior[1]>> ELSE e.ior
(* sin^2 times e^2 against one *)
Sin2(v, N, h) == <<Dot(v, v) * h * h - Dot(v, N) * Dot(v, N), Dot(v, v) * h * h>>
Bend(e) == LET s == Sin2(e.v, e.n, e.h)
               r == Ratio(e)
               g == Gcd(s[1], s[2])
           IN Sgn((s[1] \div g) * r[1] * r[1] - (s[2] \div g) * r[2] * r[2])      \* 1: total reflection, 0: critical
(* Snell: the part of the outgoing direction across the normal is e times that of the incoming one; *)
(* the outgoing one is of the same length and leaves on the other side                               *)
IsSnell(m, e) ==
  LET r == Ratio(e)
      c == Cross(e.v, e.n)
      d == Cross(m, e.n)
      L == Dot(e.v, e.v)
  IN /\ \A i \in 1 .. 3 : Abs(d[i] * r[2] - Five * r[1] * c[i]) <= 4 * e.h * r[2]
     /\ LET k == [i \in 1 .. 3 |-> m[i] \div 100] IN Abs(Dot(k, k) - L * 1000000) <= 8000 * (ISqrt(L) + 1)
     /\ Dot(m, e.n) <= 4 * e.h
(* Schlick's approximation times 10^6 *)
Schlick(e) ==
  LET r == Ratio(e)
      s == Dot(e.v, e.v) * e.h * e.h
      cos == Min2(MulDiv(-Dot(e.v, e.n) * 10000, 1000000, Root4(s)), 1000000)
      Mul(x, y) == MulDiv(x, y, 1000000)
      a == 1000000 - cos
      p5 == Mul(Mul(Mul(a, a), Mul(a, a)), a)
      r0 == MulDiv((r[1] - r[2]) * (r[1] - r[2]), 1000000, (r[1] + r[2]) * (r[1] + r[2]))
  IN r0 + Mul(1000000 - r0, p5)
(* recorded: dirs = <<direction, count>> pairs *)
Total(dirs) == SumSeq([i \in 1 .. Len(dirs) |-> dirs[i][2]])
JudgeGlass(e) ==
  LET b == Bend(e)
      p == Schlick(e)
      Mir(i) == IsMirror(e.dirs[i][1], e.v, e.n, e.h, 3)
      Sne(i) == b # 1 /\ IsSnell(e.dirs[i][1], e)
      refl == SumSeq([i \in 1 .. Len(e.dirs) |-> IF Mir(i) THEN e.dirs[i][2] ELSE 0])
  IN (IF \A i \in 1 .. Len(e.dirs) : Mir(i) \/ Sne(i) THEN {}
      ELSE IF b = 1 THEN {"total-reflection"} ELSE {"refraction"})
     \cup (IF Total(e.dirs) = e.total THEN {} ELSE {"scatter-kind"})
     \cup (IF b = 1 \/ b = 0 THEN {}
           ELSE IF Abs(refl - MulDiv(p, e.total, 1000000)) <= 6 * (ISqrt(MulDiv(p, e.total, 1000000)) + 1) + MulDiv(p, e.total, 1000000) \div 1000 THEN {} ELSE {"reflectance"})

(* a mirror of fuzz zero has one direction; otherwise the displacement over the fuzz fills the unit ball *)
JudgeMetal(e) ==
  (IF e.sharp => (\A i \in 1 .. Len(e.dirs) : IsMirror(e.dirs[i][1], e.v, e.n, e.h, 2)) /\ Total(e.dirs) = e.total THEN {} ELSE {"mirror"})
  \cup (IF e.sharp \/ (e.bad = 0 /\ IsMirror(e.mid, e.v, e.n, e.h, 2)) THEN {} ELSE {"fuzz"})
  \cup (IF e.sharp \/ Fair("ball", e.m, e.total, e.counts) THEN {} ELSE {"fuzz-distribution"})

(* start, colour, kind: of every scattering *)
JudgeCommon(e) == (IF e.elsewhere = 0 THEN {} ELSE {"start"}) \cup (IF e.colors = <<e.want>> THEN {} ELSE {"colour"}) \cup (IF e.notbasic = 0 THEN {} ELSE {"scatter-kind"})

(* ------------------------------------------------------------- matte surfaces (M04) *)
(* weights (at most two) summed over draws: on average what a perfect white surface returns, in *)
(* every direction                                                                               *)
JudgeFurnace(e) ==
  (IF e.elsewhere = 0 THEN {} ELSE {"start"})
  \cup (IF e.colors = <<e.want>> THEN {} ELSE {"colour"})
  \cup (IF e.notpdf = 0 /\ e.hits = 1 THEN {} ELSE {"scatter-kind"})
  \cup (IF e.below = 0 THEN {} ELSE {"weight-behind-the-surface"})
  \cup (IF e.nan = 0 THEN {} ELSE {"not-a-number"})
  \cup (IF Len(e.w) = Bins(e.what, e.m) /\ \A b \in 1 .. Len(e.w) : InBounds2(e.w[b], e.total, Measure(e.what, e.m, b)) THEN {} ELSE {"biased-direction"})
  \cup (IF Abs(SumSeq(e.w) - e.total) <= 6 * ISqrt(e.total) + Len(e.w) THEN {} ELSE {"energy"})

(* -------------------------------------------------------------------- emitters *)
(* lattice shape lit from inside and outside: the colour in front, black behind *)
JudgeEmit(e) ==
  (IF e.kind = "emit" THEN {} ELSE {"emitter-scatters"})
  \cup (IF e.color = (IF e.front THEN e.want ELSE <<0, 0, 0>>) THEN {} ELSE {"emission"})
  \cup (IF e.att = e.wantatt THEN {} ELSE {"attenuation-factor"})

(* ---------------------------------------------------------------------- blends *)
(* a blend is [a, b, f] (f in thousandths), a leaf its number; probability of leaf k, as a *)
(* weight of 1000^depth, depth levels being still to come                                    *)
RECURSIVE Leaf(_, _, _)
Leaf(t, k, depth) == IF t.leaf > 0 THEN (IF t.leaf = k THEN Pow(1000, depth) ELSE 0)
                     ELSE (1000 - t.f) * Leaf(t.a, k, depth - 1) + t.f * Leaf(t.b, k, depth - 1)
JudgeBlend(e) ==
  LET p(k) == <<Leaf(e.tree, k, 2), 1000000>>
      mean(k) == MulDiv(p(k)[1], e.total, 1000000)
  IN IF e.bad = 0 /\ \A k \in 1 .. Len(e.counts) : IF p(k)[1] = 0 THEN e.counts[k] = 0 ELSE IF p(k)[1] = 1000000 THEN e.counts[k] = e.total
                                                   ELSE Abs(e.counts[k] - mean(k)) <= Dev(mean(k)) THEN {} ELSE {"blend-" \o e.of}
===============================================================================
