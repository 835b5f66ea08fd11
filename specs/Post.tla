---------------------------------- MODULE Post ----------------------------------
(* From colour sums to bytes (P01), and bloom (P02).                                *)
EXTENDS Num

RECURSIVE SDigits(_, _, _)
SDigits(q, r, k) == IF k = 0 THEN q ELSE LET d == CHOOSE x \in 0 .. 9 : (20 * q + x) * x <= 100 * r /\ (20 * q + x + 1) * (x + 1) > 100 * r
                                         IN SDigits(10 * q + d, 100 * r - (20 * q + d) * d, k - 1)
Root(D, k) == LET q == ISqrt(D) IN SDigits(q, D - q * q, k)        \* floor(sqrt(D) 10^k); 10^k sqrt(D) <= 10^6

(* ------------------------------------------------------------------ colours *)
(* The mean of a channel is (k + f / 1024) / 65536; its byte is floor(256 sqrt(mean))  *)
(* = floor(sqrt(k)), at most 255.  On the border between two bytes (k a square, f = 0)  *)
(* rounding may give the lower one unless the division is exact.  NaN, and the root of   *)
(* a negative mean, are 0; infinity is 255.                                               *)
Byte(k) == IF k = NaN \/ k = NegInf \/ k < 0 THEN 0 ELSE IF k = PosInf THEN 255 ELSE Min2(255, ISqrt(k))
ByteSet(k, f, exact) == IF Finite(k) /\ k > 0 /\ f = 0 /\ ~exact /\ ISqrt(k) * ISqrt(k) = k /\ ISqrt(k) <= 255 THEN {Byte(k), Byte(k) - 1} ELSE {Byte(k)}
ToneOK(e, px) == Len(px) = 3 * Len(e.k) /\ \A i \in 1 .. Len(e.k), c \in 1 .. 3 : px[3 * (i - 1) + c] \in ByteSet(e.k[i][c], e.f[i][c], e.exact)
(* the same without the rounding to a byte (10^4), at most 0.999 *)
FloatOK(m, k) == Finite(k) /\ k >= 0 => IF k > 65536 THEN m = 9990
                                     ELSE Min2(9990, (Root(k, 3) * 10) \div 256) - 2 <= m /\ m <= Min2(9990, (Root(k + 1, 3) * 10) \div 256) + 2
JudgeTone(e) == (IF ToneOK(e, e.rgb) THEN {} ELSE {"byte"}) \cup (IF e.same THEN {} ELSE {"nop-changes-colours"})
                \cup (IF ToneOK(e, e.img) THEN {} ELSE {"image-byte"})
                \cup (IF Len(e.fl) = 3 * Len(e.k) /\ \A i \in 1 .. Len(e.k), c \in 1 .. 3 : FloatOK(e.fl[3 * (i - 1) + c], e.k[i][c]) THEN {} ELSE {"float"})

(* -------------------------------------------------------------------- bloom *)
(* An image is a sequence of w h colours, row by row.  Mean colours are whole numbers    *)
(* (of some unit); a kernel of radius r has 2 r + 1 weights of standard deviation          *)
(* (2 r + 1) / 5.                                                                          *)

(* 10^6 exp(-n/d), 0 <= n/d < 4: four terms at a quarter of the exponent, squared twice *)
EXPS == 10000000
Exp6(n, d) == LET y == MulDiv(n, EXPS, 4 * d)                        \* 10^7 x / 4
                  M(a) == CHOOSE v \in {MulDiv(z, y, EXPS) : z \in {a}} : TRUE     \* evaluates a first
                  T8 == EXPS - M(EXPS) \div 8
                  T7 == EXPS - M(T8) \div 7
                  T6 == EXPS - M(T7) \div 6
                  T5 == EXPS - M(T6) \div 5
                  T4 == EXPS - M(T5) \div 4
                  T3 == EXPS - M(T4) \div 3
                  T2 == EXPS - M(T3) \div 2
                  e4 == EXPS - M(T2)
                  e2 == MulDiv(e4, e4, EXPS)
              IN MulDiv(e2, e2, EXPS) \div 10
(* weights (10^7) of a kernel of radius r *)
Weights(r) == LET K == 2 * r + 1
                  E == [i \in 1 .. K |-> Exp6(25 * (i - r - 1) * (i - r - 1), 2 * K * K)]
                  S == SumSeq(E)
                  q == IF K > 200 THEN 10 ELSE 1                      \* keeps the numbers small
              IN [i \in 1 .. K |-> MulDiv(E[i] \div q, EXPS, S \div q)]

(* the bright part of colour p (times 1000): threshold and maximum are squares of lengths, thr2 + 0.5 *)
(* when thrHalf; max = -1: unlimited                                                                   *)
Reaches(p, thr2, half) == IF half THEN Dot(p, p) > thr2 ELSE Dot(p, p) >= thr2
Bright(p, e) ==
  IF ~Finite(p[1]) THEN <<0, 0, 0>>
  ELSE IF ~Reaches(p, e.thr2, e.half) THEN <<0, 0, 0>>
  ELSE IF e.max < 0 \/ Dot(p, p) <= e.max * e.max THEN VMul(1000, p)
  ELSE LET R == Root(Dot(p, p), 3)                                       \* 10^3 |p| <= 10^6
       IN [c \in 1 .. 3 |-> MulDiv(p[c] * e.max, 1000000, R)]

At(w, h, x, y) == Min2(Max2(y, 0), h - 1) * w + Min2(Max2(x, 0), w - 1) + 1
(* one weighted sum along dir *)
Conv(img, W, c, w, h, x, y, dir) ==
  IF (dir = <<0, 1>> /\ h = 1) \/ (dir = <<1, 0>> /\ w = 1) THEN img[At(w, h, x, y)][c]      \* weights add up to one
  ELSE LET r == (Len(W) - 1) \div 2
      S == [i \in 1 .. Len(W) |-> LET o == i - r - 1
                                      v == img[At(w, h, x + o * dir[1], y + o * dir[2])][c]
                                  IN IF v = 0 THEN 0 ELSE MulDiv(v, W[i], EXPS)]
  IN SumSeq(S)
RECURSIVE SumSet(_, _)
SumSet(V, R) == IF R = {} THEN 0 ELSE LET j == CHOOSE j \in R : TRUE IN V[j] + SumSet(V, R \ {j})
Blur(img, W, w, h, dir) ==
  LET dark == {c \in 1 .. 3 : \A i \in 1 .. w * h : img[i][c] = 0}            \* nothing to spread
      lit == [c \in 1 .. 3 |-> {i \in 1 .. w * h : img[i][c] # 0}]
      r == (Len(W) - 1) \div 2
      (* the same sum for one row whose ends are dark: only the lit pixels within reach count *)
      One(c, x) == LET R == {j \in lit[c] : j - 1 - x \in (0 - r) .. r}
                       V == [j \in R |-> MulDiv(img[j][c], W[j - x + r], EXPS)]
                   IN SumSet(V, R)
  IN IF h = 1 /\ dir = <<1, 0>> /\ Len(W) > 100 /\ (\A c \in 1 .. 3 : lit[c] \cap {1, w} = {})
     THEN [i \in 1 .. w |-> [c \in 1 .. 3 |-> IF c \in dark THEN 0 ELSE One(c, i - 1)]]
     ELSE [i \in 1 .. w * h |-> [c \in 1 .. 3 |-> IF c \in dark THEN 0 ELSE Conv(img, W, c, w, h, ((i - 1) % w), ((i - 1) \div w), dir)]]
(* what bloom adds (times 1000) *)
Glow(e) == LET W == Weights(e.r)
               B == [i \in 1 .. e.w * e.h |-> Bright(e.px[i], e)]
               X == Blur(B, W, e.w, e.h, <<1, 0>>)
           IN Blur(X, W, e.w, e.h, <<0, 1>>)

GlowTol(e) == 4 * e.r + 8
JudgeBloom(e) ==
  IF Len(e.out) # e.w * e.h THEN {"size"}
  ELSE LET G == Glow(e)
       IN (IF \A i \in 1 .. e.w * e.h, c \in 1 .. 3 :
                 IF ~Finite(e.px[i][1]) THEN TRUE
                 ELSE Abs(e.out[i][c] - 1000 * e.px[i][c] - G[i][c]) <= (IF G[i][c] = 0 THEN 1 ELSE GlowTol(e))
           THEN {} ELSE {"bloom"})
          \cup (IF e.bytes THEN {} ELSE {"image-is-not-the-processed-colours"})
=============================================================================
