------------------------------ MODULE PathLight ------------------------------
(* The light a path carries (R07) and what the preview shaders show (R08).      *)
(*                                                                               *)
(* A path meets surfaces 1..n and ends in an emitter, in nothing (background) or *)
(* is cut off: a surface met at depth >= the bounce limit is black.  Tracing     *)
(* recurses down the path and folds the colours on the way back; a diffuse fold   *)
(* is limited to 3 and not-a-number becomes 0.                                    *)
EXTENDS Num, FiniteSets

CONSTANTS MaxSurf, Limits, Weights, Bug

(* ---------------------------------------------------- the recursion as a machine *)
VARIABLES surfs, fin, lim,       \* the path: surfaces <<kind, weight>>, its end, the bounce limit
          depth, stack, phase,   \* recursion: surfaces passed so far, down / up / done
          ret, att, dist         \* value, attenuated?, distance travelled
vars == <<surfs, fin, lim, depth, stack, phase, ret, att, dist>>

SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Kinds == {"pass", "diff"}
Light == 2
Back == 1
Cap(x) == IF Bug = "nocap" THEN x ELSE Min2(x, 3)

Init == /\ surfs \in SeqsUpTo(Kinds \X Weights, MaxSurf)
        /\ fin \in {"emit", "none"}
        /\ lim \in Limits
        /\ depth = 0 /\ stack = <<>> /\ phase = "down" /\ ret = 0 /\ att = FALSE /\ dist = 0

(* next surface at this depth: surface depth+1, then the end *)
Down ==
  /\ phase = "down"
  /\ LET last == depth = Len(surfs)
         over == IF Bug = "late" THEN depth > lim ELSE depth >= lim
     IN IF last /\ fin = "none"
        THEN /\ ret' = Back /\ att' = (Bug = "attbg") /\ phase' = "up"
             /\ UNCHANGED <<depth, stack, dist>>
        ELSE IF over
        THEN /\ ret' = 0 /\ att' = FALSE /\ phase' = "up"
             /\ UNCHANGED <<depth, stack, dist>>
        ELSE IF last
        THEN /\ ret' = Light /\ att' = TRUE /\ dist' = dist + 1 /\ phase' = "up"
             /\ UNCHANGED <<depth, stack>>
        ELSE /\ stack' = Append(stack, surfs[depth + 1])
             /\ depth' = depth + 1 /\ dist' = dist + 1
             /\ UNCHANGED <<ret, att, phase>>
  /\ UNCHANGED <<surfs, fin, lim>>
Up ==
  /\ phase = "up"
  /\ IF stack = <<>> THEN phase' = "done" /\ UNCHANGED <<stack, ret>>
     ELSE LET s == stack[Len(stack)]
          IN /\ ret' = IF s[1] = "diff" THEN Cap(s[2] * ret) ELSE s[2] * ret
             /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
             /\ UNCHANGED phase
  /\ UNCHANGED <<surfs, fin, lim, depth, att, dist>>
Done == phase = "done" /\ UNCHANGED vars
Next == Down \/ Up \/ Done
Spec == Init /\ [][Next]_vars

(* what the caller is promised *)
Surfaces == Len(surfs) + (IF fin = "emit" THEN 1 ELSE 0)
RECURSIVE Product(_, _)
Product(s, v) == IF s = <<>> THEN v ELSE LET rest == Product(Tail(s), v) * Head(s)[2]
                                         IN IF Head(s)[1] = "diff" THEN Min2(3, rest) ELSE rest
Promise == phase = "done" =>
  /\ ret = IF Surfaces > lim THEN 0 ELSE Product(surfs, IF fin = "emit" THEN Light ELSE Back)
  /\ att => (fin = "emit" /\ Surfaces <= lim)
  /\ (fin = "emit" /\ Surfaces <= lim) => (att /\ dist = Surfaces)
  /\ (\E i \in 1 .. Len(surfs) : surfs[i][1] = "diff" /\ \A j \in 1 .. i - 1 : surfs[j][2] = 1) => ret <= 3

(* ------------------------------------------------------------- recorded paths *)
(* values are fixed point numbers, 10^6 units, or the codes NaN and PosInf *)
One == 1000000
Mul(a, b) == IF a = NaN \/ b = NaN THEN NaN
             ELSE IF a = PosInf THEN (IF b = 0 THEN NaN ELSE PosInf)
             ELSE IF b = PosInf THEN (IF a = 0 THEN NaN ELSE PosInf)
             ELSE MulDiv(a, b, One)
Filter(v) == IF v = NaN THEN 0 ELSE IF v = PosInf THEN 3 * One ELSE Min2(v, 3 * One)

RECURSIVE Fold(_, _, _)
Fold(steps, v, c) == IF steps = <<>> THEN v
                     ELSE LET s == Head(steps)
                              r == Fold(Tail(steps), v, c)
                          IN IF s.k = "diff" THEN Filter(Mul(Mul(s.f[c], s.p), r)) ELSE Mul(s.f[c], r)
Near(m, v, tol) == IF v \in {NaN, PosInf} \/ m \in {NaN, PosInf} THEN m = v ELSE Abs(m - v) <= tol + v \div 5000

Total(e) == e.acc + SumSeq([i \in 1 .. Len(e.steps) |-> e.steps[i].s]) + (IF e.end = "emit" THEN e.seg ELSE 0)
TooLong(e) == e.depth + Len(e.steps) + (IF e.end = "emit" THEN 1 ELSE 0) > e.max

(* a path through any scene, its surfaces as the recorder met them one by one *)
JudgePath(e) ==
  IF TooLong(e) THEN IF e.color = <<0, 0, 0>> /\ e.final = <<0, 0, 0>> THEN {} ELSE {"beyond-the-bounce-limit"}
  ELSE IF e.end = "cut" THEN {"recorder"}
  ELSE
  (IF \A c \in 1 .. 3 : Near(e.color[c], Fold(e.steps, e.light[c], c), 200) THEN {} ELSE {"not-the-product-of-the-surfaces"})
  \cup (IF e.end = "emit" /\ e.att >= 0
        THEN (IF e.factor # e.att THEN {"attenuation-factor"} ELSE {})
             \cup (IF Abs(e.len - Total(e)) > 50 THEN {"distance-travelled"} ELSE {})
             \cup (IF \A c \in 1 .. 3 : e.color[c] \in {NaN, PosInf}
                      \/ Near(MulDiv(e.final[c], One + MulDiv(e.att, Total(e), One), One), e.color[c], 200 + Total(e) \div One)
                   THEN {} ELSE {"attenuation"})
        ELSE IF e.final = e.color THEN {} ELSE {"attenuated-without-reason"})

(* a corridor of known surfaces: tints in eighths, segments in halves; exact *)
RECURSIVE TintProduct(_, _)
TintProduct(decl, c) == IF decl = <<>> THEN 1 ELSE Head(decl)[2][c] * TintProduct(Tail(decl), c)
(* most surfaces of a very long corridor are white *)
Tinted(e) == SelectSeq(e.decl, LAMBDA x : x[2] # <<8, 8, 8>>)
DeclSurfaces(e) == Len(e.decl) + (IF e.fin # "none" THEN 1 ELSE 0)
DeclDist2(e) == SumSeq([i \in 1 .. Len(e.decl) |-> e.decl[i][3]]) + e.seg2 + 2 * e.acc
(* colour of the end of the path, in eighths *)
DeclEnd(e, c) == IF e.fin = "back" THEN 0 ELSE e.src[c]
(* rationals <<n, d>> *)
DeclColor(e, c) == IF e.depth + DeclSurfaces(e) > e.max THEN <<0, 1>>
                   ELSE <<TintProduct(Tinted(e), c) * DeclEnd(e, c), Pow(8, Len(Tinted(e)) + 1)>>
(* colour / (1 + distance/half) = colour * 2 half / (2 half + 2 distance) *)
DeclFinal(e, c) == LET x == DeclColor(e, c)
                   IN IF e.half = 0 \/ e.fin = "none" THEN x
                      ELSE LET g == Gcd(2 * e.half, 2 * e.half + DeclDist2(e))
                           IN <<x[1] * ((2 * e.half) \div g), x[2] * ((2 * e.half + DeclDist2(e)) \div g)>>
JudgeCorridor(e) ==
  (IF \A c \in 1 .. 3 : IsRat(e.color[c], DeclColor(e, c)[1], DeclColor(e, c)[2], 6, 1) THEN {}
   ELSE IF e.depth + DeclSurfaces(e) > e.max THEN {"beyond-the-bounce-limit"} ELSE {"not-the-product-of-the-surfaces"})
  \cup (IF \A c \in 1 .. 3 : IsRat(e.final[c], DeclFinal(e, c)[1], DeclFinal(e, c)[2], 6, 2) THEN {} ELSE {"attenuation"})
  \cup (IF e.fin = "light" /\ e.depth + DeclSurfaces(e) <= e.max
        THEN (IF e.half = 0 THEN (IF e.factor = -1 THEN {} ELSE {"attenuation-factor"})
              ELSE (IF IsRat(e.factor, 1, e.half, 6, 1) THEN {} ELSE {"attenuation-factor"})
                   \cup (IF Abs(e.len - DeclDist2(e) * (One \div 2)) <= 20 THEN {} ELSE {"distance-travelled"}))
        ELSE {})

(* the same corridor seen by a camera: bytes of a 1 x 1 image; b <= 256 sqrt(x) < b + 1 *)
JudgePixel(e) ==
  IF \A c \in 1 .. 3 :
       LET x == MulDiv(Scaled(DeclFinal(e, c)[1], DeclFinal(e, c)[2], 6), 65536, One)   \* 65536 x
           slack == 2 + x \div 1000
       IN \/ e.px[c] = 255 /\ x + slack >= 65025
          \/ e.px[c] * e.px[c] <= x + slack /\ x - slack < (e.px[c] + 1) * (e.px[c] + 1)
  THEN {} ELSE {"pixel-not-the-path's-light"}

(* ------------------------------------------------------- preview shaders (R08) *)
(* surface colour in eighths, shading normal an integer vector over e.nd *)
Shaded(e, c) == LET k == e.n[1] + e.n[2] - e.n[3]          \* n.(1,1,-1) * nd
                IN <<e.tint[c] * (3 * e.nd + 2 * k), 32 * e.nd>>
PreviewExpected(e, c) ==
  CASE e.shader = "albedo" -> <<e.tint[c], 8>>
    [] e.shader = "normal" -> <<e.n[c], e.nd>>
    [] e.shader = "simple" -> IF e.emits THEN <<e.tint[c], 8>> ELSE Shaded(e, c)
JudgePreview(e) ==
  (IF \A c \in 1 .. 3 : IsRat(e.color[c], PreviewExpected(e, c)[1], PreviewExpected(e, c)[2], 6, e.tol) THEN {} ELSE {e.shader})
  \cup (IF e.final # e.color THEN {"attenuated"} ELSE {})
=============================================================================
