-------------------------------- MODULE Texture --------------------------------
(* Textures (T01), bump images (T02) and normal maps (T03).                       *)
EXTENDS Num

(* ---------------------------------------------------------------- looking up *)
(* A coordinate is k / 2^e plus a whole number; k and the whole number have the same   *)
(* sign, so that its magnitude modulo 1 is (|k| mod 2^e) / 2^e.                         *)
Frac(k, e) == Abs(k) % Pow(2, e)

Col(k, e, w) == Min2((Frac(k, e) * w) \div Pow(2, e), w - 1)
Row(k, e, h) == Min2(((Pow(2, e) - Frac(k, e)) * h) \div Pow(2, e), h - 1)

(* coordinates are single precision: with many digits, a point next to a texel border *)
(* may be on either side of it                                                         *)
Exact(e, n) == e <= 24 /\ n <= 16777216 \div Pow(2, e)
Near(p, q) == LET r == p % q
                  near == Max2(q \div 4000, 1)
              IN IF r <= near THEN {-1, 0} ELSE IF q - r <= near THEN {0, 1} ELSE {0}
Cols(k, e, w) == IF Exact(e, w) THEN {Col(k, e, w)}
                 ELSE {Min2(Max2(Col(k, e, w) + d, 0), w - 1) : d \in Near(Frac(k, e) * w, Pow(2, e))}
Rows(k, e, h) == IF Exact(e, h) THEN {Row(k, e, h)}
                 ELSE {Min2(Max2(Row(k, e, h) + d, 0), h - 1) : d \in Near((Pow(2, e) - Frac(k, e)) * h, Pow(2, e))}

(* what the image holds at column i, row j (from above) *)
Content(kind, i, j) == IF kind = "gray" THEN LET g == (7 * i + 13 * j) % 256 IN <<g, g, g>>
                       ELSE <<i % 256, j % 256, ((i \div 256) * 16 + j \div 256) % 256>>

(* a byte b is the colour b / 255 *)
IsBytes(m, b) == \A c \in 1 .. 3 : IsRat(m[c], b[c], 255, 6, 1)

JudgeTexel(e) ==
  IF \E i \in Cols(e.u[1], e.u[2], e.w), j \in Rows(e.v[1], e.v[2], e.h) : IsBytes(e.col, Content(e.kind, i, j))
  THEN {} ELSE {"wrong-texel"}

JudgeSolid(e) == IF e.same /\ \A c \in 1 .. 3 : Abs(e.col[c] - e.want[c]) <= e.tol THEN {} ELSE {"solid-colour"}

(* ------------------------------------------------------------- bump images *)
(* a pixel's bytes b say the vector (2b - 255) / 255; unit and grey within 5 % *)
IsUnit(p) == LET s == (2 * p[1] - 255) * (2 * p[1] - 255) + (2 * p[2] - 255) * (2 * p[2] - 255) + (2 * p[3] - 255) * (2 * p[3] - 255)
             IN 58686 <= s /\ s <= 71690               \* between 0.95^2 and 1.05^2 times 255^2
IsGrey(p) == Abs(p[1] - p[2]) <= 12 /\ Abs(p[2] - p[3]) <= 12
RECURSIVE CountPart(_, _, _, _)
CountPart(px, grey, a, b) == IF a > b THEN 0
                             ELSE IF a = b THEN (IF grey THEN IF IsGrey(px[a]) THEN 1 ELSE 0 ELSE IF IsUnit(px[a]) THEN 1 ELSE 0)
                             ELSE LET h == (a + b) \div 2 IN CountPart(px, grey, a, h) + CountPart(px, grey, h + 1, b)
NumGrey(px) == CountPart(px, TRUE, 1, Len(px))
NumUnit(px) == CountPart(px, FALSE, 1, Len(px))
IsHeight(px) == NumGrey(px) > NumUnit(px)

(* heights; the pixels at an edge are repeated outside of it *)
Clamp(x, n) == Min2(Max2(x, 0), n - 1)
Ht(px, w, h, x, y) == px[Clamp(y, h) * w + Clamp(x, w) + 1][1]
GX(px, w, h, x, y) == LET H(i, j) == Ht(px, w, h, x + i, y + j)
                      IN H(1, 1) - H(-1, 1) + 2 * (H(1, 0) - H(-1, 0)) + H(1, -1) - H(-1, -1)
(* rows are counted from above: the height rises upwards if it is greater in the row before *)
GY(px, w, h, x, y) == LET H(i, j) == Ht(px, w, h, x + i, y + j)
                      IN H(-1, -1) - H(-1, 1) + 2 * (H(0, -1) - H(0, 1)) + H(1, -1) - H(1, 1)
(* the normal leans away from rising heights: proportional to (-GX, -GY, 255/6) *)
Lean(px, w, h, x, y) == <<-2 * GX(px, w, h, x, y), -2 * GY(px, w, h, x, y), 85>>

(* byte b says component c of a vector of squared length l2, to a byte *)
SaysByte(b, c, l2) == LET l == ISqrt(256 * l2)                 \* 16 times the length
                      IN Abs((2 * b - 255) * l - 255 * 16 * c) <= 2 * l + 255 + l \div 50
GreyAround(px, w, h, x, y) == \A i \in -1 .. 1, j \in -1 .. 1 :
                                LET p == px[Clamp(y + j, h) * w + Clamp(x + i, w) + 1] IN p[1] = p[2] /\ p[2] = p[3]
Converted(px, w, h, x, y, out) ==
  LET n == Lean(px, w, h, x, y) IN \A c \in 1 .. 3 : SaysByte(out[c], n[c], Dot(n, n))

JudgeBump(e) ==
  IF Len(e.out) # e.w * e.h THEN {"size"}
  ELSE IF IsHeight(e.px)
       THEN IF \A x \in 0 .. e.w - 1, y \in 0 .. e.h - 1 : GreyAround(e.px, e.w, e.h, x, y) => Converted(e.px, e.w, e.h, x, y, e.out[y * e.w + x + 1])
            THEN {} ELSE {"height-map"}
       ELSE IF e.out = e.px THEN {} ELSE {"normal-map"}

(* a large image of a repeated pattern: pixel i (from 0) is colours[((i \div run) % p) + 1]; its    *)
(* kinds are counted, what becomes of it is looked at in some places                               *)
PatternCount(e, k) == LET n == e.w * e.h
                          p == Len(e.colours)
                          whole == n \div (e.run * p)
                          rest == n % (e.run * p)
                      IN whole * e.run + Min2(Max2(rest - (k - 1) * e.run, 0), e.run)
RECURSIVE PatternSum(_, _, _)
PatternSum(e, grey, k) == IF k = 0 THEN 0
                          ELSE (IF (IF grey THEN IsGrey(e.colours[k]) ELSE IsUnit(e.colours[k])) THEN PatternCount(e, k) ELSE 0) + PatternSum(e, grey, k - 1)
PatternAt(e, x, y) == e.colours[(((Clamp(y, e.h) * e.w + Clamp(x, e.w)) \div e.run) % Len(e.colours)) + 1]
(* the nine pixels about (x, y), as an image of its own *)
About(e, x, y) == [k \in 1 .. 9 |-> PatternAt(e, x + ((k - 1) % 3) - 1, y + ((k - 1) \div 3) - 1)]
JudgePattern(e) ==
  IF PatternSum(e, TRUE, Len(e.colours)) > PatternSum(e, FALSE, Len(e.colours))
       THEN IF \A k \in 1 .. Len(e.looks) : LET l == e.looks[k]
                                                 a == About(e, l.x, l.y)
                                             IN GreyAround(a, 3, 3, 1, 1) => Converted(a, 3, 3, 1, 1, l.out)
            THEN {} ELSE {"height-map"}
  ELSE IF e.same /\ \A k \in 1 .. Len(e.looks) : e.looks[k].out = PatternAt(e, e.looks[k].x, e.looks[k].y) THEN {} ELSE {"normal-map"}

JudgeFail(e) == (IF ~e.err THEN {"no-error"} ELSE {}) \cup (IF ~e.named THEN {"file-not-named"} ELSE {})

(* -------------------------------------------------------------- normal maps *)
(* surface frame T, B (directions of increasing u and v) and N (towards the ray), integer  *)
(* vectors of length nd; map value t / td                                                   *)
Tilted(e, t, c) == t[1] * e.T[c] + t[2] * e.B[c] + t[3] * e.N[c]
Says(e, m, normal) == \A c \in 1 .. 3 : IsRat(normal[c], Tilted(e, m.t, c), e.nd * m.td, 6, m.tol)
(* e.maps: the normal maps of the surface (several where materials are blended), each with      *)
(* whether it must turn up among the normals of repeated looks; e.normals: those seen             *)
JudgeTilt(e) ==
  (IF \A i \in 1 .. Len(e.normals) : \E k \in 1 .. Len(e.maps) : Says(e, e.maps[k], e.normals[i]) THEN {} ELSE {"shading-normal"})
  \cup (IF \A k \in 1 .. Len(e.maps) : e.maps[k].must => \E i \in 1 .. Len(e.normals) : Says(e, e.maps[k], e.normals[i]) THEN {} ELSE {"normal-never-chosen"})
=============================================================================
