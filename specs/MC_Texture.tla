------------------------------ MODULE MC_Texture ------------------------------
(* Finite instances: every lookup in images up to MaxSize with coordinates in quarters *)
(* (eighths), which are also written out to be replayed (VERIF_OUT); every 3 x 3         *)
(* neighbourhood of heights over Levels.                                                 *)
EXTENDS Texture, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxSize, E, Reach, Levels

VARIABLES mode, w, h, k, l, px, todo
vars == <<mode, w, h, k, l, px, todo>>
Init == /\ mode \in {"lookup", "bump"}
        /\ IF mode = "lookup" THEN w \in 1 .. MaxSize /\ h \in 1 .. MaxSize /\ k \in -Reach .. Reach /\ l = 0 /\ px = <<>> /\ todo = TRUE
           ELSE w = 3 /\ h = 3 /\ k = 0 /\ l = 0 /\ px = <<>> /\ todo = TRUE
Next == \/ mode = "lookup" /\ todo /\ \E x \in -Reach .. Reach : l' = x /\ todo' = FALSE /\ UNCHANGED <<mode, w, h, k, px>>
        \/ mode = "bump" /\ Len(px) < 9 /\ \E g \in Levels : px' = Append(px, <<g, g, g>>) /\ UNCHANGED <<mode, w, h, k, l, todo>>
Spec == Init /\ [][Next]_vars

Texel(a, b) == <<Col(a, E, w), Row(b, E, h)>>
One == Pow(2, E)
LookupOK == mode = "lookup" =>
  /\ Texel(k, l) = Texel(-k, l) /\ Texel(k, l) = Texel(k, -l)                        \* by magnitude
  /\ k >= 0 => Texel(k, l) = Texel(k + One, l)                                         \* wraps
  /\ Texel(k, l)[1] \in 0 .. w - 1 /\ Texel(k, l)[2] \in 0 .. h - 1
  /\ (k >= 0 /\ k + 1 < One) => Texel(k, l)[1] <= Texel(k + 1, l)[1]                   \* left to right
  /\ (l >= 0 /\ l + 1 < One) => Texel(k, l)[2] >= Texel(k, l + 1)[2]                   \* bottom to top
  /\ {Col(x, 3, w) : x \in 0 .. 7} = 0 .. w - 1 /\ {Row(x, 3, h) : x \in 0 .. 7} = 0 .. h - 1   \* every texel is shown
  /\ Col(k, E, w) \in Cols(k, E, w) /\ Row(l, E, h) \in Rows(l, E, h)

Mirror(p) == <<p[3], p[2], p[1], p[6], p[5], p[4], p[9], p[8], p[7]>>
Flip(p) == <<p[7], p[8], p[9], p[4], p[5], p[6], p[1], p[2], p[3]>>
Turn(p) == <<p[7], p[4], p[1], p[8], p[5], p[2], p[9], p[6], p[3]>>                     \* clockwise
N(p) == Lean(p, 3, 3, 1, 1)
BumpOK == (mode = "bump" /\ Len(px) = 9) =>
  LET n == N(px) IN
  /\ n[3] > 0
  /\ N(Mirror(px)) = <<-n[1], n[2], n[3]>> /\ N(Flip(px)) = <<n[1], -n[2], n[3]>>
  /\ N(Turn(px)) = <<n[2], -n[1], n[3]>>
  /\ N([i \in 1 .. 9 |-> <<255 - px[i][1], 0, 0>>]) = <<-n[1], -n[2], n[3]>>           \* valleys for hills
  /\ ((\A r \in 0 .. 2 : px[3 * r + 1][1] <= px[3 * r + 3][1]) => n[1] <= 0)           \* away from rising heights
  /\ ((\A r \in 1 .. 3 : px[r][1] >= px[r + 6][1]) => n[2] <= 0)
  /\ ((\A i \in 1 .. 9 : px[i] = px[1]) => n = <<0, 0, 85>> /\ Converted(px, 3, 3, 1, 1, <<127, 127, 255>>))

Cases == {[w |-> a, h |-> b, u |-> <<x, E>>, v |-> <<y, E>>] : a \in 1 .. MaxSize, b \in 1 .. MaxSize, x \in -Reach .. Reach, y \in -Reach .. Reach}
Written == /\ TLCGet("stats").distinct > 0
           /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Cases))
=============================================================================
