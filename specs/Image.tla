--------------------------------- MODULE Image ---------------------------------
(* What an image shows: pixel (x, y) (y from below) of a report after k samples is  *)
(* the gamma corrected mean of the k colours its samples saw, nothing else.  The     *)
(* scenes of the recorder tile the footprint of each pixel with S emitting cells of  *)
(* known integer colours (unit 1/65536); sample m of every pixel falls in cell       *)
(* subs[m].                                                                          *)
EXTENDS Num, FiniteSets
PP == INSTANCE Post

(* colour of cell s of pixel p, channel c: a little more than a square (a lost sample *)
(* shows) or a little less than one (a duplicated sample shows)                       *)
Level(i, c) == 16 + ((i * <<1, 37, 101>>[c] + 7 * c) % 230)
Colour(p, s, S, c) == LET q == Level(p * S + s, c)
                      IN IF (p + s + c) % 2 = 0 THEN q * q + 1 ELSE (q + 1) * (q + 1) - 1

(* how often the first k samples fall in cell s (from 0) *)
Counts(e) == [s \in 0 .. e.S - 1 |-> IF e.S = 1 THEN e.k ELSE Cardinality({m \in 1 .. e.k : e.subs[m] = s})]
RECURSIVE SumCells(_, _, _, _, _)
SumCells(e, p, counts, s, c) == IF s = e.S THEN 0
   ELSE (IF counts[s] = 0 THEN 0 ELSE counts[s] * (IF e.gain = <<>> THEN 1 ELSE e.gain[s + 1]) * Colour(p, s, e.S, c))
        + SumCells(e, p, counts, s + 1, c)

(* the byte of a sum over k samples; if the mean is a perfect square, rounding may miss it *)
Bytes(sum, k) == LET q == ISqrt(sum \div k)
                     r == Min2(255, q)
                 IN IF q <= 255 /\ q * q * k = sum /\ q > 0 THEN {r, r - 1} ELSE {r}

(* position in the image data of row r from above, column x, channel c *)
At(px, w, r, x, c) == px[3 * (r * w + x) + c]

JudgeShape(e) == IF e.iw # e.w \/ e.ih # e.h \/ Len(e.px) # 3 * e.w * e.h THEN {"wrong-size"} ELSE {}

(* pixels that do not show the mean of exactly the samples 1 .. k *)
Wrong(e, Sum(_, _)) ==
  {<<r, x>> \in (0 .. e.h - 1) \X (0 .. e.w - 1) :
     \E c \in 1 .. 3 : At(e.px, e.w, r, x, c) \notin Bytes(Sum((e.h - 1 - r) * e.w + x, c), e.k)}

JudgeMean(e) ==
  IF JudgeShape(e) # {} THEN JudgeShape(e)
  ELSE LET counts == Counts(e)
           Sum(p, c) == SumCells(e, p, counts, 0, c)
       IN IF Wrong(e, Sum) = {} THEN {} ELSE {"not-the-mean-of-the-samples"}

(* samples spread over the footprint: S x S cells, and for each channel the set of cells   *)
(* lit (masks).  The mean brightness (b/256)^2 is the share of lit cells, within 6         *)
(* standard deviations, sqrt(share (1 - share) / n), and the rounding of the byte.         *)
JudgeSpread(e) ==
  IF JudgeShape(e) # {} THEN JudgeShape(e)
  ELSE LET all == e.S * e.S
           lit == [c \in 1 .. 3 |-> Len(e.masks[c])]
           dev == [c \in 1 .. 3 |-> (6 * 256 * ISqrt(lit[c] * (all - lit[c]) * 65536)) \div (all * ISqrt(e.k)) + 600]
           ok(b, c) == Abs(b * b - (65536 * lit[c]) \div all) <= dev[c]
       IN IF \E i \in 1 .. Len(e.px) : ~ok(e.px[i], 1 + ((i - 1) % 3)) THEN {"samples-not-spread-over-the-pixel"} ELSE {}

(* -------------------------------------------------- post processors (R06) *)
(* Scenes in which some cells are missing: a sample that falls there sees the plane  *)
(* behind (colour e.behind, normal e.plane/25) or, if e.plane is zero, the background. *)
Missing(e, p, s) == \E i \in 1 .. Len(e.miss) : e.miss[i] = p * e.S + s
Seen(e, p, m) == IF e.S = 1 THEN 0 ELSE e.subs[m]
ChainColour(e, p, s, c) == IF c = e.chan THEN (IF e.gain = <<>> THEN 1 ELSE e.gain[s + 1]) * Colour(p, s, e.S, c) ELSE 0    \* only one channel is lit
Albedo(e, p, m, c) == IF Missing(e, p, Seen(e, p, m)) THEN e.behind[c] ELSE ChainColour(e, p, Seen(e, p, m), c)
NormalOf(e, p, m, c) == IF Missing(e, p, Seen(e, p, m)) THEN e.plane[c] ELSE IF c = 3 THEN 25 ELSE 0
RECURSIVE SumAlbedo(_, _, _, _), SumNormal(_, _, _, _)
SumAlbedo(e, p, k, c) == IF k = 0 THEN 0 ELSE Albedo(e, p, k, c) + SumAlbedo(e, p, k - 1, c)
SumNormal(e, p, k, c) == IF k = 0 THEN 0 ELSE NormalOf(e, p, k, c) + SumNormal(e, p, k - 1, c)

(* a bloom without extent adds to a pixel whose mean reaches the threshold its own value, *)
(* limited to the maximum; thresholds lie at T + 0.501 units of the mean, so that no sum   *)
(* is on the edge.  Only one channel of a pixel is lit: its value is the brightness.       *)
ApplyLink(link, v, k) == IF link[1] = "bloom"
                         THEN IF v > link[2] * k + (501 * k) \div 1000 THEN v + Min2(v, link[3] * k) ELSE v
                         ELSE v
RECURSIVE ApplyChain(_, _, _)
ApplyChain(chain, v, k) == IF chain = <<>> THEN v ELSE ApplyChain(Tail(chain), ApplyLink(Head(chain), v, k), k)
Processed(e, p, c) == ApplyChain(e.chain, SumAlbedo(e, p, e.k, c), e.k)

(* A bloom of radius link[4] > 0 (only as the last link) also lights the neighbours: the  *)
(* glow of the whole image, with a fixed point kernel                                      *)
HasExtent(e) == e.chain # <<>> /\ e.chain[Len(e.chain)][4] > 0
GlowWrong(e) ==
  LET n == Len(e.chain)
      l == e.chain[n]
      W == PP!Weights(l[4])
      pre == [i \in 1 .. e.w * e.h |-> ApplyChain(SubSeq(e.chain, 1, n - 1), SumAlbedo(e, (e.h - 1 - ((i - 1) \div e.w)) * e.w + ((i - 1) % e.w), e.k, e.chan), e.k)]
      lit == [i \in 1 .. e.w * e.h |-> <<IF pre[i] > l[2] * e.k + (501 * e.k) \div 1000 THEN Min2(pre[i], l[3] * e.k) ELSE 0, 0, 0>>]
      along == PP!Blur(lit, W, e.w, e.h, <<1, 0>>)
      glow == PP!Blur(along, W, e.w, e.h, <<0, 1>>)
      tol == 8 * l[4] + 12
      byte(s) == Min2(255, ISqrt(Max2(0, s) \div e.k))
  IN \E i \in 1 .. e.w * e.h, c \in 1 .. 3 :
       LET b == e.px[3 * (i - 1) + c]
           s == pre[i] + glow[i][1]
       IN IF c # e.chan THEN b # 0 ELSE b < byte(s - tol) \/ b > byte(s + tol)

JudgeChain(e) ==
  IF JudgeShape(e) # {} THEN JudgeShape(e)
  ELSE IF HasExtent(e) THEN (IF GlowWrong(e) THEN {"not-the-chain-applied-to-the-sums"} ELSE {})
  ELSE LET Sum(p, c) == Processed(e, p, c)
       IN IF Wrong(e, Sum) = {} THEN {} ELSE {"not-the-chain-applied-to-the-sums"}

(* the buffers a post processor that asks for them gets, as sums in units of 1/65536;       *)
(* they reach us as single precision square roots of the means, cut at 0.999, and a         *)
(* negative component (of a normal) does not survive the root                               *)
Agrees(m, v, k) == \/ v < 0
                   \/ Abs(m - v) <= 2 + k
                   \/ v >= k * 65404 /\ Abs(m - k * 65405) <= 2 + k
AuxWrong(e, buf, Sum(_, _)) ==
  \/ Len(buf) # 3 * e.w * e.h
  \/ \E r \in 0 .. e.h - 1, x \in 0 .. e.w - 1, c \in 1 .. 3 :
        ~Agrees(At(buf, e.w, r, x, c), Sum((e.h - 1 - r) * e.w + x, c), e.k)
JudgeAux(e) ==
  LET A(p, c) == SumAlbedo(e, p, e.k, c)
      N(p, c) == (SumNormal(e, p, e.k, c) * 65536) \div 25
      P(p, c) == Processed(e, p, c)
  IN (IF e.dims # <<e.w, e.h>> THEN {"wrong-dimensions"} ELSE {})
     \cup (IF e.told # <<TRUE, FALSE>> THEN {"wrong-range"} ELSE {})    \* gamma corrected, not beyond 1
     \cup (IF AuxWrong(e, e.albedo, A) THEN {"albedo"} ELSE {})
     \cup (IF AuxWrong(e, e.normal, N) THEN {"normal"} ELSE {})
     \cup (IF e.colored /\ AuxWrong(e, e.color, P) THEN {"colour"} ELSE {})

JudgeImage(e) == CASE e.kind = "spread" -> JudgeSpread(e)
                   [] e.kind = "mean" -> JudgeMean(e)
                   [] e.kind = "chain" -> JudgeChain(e)
                   [] e.kind = "any" -> JudgeShape(e)
=============================================================================
