-------------------------------- MODULE MC_Post --------------------------------
(* The byte of every mean colour; bloom of every image of up to Lit lit pixels (two     *)
(* levels) in W x H with kernels up to radius R.                                            *)
EXTENDS Post, TLC, FiniteSets
CONSTANTS Top, W, H, R, Lit
VARIABLES mode, k, r, px
vars == <<mode, k, r, px>>
Init == /\ mode \in {"tone", "bloom", "weights"} /\ px = <<>>
        /\ r \in (IF mode = "tone" THEN {0} ELSE IF mode = "bloom" THEN 0 .. R ELSE 0 .. 40)
        /\ k = 0
Next == \/ mode = "tone" /\ k = 0 /\ k' \in 1 .. Top /\ UNCHANGED <<mode, r, px>>
        \/ mode = "bloom" /\ Len(px) < W * H /\ \E v \in {0, 10, 40} : px' = Append(px, v) /\ Cardinality({i \in DOMAIN px' : px'[i] # 0}) <= Lit /\ UNCHANGED <<mode, k, r>>
Spec == Init /\ [][Next]_vars

ToneProps == mode = "tone" =>
  /\ Byte(k) \in 0 .. 255 /\ Byte(k) <= Byte(k + 1)                                  \* monotone
  /\ k < 65536 => Byte(k) * Byte(k) <= k /\ k < (Byte(k) + 1) * (Byte(k) + 1)
  /\ k >= 65025 => Byte(k) = 255
  /\ \A f \in {0, 5} : Byte(k) \in ByteSet(k, f, TRUE) /\ Cardinality(ByteSet(k, f, TRUE)) = 1

WeightProps == mode = "weights" =>
  LET V == Weights(r) IN
  /\ Abs(SumSeq(V) - EXPS) <= 2 * r + 2                                               \* no light is lost or gained
  /\ \A i \in 1 .. r : V[i] <= V[i + 1] /\ V[i] = V[2 * r + 2 - i]                    \* from the middle outwards, symmetrically
  /\ r > 0 => V[1] > 0

E(p) == [w |-> W, h |-> H, r |-> r, thr2 |-> 400, half |-> FALSE, max |-> -1, px |-> [i \in 1 .. W * H |-> <<p[i], p[i] \div 2, 0>>]]
Mir(p) == [i \in 1 .. W * H |-> p[((i - 1) \div W) * W + ((W - 1) - ((i - 1) % W)) + 1]]
Flp(p) == [i \in 1 .. W * H |-> p[((H - 1) - ((i - 1) \div W)) * W + ((i - 1) % W) + 1]]
Bits(p) == {i \in 1 .. W * H : p[i] = 40}
Dist(i, j) == Max2(Abs(((i - 1) % W) - ((j - 1) % W)), Abs(((i - 1) \div W) - ((j - 1) \div W)))
BloomProps == (mode = "bloom" /\ Len(px) = W * H) =>
  LET G == Glow(E(px))
      M == Glow(E(Mir(px)))
      F == Glow(E(Flp(px)))
  IN /\ \A i \in 1 .. W * H : /\ G[i] = Mir(M)[i]
                              /\ G[i] = Flp(F)[i]
                              /\ ((\A j \in Bits(px) : Dist(i, j) > r) => G[i] = <<0, 0, 0>>)   \* out of reach
                              /\ (r > 0 /\ \E j \in Bits(px) : Dist(i, j) <= r) => G[i][1] > 0
                              /\ G[i][1] <= 40000 /\ G[i][3] = 0
     /\ r = 0 => \A i \in 1 .. W * H : G[i][1] = IF i \in Bits(px) THEN 40000 ELSE 0
     \* one lit pixel away from the edges: nothing is lost
     /\ \A i \in Bits(px) : (Bits(px) = {i} /\ ((i - 1) % W) \in r .. W - 1 - r /\ ((i - 1) \div W) \in r .. H - 1 - r)
                            => Abs(SumSeq([j \in 1 .. W * H |-> G[j][1]]) - 40000) <= 2 * W * H
(* a uniformly lit image gets uniformly brighter, edges included *)
Uniform == (mode = "bloom" /\ px = <<>>) => \A i \in 1 .. W * H : Abs(Glow(E([j \in 1 .. W * H |-> 40]))[i][1] - 40000) <= 4 * r + 4
Checked == TLCGet("stats").distinct > Top
=============================================================================
