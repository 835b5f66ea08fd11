--------------------------------- MODULE Bvh ---------------------------------
(* Bounding volume hierarchy: building it by repeatedly splitting object lists, *)
(* and searching it for the nearest hit.  Geometry is abstracted to a strip:    *)
(* the ray runs along lane Lane, an object occupies [lo, hi] along the ray in   *)
(* one lane, and is hit (like any closed convex body) where the ray enters it   *)
(* or, when that is outside the interval, where it leaves it.  A node's box     *)
(* covers the lengths and lanes of all its objects, so boxes are hit by rays    *)
(* that hit none of their objects.                                              *)
(*                                                                              *)
(* Splitting is any partition in two non-empty parts: the code sorts along an   *)
(* axis and cuts at the centre or in the middle, which is one of them.  The     *)
(* two halves are built in parallel in the code: here, in any order.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Los, His, Lanes, Lane, MaxN, Mins, Maxs, Bug

Objects == {[lo |-> a, hi |-> b, lane |-> n] : a \in Los, b \in {h \in His : TRUE}, n \in Lanes}
Objs == {o \in Objects : o.lo <= o.hi}
Key(o) == (o.lo + 10) * 1000 + (o.hi + 10) * 10 + o.lane
Lists == UNION {{s \in [1 .. n -> Objs] : \A i \in 1 .. n - 1 : Key(s[i]) <= Key(s[i + 1])} : n \in 0 .. MaxN}

NoHit == 1000

VARIABLES list,   \* the objects
          node,   \* node number -> set of indices of its objects
          kind,   \* node number -> "open" | "inner" | "leaf"
          iv,     \* the interval of lengths asked for
          stack,  \* nodes still to be visited
          best    \* length of the nearest hit so far
vars == <<list, node, kind, iv, stack, best>>

(* ---- objects and boxes ---- *)
HitAt(o, mn, mx) ==
  IF o.lane # Lane THEN NoHit
  ELSE IF o.lo >= mn /\ o.lo <= mx THEN o.lo
  ELSE IF o.hi >= mn /\ o.hi <= mx THEN o.hi
  ELSE NoHit

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Box(S) == [lo |-> MinOf({list[i].lo : i \in S}), hi |-> MaxOf({list[i].hi : i \in S}),
           lanes |-> MinOf({list[i].lane : i \in S}) .. MaxOf({list[i].lane : i \in S})]
(* the slab test looks at what is in front of the origin only *)
BoxAhead(S) == S # {} /\ LET b == Box(S) IN Lane \in b.lanes /\ b.hi >= 0
(* hence it may only be used to skip a node when nothing behind the origin is asked for *)
Cull(S) == /\ ~BoxAhead(S)
           /\ (iv.min >= 0 \/ S = {} \/ Bug = "cullbehind")

(* ---- building ---- *)
Root == 1
Init == /\ list \in Lists
        /\ node = (Root :> DOMAIN list)
        /\ kind = (Root :> IF Len(list) <= 2 THEN "leaf" ELSE "open")
        /\ iv \in {[min |-> a, max |-> b] : a \in Mins, b \in Maxs}
        /\ stack = <<>>
        /\ best = NoHit

Split(k, S) ==
  /\ kind[k] = "open"
  /\ S # {} /\ S # node[k]
  /\ node' = [x \in DOMAIN node \cup {2 * k, 2 * k + 1} |->
                IF x = 2 * k THEN S ELSE IF x = 2 * k + 1 THEN node[k] \ S ELSE node[x]]
  /\ kind' = [x \in DOMAIN node' |->
                IF x = k THEN "inner"
                ELSE IF x \in DOMAIN kind THEN kind[x]
                ELSE IF Cardinality(node'[x]) <= 2 THEN "leaf" ELSE "open"]
  /\ UNCHANGED <<list, iv, stack, best>>

Built == \A k \in DOMAIN kind : kind[k] # "open"

(* ---- searching ---- *)
Start == Built /\ best = NoHit /\ stack = <<>> /\ stack' = <<Root>> /\ UNCHANGED <<list, node, kind, iv, best>>

RECURSIVE Fold(_, _, _)
Fold(s, mn, mx) ==   \* nearest hit of a leaf's objects, narrowing the interval as it goes
  IF s = {} THEN NoHit
  ELSE LET i == MinOf(s)
           h == HitAt(list[i], mn, mx)
           r == Fold(s \ {i}, mn, IF h = NoHit THEN mx ELSE IF Bug = "noshrink" THEN mx ELSE h)
       IN IF r # NoHit THEN r ELSE h

Done == Len(stack) = 1 /\ stack[1] = 0

Visit ==
  /\ stack # <<>> /\ ~Done
  /\ LET k == Head(stack)
         rest == IF Tail(stack) = <<>> THEN <<0>> ELSE Tail(stack)
         mx == IF best = NoHit THEN iv.max ELSE best
     IN IF Cull(node[k])
        THEN stack' = rest /\ UNCHANGED best
        ELSE IF kind[k] = "inner"
        THEN stack' = <<2 * k, 2 * k + 1>> \o Tail(stack) /\ UNCHANGED best
        ELSE LET h == Fold(node[k], iv.min, mx)
             IN stack' = rest /\ best' = (IF h # NoHit THEN h ELSE best)
  /\ UNCHANGED <<list, node, kind, iv>>

Next == \/ \E k \in DOMAIN kind : kind[k] = "open" /\ \E S \in SUBSET node[k] : Split(k, S)
        \/ Start
        \/ Visit
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
Hits == {HitAt(list[i], iv.min, iv.max) : i \in DOMAIN list} \ {NoHit}
Nearest == IF Hits = {} THEN NoHit ELSE MinOf(Hits)

(* G01: the search ends with exactly the nearest hit *)
FindsNearest == Done => best = Nearest
(* never a hit that is not there *)
SoundSoFar == best # NoHit => best \in Hits
(* no object is lost or duplicated by building, and boxes enclose (G02) *)
Leaves == {k \in DOMAIN kind : kind[k] # "inner"}
Partition == /\ UNION {node[k] : k \in Leaves} = DOMAIN list
             /\ \A a, b \in Leaves : a # b => node[a] \cap node[b] = {}
Enclosed == \A k \in DOMAIN kind : kind[k] = "inner" =>
              \A c \in {2 * k, 2 * k + 1} : /\ node[c] # {}
                                            /\ Box(node[k]).lo <= Box(node[c]).lo
                                            /\ Box(node[k]).hi >= Box(node[c]).hi
                                            /\ Box(node[c]).lanes \subseteq Box(node[k]).lanes
Terminates == <>Done

(* ---- conformance: a recorded search against the members' own hits ---- *)
(* rank[i]: rank of member i's own length (0: not hit); got: rank of the     *)
(* reported length (0: no hit, -1: a length no member has); same: members    *)
(* whose own hit record is the reported one.                                 *)
JudgeNearest(e) ==
  LET hits == {e.rank[i] : i \in 1 .. e.n} \ {0}
      \* a ray that grazes an edge (its verdict flips under a 1e-6 displacement) may
      \* be culled; even then, what is reported has to be a hit of a member
      sound == e.got = 0 \/ (e.got > 0 /\ Len(e.same) > 0 /\ \A j \in 1 .. Len(e.same) : e.rank[e.same[j]] = e.got)
  IN (IF sound THEN {} ELSE {"hit-not-a-member's"})
     \cup (IF e.robust /\ e.got # (IF hits = {} THEN 0 ELSE MinOf(hits)) THEN {"not-the-nearest"} ELSE {})
=============================================================================
