-------------------------------- MODULE Lights --------------------------------
(* Which objects of a world are lights (G04).  A world is a tree of leaves        *)
(* (sphere, quad, triangle; emitting or not), fog around a boundary, and groups   *)
(* (hierarchies).  Collecting is specified as a machine that opens up one object  *)
(* after the other, in any order; it must end with every emitting leaf exactly    *)
(* once, however the leaves are grouped.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Bug        \* "none", or a fault the model must be found to have

VARIABLES work, found, root

RECURSIVE Emitting(_), EmittingAll(_)
Emitting(t) == CASE t.k = "leaf" -> IF t.em THEN <<<<t.s, t.id>>>> ELSE <<>>
                 [] t.k = "fog" -> <<>>
                 [] t.k = "group" -> EmittingAll(t.items)
EmittingAll(l) == IF l = <<>> THEN <<>> ELSE Emitting(Head(l)) \o EmittingAll(Tail(l))

Count(x, s) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
Range(s) == {s[i] : i \in 1 .. Len(s)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(x, a) = Count(x, b)

(* a hierarchy is two halves, each nothing, one object or a hierarchy of its own *)
Halves(l) == LET m == Len(l) \div 2 IN <<SubSeq(l, 1, m), SubSeq(l, m + 1, Len(l))>>
Half(l) == IF Len(l) = 1 THEN l ELSE IF l = <<>> THEN <<>> ELSE <<[k |-> "group", items |-> l]>>
Open(t) == CASE t.k = "leaf" -> <<>>
             [] t.k = "fog" -> IF Bug = "fog" THEN <<t.b>> ELSE <<>>
             [] t.k = "group" -> IF Len(t.items) <= 1 THEN t.items
                                 ELSE Half(Halves(t.items)[1]) \o (IF Bug = "right" /\ Len(t.items) > 2 THEN <<>> ELSE Half(Halves(t.items)[2]))
                                      \o (IF Bug = "twice" /\ Len(t.items) > 2 THEN Half(Halves(t.items)[2]) ELSE <<>>)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Next == \E i \in 1 .. Len(work) :
          LET t == work[i]
          IN /\ found' = IF t.k = "leaf" /\ t.em THEN Append(found, <<t.s, t.id>>) ELSE found
             /\ work' = Drop(work, i) \o Open(t)
             /\ UNCHANGED root
Conserved == SameBag(found \o EmittingAll(work), Emitting(root))
Complete == work = <<>> => SameBag(found, Emitting(root))

(* recorded: the lights of the real world, of its copy and of a renderer made for it *)
JudgeLights(e) ==
  LET want == Emitting(e.tree)
  IN (IF SameBag(e.world, want) THEN {} ELSE {"lights-of-the-world"})
     \cup (IF SameBag(e.copy, want) THEN {} ELSE {"lights-of-the-copy"})
     \cup (IF e.accepted = (want # <<>>) THEN {} ELSE {"accepted-by-renderer"})
     \cup (IF e.accepted => SameBag(e.renderer, want) THEN {} ELSE {"lights-of-the-renderer"})
=============================================================================
