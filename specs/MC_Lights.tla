------------------------------ MODULE MC_Lights ------------------------------
(* every world of a few objects: collecting in any order finds the lights; the worlds are   *)
(* also written to VERIF_OUT, to be built for real                                          *)
EXTENDS Lights, Json, IOUtils, SequencesExt
CONSTANTS MaxGroup, MaxTop, Full
L(s, em) == [k |-> "leaf", s |-> s, em |-> em, id |-> 0]
Leaves == {L(s, em) : s \in {"sphere", "quad", "tri"}, em \in BOOLEAN}
Some == IF Full THEN Leaves ELSE {L("sphere", TRUE), L("quad", TRUE), L("tri", TRUE), L("quad", FALSE)}
SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
G(l) == [k |-> "group", items |-> l]
Groups1 == {G(l) : l \in SeqsUpTo(Some, MaxGroup)}
Fogs == {[k |-> "fog", b |-> b] : b \in {L("sphere", TRUE), L("sphere", FALSE), G(<<L("quad", TRUE), L("quad", TRUE)>>)}}
Tops == Leaves \cup Fogs \cup Groups1 \cup {G(<<g, x>>) : g \in {G(<<L("tri", TRUE)>>), G(<<>>)}, x \in Fogs \cup Some}
(* ids in the order of appearance, so that no two leaves are alike *)
RECURSIVE Number(_, _), NumberAll(_, _)
Number(t, n) == CASE t.k = "leaf" -> <<[t EXCEPT !.id = n], n + 1>>
                  [] t.k = "fog" -> LET r == Number(t.b, n) IN <<[t EXCEPT !.b = r[1]], r[2]>>
                  [] t.k = "group" -> LET r == NumberAll(t.items, n) IN <<[t EXCEPT !.items = r[1]], r[2]>>
NumberAll(l, n) == IF l = <<>> THEN <<<<>>, n>>
                   ELSE LET a == Number(Head(l), n)
                            b == NumberAll(Tail(l), a[2])
                        IN <<<<a[1]>> \o b[1], b[2]>>
Worlds == {Number(G(l), 1)[1] : l \in SeqsUpTo(Tops, MaxTop)}
Init == /\ root \in Worlds
        /\ work = <<root>>
        /\ found = <<>>
Spec == Init /\ [][Next]_<<work, found, root>>
Written == /\ TLCGet("stats").distinct > 0
           /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({[tree |-> w] : w \in Worlds}))
=============================================================================
