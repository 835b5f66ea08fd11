------------------------------ MODULE MC_Optics ------------------------------
(* The laws of optics of the specification, over all lattice directions and a set of      *)
(* Pythagorean normals: mirroring is an involution that keeps lengths and turns the       *)
(* normal part around; only rays into the thinner medium can be reflected totally, and    *)
(* exactly when the way back from grazing says so; Schlick lies between the value at      *)
(* normal incidence and one, and grows towards grazing; blends share out all of the light.*)
EXTENDS Optics, TLC
CONSTANTS Span, Normals, Indices, Swapped
VARIABLES v, N, ior, front
NormalsDef == {<<<<1, 0, 0>>, 1>>, <<<<0, 0, -1>>, 1>>, <<<<1, 2, 2>>, 3>>, <<<<-2, 1, 2>>, 3>>, <<<<0, 3, -4>>, 5>>, <<<<2, -3, 6>>, 7>>}
IndicesDef == {<<3, 2>>, <<4, 3>>, <<1, 1>>, <<5, 2>>, <<2, 3>>}
R == -Span .. Span
Init == v = <<0, 0, 0>> /\ N \in Normals /\ ior \in Indices /\ front \in BOOLEAN
Next == /\ v = <<0, 0, 0>>
        /\ v' \in {x \in R \X R \X R : Dot(x, N[1]) < 0}
        /\ UNCHANGED <<N, ior, front>>
Spec == Init /\ [][Next]_<<v, N, ior, front>>
At(x) == v = <<0, 0, 0>> \/ x
E == [v |-> v, n |-> N[1], h |-> N[2], ior |-> ior, front |-> (front # Swapped)]
M == Mirror(v, N[1], N[2])
MirrorLaw == At(/\ Dot(M[1], M[1]) = Dot(v, v) * M[2] * M[2]
             /\ Dot(M[1], N[1]) = -Dot(v, N[1]) * M[2]
             /\ Mirror(M[1], N[1], N[2])[1] = [i \in 1 .. 3 |-> v[i] * M[2] * M[2]])
Denser == ior[1] > ior[2]
NoTotalIntoDenser == (v # <<0, 0, 0>> /\ front /\ Denser) => Bend(E) = -1
NormalIncidence == (v # <<0, 0, 0>> /\ Cross(v, N[1]) = <<0, 0, 0>>) => Bend(E) = -1
SchlickBounds == v = <<0, 0, 0>> \/ LET r0 == MulDiv((ior[1] - ior[2]) * (ior[1] - ior[2]), 1000000, (ior[1] + ior[2]) * (ior[1] + ior[2]))
                 IN /\ Schlick(E) >= r0 /\ Schlick(E) <= 1000000
                    /\ Cross(v, N[1]) = <<0, 0, 0>> => Schlick(E) <= r0 + 5
Tree(f) == [leaf |-> 0, f |-> f, a |-> [leaf |-> 1], b |-> [leaf |-> 0, f |-> 250, a |-> [leaf |-> 2], b |-> [leaf |-> 3]]]
BlendTotal == v # <<0, 0, 0>> \/ \A f \in {0, 1, 300, 999, 1000} : Leaf(Tree(f), 1, 2) + Leaf(Tree(f), 2, 2) + Leaf(Tree(f), 3, 2) = 1000000 /\ Leaf(Tree(f), 1, 2) = (1000 - f) * 1000
=============================================================================
