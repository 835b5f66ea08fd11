-------------------------------- MODULE MC_Obj --------------------------------
(* A reader of model files, statement by statement, as the loader and its parser work:   *)
(* faces are collected into meshes of one material each, a mesh ends where a new object   *)
(* begins or the material changes.  Every file of up to MaxLen statements of an alphabet, *)
(* after a prelude, must come out as what the file means (Obj!Faces).  The files are       *)
(* written to VERIF_OUT, to be loaded by the real loader.                                 *)
EXTENDS Obj, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Variant

Mat(n, c) == [name |-> n, kd |-> c, tex |-> 0, bump |-> 0, bumpfile |-> 0, kind |-> "matte"]
Libs == << <<Mat("A", <<800, 0, 0>>), Mat("B", <<0, 600, 0>>), Mat("B", <<0, 700, 100>>)>>,
           <<Mat("C", <<0, 0, 900>>), Mat("A", <<300, 300, 0>>)>> >>
V(x, y, z) == [op |-> "v", p |-> <<x, y, z>>]
Site(k, z) == <<V(4 * k, 0, z), V(4 * k + 2, 0, z), V(4 * k + 2, 2, z), V(4 * k, 2, z)>>
Prelude == <<[op |-> "lib", lib |-> 1], [op |-> "vt", p |-> <<0, 0>>], [op |-> "vt", p |-> <<8, 0>>], [op |-> "vt", p |-> <<8, 8>>], [op |-> "vt", p |-> <<0, 8>>]>>
           \o FlattenSeq([k \in 1 .. MaxLen |-> Site(k, 0)])
Use(n) == <<[op |-> "usemtl", name |-> n]>>
(* the statements of letter a, used as the k-th; b says how many vertices there are *)
Letter(a, k, b) == CASE a \in {"A", "B", "C", "X"} -> Use(a)
                     [] a = "o" -> <<[op |-> "o"]>>
                     [] a = "l" -> <<[op |-> "lib", lib |-> 2]>>
                     [] a = "t" -> <<[op |-> "f", vs |-> <<<<4 * k - 3, 1, 0>>, <<4 * k - 2, 2, 0>>, <<4 * k - 1, 3, 0>>>>]>>
                     [] a = "q" -> Site(k, 1) \o <<[op |-> "f", vs |-> <<<<-4, -4, 0>>, <<-1, -1, 0>>, <<-2, -2, 0>>, <<-3, 2, 0>>>>]>>
Alphabet == {"A", "B", "C", "X", "o", "l", "t", "q"}

VARIABLES word, st, pos, tex, defs, cur, open, meshes
vars == <<word, st, pos, tex, defs, cur, open, meshes>>
Rd == [pos |-> pos, tex |-> tex, defs |-> defs, cur |-> cur, open |-> open, meshes |-> meshes]

Flush(r) == [r EXCEPT !.meshes = Append(@, [m |-> r.cur, tris |-> r.open]), !.open = <<>>]
Ref(tab, x) == IF x > 0 THEN tab[x] ELSE tab[Len(tab) + 1 + x]
Fan(s, r) == LET n == Len(s.vs)
                 C(k) == [p |-> Ref(r.pos, s.vs[k][1]), t |-> Ref(r.tex, s.vs[k][2])]
             IN [k \in 1 .. n - 2 |-> <<C(1), C(k + 1), C(k + 2)>>]
Lookup(r, n) == IF n \in DOMAIN r.defs THEN r.defs[n] ELSE <<0, 0>>
LastIn(k, n) == MaxOf(Defs(Libs, k, n))
Read(r, s) ==
  CASE s.op = "v" -> [r EXCEPT !.pos = Append(@, s.p)]
    [] s.op = "vt" -> [r EXCEPT !.tex = Append(@, s.p)]
    [] s.op = "f" -> [r EXCEPT !.open = @ \o Fan(s, r)]
    [] s.op = "o" -> LET x == IF r.open = <<>> THEN r ELSE Flush(r) IN IF Variant = "reset" THEN [x EXCEPT !.cur = <<0, 0>>] ELSE x
    [] s.op = "lib" -> [r EXCEPT !.defs = [n \in {Libs[s.lib][j].name : j \in 1 .. Len(Libs[s.lib])} |-> <<s.lib, LastIn(s.lib, n)>>] @@ @]
    [] s.op = "usemtl" -> LET new == Lookup(r, s.name)
                              x == IF new # r.cur /\ r.open # <<>> /\ Variant # "late" THEN Flush(r) ELSE r
                          IN [x EXCEPT !.cur = new]
RECURSIVE ReadAll(_, _, _)
ReadAll(r, ss, i) == IF i > Len(ss) THEN r ELSE ReadAll(Read(r, ss[i]), ss, i + 1)
Put(r) == pos' = r.pos /\ tex' = r.tex /\ defs' = r.defs /\ cur' = r.cur /\ open' = r.open /\ meshes' = r.meshes

Start == ReadAll([pos |-> <<>>, tex |-> <<>>, defs |-> <<>>, cur |-> <<0, 0>>, open |-> <<>>, meshes |-> <<>>], Prelude, 1)
Init == /\ word = <<>> /\ st = Prelude
        /\ pos = Start.pos /\ tex = Start.tex /\ defs = Start.defs /\ cur = Start.cur /\ open = Start.open /\ meshes = Start.meshes
Next == /\ Len(word) < MaxLen
        /\ \E a \in Alphabet : /\ word' = Append(word, a)
                               /\ LET ss == Letter(a, Len(word) + 1, 0) IN st' = st \o ss /\ Put(ReadAll(Rd, ss, 1))
Spec == Init /\ [][Next]_vars

Triangles == LET r == Flush(Rd) IN {[m |-> r.meshes[k].m, c |-> r.meshes[k].tris[j]] : <<k, j>> \in {<<a, b>> \in (1 .. Len(r.meshes)) \X (1 .. 4 * MaxLen) : b <= Len(r.meshes[a].tris)}}
Meant == UNION {{[m |-> f.m, c |-> <<[p |-> f.p[1], t |-> f.t[1]], [p |-> f.p[k], t |-> f.t[k]], [p |-> f.p[k + 1], t |-> f.t[k + 1]]>>] : k \in 2 .. Len(f.p) - 1} : f \in Faces(st, Libs)}
ReadsWhatIsMeant == Triangles = Meant
AllPlane == \A f \in Faces(st, Libs) : Plane(f)
Covered == \A f \in Faces(st, Libs) : \A x \in 0 .. 8, y \in 0 .. 8 :
             LET q == [at |-> <<16 * 4 + x, y>>, d |-> 4] IN Inside(f, q) => ~OnEdge(f, q) /\ Sgn(Den(W(f, q))) # 0

Words(n) == [1 .. n -> Alphabet]
Expand(w) == Prelude \o FlattenSeq([k \in 1 .. Len(w) |-> Letter(w[k], k, 0)])
Written == /\ TLCGet("stats").distinct > 0
           /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq({[st |-> Expand(w), libs |-> Libs] : w \in Words(MaxLen)}))
=============================================================================
