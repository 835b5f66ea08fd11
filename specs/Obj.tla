--------------------------------- MODULE Obj ---------------------------------
(* Reading model files (L01) and the errors of reading them (L02).                       *)
(* A model file is a sequence of statements, a material library a sequence of            *)
(* materials; several libraries may be named in a file.                                   *)
(*   [op |-> "v", p |-> <<x, y, z>>]   [op |-> "vt", p |-> <<u, v>>] (in 1/UVDen)   [op |-> "vn"]       *)
(*   [op |-> "f", vs |-> <<<<v, vt, vn>>, ...>>]    0: left out, negative: counted back     *)
(*   [op |-> "usemtl", name |-> ..]   [op |-> "lib", lib |-> k]   [op |-> "o"] (or "g")         *)
EXTENDS Num, FiniteSets, TLC

UVDen == 8
Force(x) == CHOOSE v \in {x} : TRUE

(* --------------------------------------------------------- the meaning of a file *)
All(st, op) == SelectSeq(st, LAMBDA s : s.op = op)
Before(st, i, op) == Cardinality({j \in 1 .. i - 1 : st[j].op = op})
(* the number a reference says, made at statement i *)
Number(st, i, op, x) == IF x > 0 THEN x ELSE Before(st, i, op) + 1 + x
Valid(st, i, op, x) == Number(st, i, op, x) \in 1 .. Len(All(st, op))

(* the place <<library, index>> of the material in use at statement i, <<0, 0>> for none *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Defs(libs, k, name) == {j \in 1 .. Len(libs[k]) : libs[k][j].name = name}
Material(st, libs, i) ==
  LET uses == {j \in 1 .. i - 1 : st[j].op = "usemtl"}
  IN IF uses = {} THEN <<0, 0>>
     ELSE LET u == MaxOf(uses)
              named == {j \in 1 .. u - 1 : st[j].op = "lib" /\ Defs(libs, st[j].lib, st[u].name) # {}}
          IN IF named = {} THEN <<0, 0>>
             ELSE LET k == st[MaxOf(named)].lib IN <<k, MaxOf(Defs(libs, k, st[u].name))>>

Face(st, libs, i, vs, ts) ==
  LET s == st[i]
      n == Len(s.vs)
  IN [p |-> [k \in 1 .. n |-> vs[Number(st, i, "v", s.vs[k][1])].p],
      t |-> [k \in 1 .. n |-> IF s.vs[k][2] = 0 THEN <<>> ELSE ts[Number(st, i, "vt", s.vs[k][2])].p],
      m |-> Material(st, libs, i)]
Faces(st, libs) == LET vs == Force(All(st, "v"))
                       ts == Force(All(st, "vt"))
                   IN {Face(st, libs, i, vs, ts) : i \in {j \in 1 .. Len(st) : st[j].op = "f"}}
FaceCount(st) == Cardinality({j \in 1 .. Len(st) : st[j].op = "f"})

(* ------------------------------------------------------ what is seen from above *)
(* point <<x, y>> / d against edge a b *)
Or(a, b, q) == (b[1] - a[1]) * (q.at[2] - q.d * a[2]) - (b[2] - a[2]) * (q.at[1] - q.d * a[1])
Edges(f, q) == [k \in 1 .. Len(f.p) |-> Or(f.p[k], f.p[IF k = Len(f.p) THEN 1 ELSE k + 1], q)]
Inside(f, q) == LET o == Force(Edges(f, q)) IN (\A k \in 1 .. Len(o) : o[k] > 0) \/ (\A k \in 1 .. Len(o) : o[k] < 0)
OnEdge(f, q) == LET o == Force(Edges(f, q))
                IN (\E k \in 1 .. Len(o) : o[k] = 0) /\ ((\A k \in 1 .. Len(o) : o[k] >= 0) \/ (\A k \in 1 .. Len(o) : o[k] <= 0))
OnCut(f, q) == \E k \in 3 .. Len(f.p) - 1 : Or(f.p[1], f.p[k], q) = 0
(* barycentric weights, of the first three corners (polygons are plane, coordinates too) *)
W(f, q) == <<Or(f.p[2], f.p[3], q), Or(f.p[3], f.p[1], q), Or(f.p[1], f.p[2], q)>>
Den(w) == w[1] + w[2] + w[3]
Mix(w, a, b, c) == w[1] * a + w[2] * b + w[3] * c
HeightNum(f, w) == Mix(w, f.p[1][3], f.p[2][3], f.p[3][3])
Height(f, q) == LET w == Force(W(f, q)) IN Scaled(HeightNum(f, w), Den(w), 4)

(* polygons handled are convex and plane, with texture coordinates that are affine *)
Plane(f) == \A k \in 4 .. Len(f.p) :
              LET w == W(f, [at |-> f.p[k], d |-> 1])
              IN /\ HeightNum(f, w) = f.p[k][3] * Den(w)
                 /\ f.t[1] # <<>> => \A c \in 1 .. 2 : Mix(w, f.t[1][c], f.t[2][c], f.t[3][c]) = f.t[k][c] * Den(w)

Texels(k, q, n, down) ==
  LET near == q \div 2000 + 1
      T(x) == IF down THEN Min2(((q - x) * n) \div q, n - 1) ELSE Min2((x * n) \div q, n - 1)
  IN {T(x) : x \in {k, Max2(k - near, 0), Min2(k + near, q - 1)}} \cup (IF k <= near \/ k >= q - near THEN {0, n - 1} ELSE {})

HasUv(f) == \A k \in 1 .. Len(f.t) : f.t[k] # <<>>
UvArea(f) == (f.t[2][1] - f.t[1][1]) * (f.t[3][2] - f.t[1][2]) - (f.t[2][2] - f.t[1][2]) * (f.t[3][1] - f.t[1][1])
(* n (scaled by 10^4) at the angle of cosine cos / 1000 to the upper side's normal *)
Cosine(f, n, cos, tol) ==
  LET g0 == Cross(VSub(f.p[2], f.p[1]), VSub(f.p[3], f.p[1]))
      g == Force(IF g0[3] < 0 THEN VMul(-1, g0) ELSE g0)
      l == ISqrt(100 * Dot(g, g))
  IN Abs(Dot(n, g) - cos * l) <= tol * l + 1000
HitOK(e, f, q, h) ==
  LET w == Force(W(f, q))
      den == Den(w)
      U(c) == Mix(w, f.t[1][c], f.t[2][c], f.t[3][c])
      sg == Sgn(den)
      m == IF f.m = <<0, 0>> THEN e.default ELSE e.libs[f.m[1]][f.m[2]]
      tex == IF m.tex = 0 THEN <<>> ELSE e.images[m.tex]
      plain == IF m.kd = <<>> THEN <<1000, 1000, 1000>> ELSE m.kd
  IN (IF h.z = PosInf \/ ~IsRat(h.z, HeightNum(f, w), den, 4, 2 + Abs(h.z) \div 100000) THEN {"height"} ELSE {})
     \cup (IF HasUv(f) /\ ~(\A c \in 1 .. 2 : IsRat(h.uv[c], U(c), UVDen * den, 5, 4 + Abs(h.uv[c]) \div 50000)) THEN {"texture-coordinate"} ELSE {})
     \cup (IF h.kind # m.kind THEN {"kind-of-material"} ELSE {})
     \cup (IF m.tex = 0
           THEN IF \A c \in 1 .. 3 : Abs(h.col[c] - 1000 * plain[c]) <= 2 THEN {} ELSE {"colour"}
           ELSE IF ~HasUv(f) THEN {}
           ELSE LET qq == UVDen * Abs(den)
                    cs == Texels(Abs(U(1)) % qq, qq, tex.w, FALSE)
                    rs == Texels(Abs(U(2)) % qq, qq, tex.h, TRUE)
                IN IF \E i \in cs, j \in rs : \A c \in 1 .. 3 : IsRat(h.col[c], tex.px[j * tex.w + i + 1][c], 255, 6, 2) THEN {} ELSE {"texture"})
     \cup (IF h.front = (sg > 0) THEN {} ELSE {"facing"})
     \cup (IF m.bump # 0 /\ (~HasUv(f) \/ UvArea(f) = 0) THEN {}
           ELSE IF Cosine(f, h.n, IF m.bump = 0 THEN 1000 ELSE m.bump, IF m.bump = 0 THEN 2 ELSE 12) THEN {} ELSE {"bump"})

JudgeProbe(e, faces, q) ==
  LET S == Force({f \in faces : Inside(f, q)})
      H == Force([f \in S |-> Height(f, q)])
      Rank(f) == Cardinality({g \in S : H[g] > H[f]}) + 1
      open == (\E f \in faces : OnEdge(f, q) \/ (f \in S /\ OnCut(f, q))) \/ (\E f, g \in S : f # g /\ Abs(H[f] - H[g]) < 400)
  IN IF open THEN {}
     ELSE IF Len(q.hits) # Cardinality(S) THEN {"faces-hit"}
     ELSE UNION {HitOK(e, f, q, q.hits[Rank(f)]) : f \in S}

JudgeModel(e) ==
  LET faces == Force(Faces(e.st, e.libs))
  IN IF ~e.ok THEN {"does-not-load"}
     ELSE IF ~(\A f \in faces : Plane(f)) THEN {"bad-case"}
     ELSE UNION {JudgeProbe(e, faces, e.probes[k]) : k \in 1 .. Len(e.probes)}

(* ------------------------------------------------------------------ large models *)
(* A file too large to write down here: a grid of w by h cells of two triangles each, over        *)
(* vertices <<i, j, z(i, j)>> with texture coordinates; row j is made of material j % m + 1.       *)
(*   e.grid = [w |-> .., h |-> .., m |-> .., zs |-> <<..>>, us |-> <<..>>, vs |-> <<..>>]            *)
At(tab, k) == tab[(k % Len(tab)) + 1]
GridPoint(g, i, j) == [p |-> <<i, j, At(g.zs, 3 * i + 5 * j)>>, t |-> <<At(g.us, i + 2 * j), At(g.vs, 5 * i + j)>>]
GridFace(g, i, j, upper) ==
  LET c == IF upper THEN <<GridPoint(g, i, j), GridPoint(g, i + 1, j + 1), GridPoint(g, i, j + 1)>>
                    ELSE <<GridPoint(g, i, j), GridPoint(g, i + 1, j), GridPoint(g, i + 1, j + 1)>>
  IN [p |-> [k \in 1 .. 3 |-> c[k].p], t |-> [k \in 1 .. 3 |-> c[k].t], m |-> <<1, (j % g.m) + 1>>]
GridFaces(g, q) ==
  LET i == q.at[1] \div q.d
      j == q.at[2] \div q.d
  IN IF i \notin 0 .. g.w - 1 \/ j \notin 0 .. g.h - 1 THEN {}
     ELSE {GridFace(g, i, j, FALSE), GridFace(g, i, j, TRUE)}
JudgeGrid(e) ==
  IF ~e.ok THEN {"does-not-load"}
  ELSE UNION {JudgeProbe(e, Force(GridFaces(e.grid, e.probes[k])), e.probes[k]) : k \in 1 .. Len(e.probes)}

(* --------------------------------------------------------------------- errors *)
(* e.obj: state of the model file; e.st: its statements; e.libstate[k], e.imgstate[k]: "ok" or *)
(* what is wrong with the file; e.libs[k][j].uses: the images a material names.             *)
BadRef(st, i) == \E k \in 1 .. Len(st[i].vs) :
                   \/ ~Valid(st, i, "v", st[i].vs[k][1])
                   \/ st[i].vs[k][2] # 0 /\ Len(All(st, "vt")) > 0 /\ ~Valid(st, i, "vt", st[i].vs[k][2])
                   \/ st[i].vs[k][3] # 0 /\ Len(All(st, "vn")) > 0 /\ ~Valid(st, i, "vn", st[i].vs[k][3])
BadStatement(st, i) == \/ st[i].op = "bad"
                       \/ st[i].op = "f" /\ (st[i].vs = <<>> \/ BadRef(st, i))
ObjFaulty(e) == e.obj # "ok" \/ \E i \in 1 .. Len(e.st) : BadStatement(e.st, i)
Named(e) == IF e.obj # "ok" THEN {} ELSE {e.st[i].lib : i \in {j \in 1 .. Len(e.st) : e.st[j].op = "lib"}}
LibFaulty(e, k) == e.libstate[k] # "ok"
Uses(e) == UNION {{x \in 1 .. Len(e.imgstate) : \E j \in 1 .. Len(e.libs[k]) : x \in {e.libs[k][j].tex, e.libs[k][j].bumpfile}} : k \in {x \in Named(e) : ~LibFaulty(e, x)}}
(* the files that are at fault; a faulty library is named by the model that asks for it, or itself *)
AtFault(e) == (IF ObjFaulty(e) THEN {"obj"} ELSE {})
              \cup (IF \E k \in Named(e) : LibFaulty(e, k) THEN {"obj"} \cup {ToString(<<"lib", k>>) : k \in {x \in Named(e) : LibFaulty(e, x)}} ELSE {})
              \cup {ToString(<<"img", x>>) : x \in {y \in Uses(e) : e.imgstate[y] # "ok"}}
NameOf(m) == IF m[1] = "obj" THEN "obj" ELSE ToString(<<m[1], m[2]>>)
JudgeLoad(e) ==
  LET fault == AtFault(e)
      names == {NameOf(e.mentions[k]) : k \in 1 .. Len(e.mentions)}
  IN IF e.open THEN {}
     ELSE IF fault = {} THEN IF e.ok THEN {} ELSE {"does-not-load"}
     ELSE IF e.ok THEN {"no-error"} ELSE IF names \cap fault = {} THEN {"file-not-named"} ELSE {}
=============================================================================
