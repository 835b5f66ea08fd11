"""L01: what is in a model file."""
import copy, math
from gen import *
from objtext import *
from checks.t02 import unit_pixels


ALIKE = ["wall.png", "wall.jpg", "a/wall.png", "b/wall.png", "Wall.png", "wall.png.png", "a/b/wall.png", "wall", "b/wall.jpg", "WALL.JPG", "wall.1.png", "wall 1.png"]


def case_of(rng, st, libs, images, probes, k, default=None, unit=1, top=40, tr=None, plain=False):
    """images: [{"w", "h", "px", "name"}]"""
    if images and not plain and rng.random() < 0.4:      # names that have much in common
        for i, n in zip(images, rng.sample(ALIKE, min(len(images), len(ALIKE)))):
            i["name"] = n
    names = [i["name"] for i in images]
    libname = [rng.choice(["lib%d.mtl", "a lib %d.mtl", "l%d", "mats/lib%d.mtl", "m%d/lib.mtl"]) % i for i in range(len(libs))] if not plain else ["lib%d.mtl" % i for i in range(len(libs))]
    files = [{"name": "model.obj", "text": obj_text(rng, st, unit, lambda i: libname[i - 1], plain)}]
    for i, l in enumerate(libs):
        files.append({"name": libname[i], "text": mtl_text(rng, l, names, plain)})
    for i in images:
        files.append({"name": i["name"], "img": i, "fmt": rng.choice(["rgb", "rgb", "rgba", "bmp"])})
    d = {"name": "", "kd": [1000] * 3, "tex": 0, "bump": 0, "bumpfile": 0, "kind": "matte"}
    given = None
    if default:
        d = dict(d, kd=default[1], kind=default[0])
        c = [x / 1000 for x in default[1]]
        given = {"k": "lamb", "c": c} if default[0] == "matte" else {"k": "metal", "c": c, "fuzz": 0}
    return {"cmd": "model", "files": files, "file": "model.obj", "given": given, "tr": tr, "unit": unit, "top": top, "probes": probes,
            "st": st, "libs": libs, "images": [{x: i[x] for x in ("w", "h", "px")} for i in images], "default": d, "_k": k}


def pose(rng):
    return [rng.choice([{"t": vec(rng, -20, 20)}, {"rx": rng.uniform(-180, 180)}, {"ry": rng.uniform(-180, 180)}, {"rz": rng.uniform(-180, 180)}, {"s": rng.choice([0.5, 2, 3.7, 0.11])}])
            for _ in range(rng.randint(0, 4))] or None


def colour(rng):
    return [rng.choice([0, 1000, rng.randrange(1001), rng.randrange(1001)]) for _ in range(3)]


def some_images(rng, n):
    out = []
    for i in range(n):
        w, h = rng.choice([(1, 1), (2, 2), (3, 2), (1, 4)])
        out.append({"w": w, "h": h, "px": [[rng.randrange(256) for _ in range(3)] for _ in range(w * h)], "name": rng.choice(["tex%d.png", "some tex %d.png", "t%d.jpg"]) % i})
    return out


def bump_image(rng, i):
    nz = rng.choice([500, 800, 1000, 300])
    if nz == 1000 and rng.random() < 0.5:
        return {"w": 2, "h": 1, "px": [[77] * 3] * 2, "name": "bump%d.png" % i}, 1000
    a = rng.uniform(0, 6.3)
    s = math.sqrt(1 - nz * nz / 1e6)
    px = [max(0, min(255, round((x + 1) * 127.5))) for x in (s * math.cos(a), s * math.sin(a), nz / 1000)]
    return {"w": 1, "h": 1, "px": [px], "name": "bump%d.png" % i}, round((2 * px[2] - 255) / 255 * 1000)


def material_of(rng, name, images, plain=False):
    m = {"name": name, "kd": colour(rng) if rng.random() < 0.8 else [], "tex": 0, "bump": 0, "bumpfile": 0, "kind": "matte"}
    if not plain and rng.random() < 0.35:
        images.append(some_images(rng, 1)[0]); images[-1]["name"] = "x%d-%s" % (len(images), images[-1]["name"])
        m["tex"] = len(images)
    if not plain and rng.random() < 0.3:
        b, nz = bump_image(rng, len(images) + 1)
        images.append(b)
        m["bumpfile"], m["bump"] = len(images), nz
    return m


PARALLELS = [[[0, 0], [1, 0], [1, 1], [0, 1]], [[0, 0], [3, 0], [4, 2], [2, 4], [0, 3]], [[0, 0], [2, -1], [4, 0], [4, 2], [2, 3], [0, 2]], [[0, 0], [2, 0], [3, 1], [3, 3], [2, 4], [0, 4], [-1, 3], [-1, 1]]]


def random_model(rng, k, nf, mats_n):
    images, st = [], []
    nl = rng.choice([0, 1, 1, 1, 2, 3]) if k != "many materials" else rng.choice([1, 2])
    libs, names = [], ["A", "B", "red paint", "m.001", "D", "A"]
    for l in range(nl):
        if k == "many materials":
            libs.append([{"name": "m%d_%d" % (l, i), "kd": [rng.randrange(1001) for _ in range(3)], "tex": 0, "bump": 0, "bumpfile": 0, "kind": "matte"} for i in range(mats_n // nl + 3)])
        else:
            libs.append([material_of(rng, rng.choice(names), images) for _ in range(rng.randint(1, 3))])
    every = [m["name"] for l in libs for m in l] + (["unknown"] if k != "many materials" else [])
    nv = nt = nn = 0
    has_vn = rng.random() < 0.4
    todo = list(range(1, nl + 1))
    rng.shuffle(todo)
    if todo and rng.random() < 0.7:
        st += [{"op": "lib", "lib": l} for l in todo]
        todo = []
    if has_vn:
        st.append({"op": "vn"}); nn = 1
    nextmat = 0
    boxes, tris = [], []
    for i in range(nf):
        if todo and rng.random() < 0.3:
            st.append({"op": "lib", "lib": todo.pop()})
        if rng.random() < 0.25:
            st.append({"op": "o"})
        if k == "many materials":
            st.append({"op": "usemtl", "name": every[nextmat % len(every)]}); nextmat += 1
        elif every and rng.random() < 0.5:
            st.append({"op": "usemtl", "name": rng.choice(every)})
        if k == "many materials" or nf > 30:
            x0, y0, S = 3 * (i % 18), 3 * (i // 18), 2
        else:
            x0, y0, S = rng.randint(0, 5), rng.randint(0, 5), 7
        if rng.random() < 0.35 and S > 2:
            base = rng.choice(PARALLELS)
            ux, uy, vx, vy = rng.choice([(1, 0, 0, 1), (2, 0, 0, 1), (1, 1, -1, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (2, 1, 1, 2)])
            pts = [[x0 + ux * a + vx * b, y0 + uy * a + vy * b] for a, b in base]
            za, zb, z0 = rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-6, 6)
            P = [[x, y, z0 + za * (x - x0) + zb * (y - y0)] for x, y in pts]
            ua, ub, va, vb = [rng.randint(-3, 3) for _ in range(4)]
            u0, v0 = rng.randint(0, 8), rng.randint(0, 8)
            T = [[u0 + ua * (x - x0) + ub * (y - y0), v0 + va * (x - x0) + vb * (y - y0)] for x, y in pts]
        else:
            while True:
                P = [[x0 + rng.randint(0, S), y0 + rng.randint(0, S), rng.randint(-6, 6)] for _ in range(3)]
                if any(cross(sub(P[1], P[0]), sub(P[2], P[0]))):
                    break
            T = [[rng.randint(-8, 24), rng.randint(-8, 24)] for _ in range(3)]
            if rng.random() < 0.1:
                T[2] = T[1]
        tris.append(rng.sample(P, 3))
        boxes.append(([min(p[0] for p in P), min(p[1] for p in P)], [max(p[0] for p in P), max(p[1] for p in P)]))
        P0, T0 = nv, nt
        for p in P:
            st.append({"op": "v", "p": p}); nv += 1
        withuv = rng.random() < 0.75
        if withuv:
            for t in T:
                st.append({"op": "vt", "p": t}); nt += 1
        if has_vn and rng.random() < 0.3:
            st.append({"op": "vn"}); nn += 1
        rel = rng.random() < 0.3
        order = list(range(len(P)))
        r = rng.randrange(len(P))
        order = order[r:] + order[:r]
        if rng.random() < 0.4:
            order.reverse()
        vn = lambda: 0 if not has_vn or not usevn else rng.choice([1, nn, -1])
        usevn = rng.random() < 0.6
        face = {"op": "f", "vs": [[P0 + j + 1 - (nv + 1 if rel else 0), (T0 + j + 1 - (nt + 1 if rel else 0)) if withuv else 0, vn()] for j in order]}
        st.append(face)
        if rng.random() < 0.1:      # the back of it too, elsewhere in the file, is a face of its own
            pass
    if not rng.random() < 0.5:
        st.append({"op": "o"})
    probes = []
    for i in range(len(boxes) if nf > 30 else 10):
        if nf <= 30 and rng.random() < 0.7:
            w, P = [rng.randint(1, 4) for _ in range(3)], rng.choice(tris)
            probes.append({"at": [sum(a * p[k] for a, p in zip(w, P)) for k in (0, 1)], "d": sum(w)})
            continue
        lo, hi = boxes[i] if nf > 30 else rng.choice(boxes)
        d = rng.choice([3, 5, 7, 11])
        probes.append({"at": [rng.randint(lo[0] * d, hi[0] * d), rng.randint(lo[1] * d, hi[1] * d)], "d": d})
    unit, tr = rng.choice([1, 1, 0.25, 8, 0.1, 1000, 0.01]), pose(rng)
    if rng.random() < 0.2:      # very small or large units, made up for by a scale
        unit = rng.choice([1e-5, 1e-4, 1e5])
        tr = [{"s": round(1 / unit, 9)}] + (tr or [])
    return case_of(rng, st, libs, images, probes, k, default=rng.choice([None, None, ("matte", colour(rng)), ("mirror", colour(rng))]), unit=unit, tr=tr)


def grid(rng, w, h, m, objects):
    """a file of (w + 1) (h + 1) vertices and 2 w h faces (GridFaces in specs/Obj.tla)"""
    g = {"w": w, "h": h, "m": m, "zs": [rng.randint(0, 6) for _ in range(7)], "us": [rng.randint(-8, 24) for _ in range(11)], "vs": [rng.randint(-8, 24) for _ in range(13)]}
    at = lambda tab, k: tab[k % len(tab)]
    v, vt, f = [], [], []
    for j in range(h + 1):
        for i in range(w + 1):
            v.append("v %d %d %d" % (i, j, at(g["zs"], 3 * i + 5 * j)))
            vt.append("vt %.3f %.3f" % (at(g["us"], i + 2 * j) / 8, at(g["vs"], 5 * i + j) / 8))
    n = lambda i, j: "%d/%d" % ((j * (w + 1) + i + 1,) * 2)
    for j in range(h):
        if objects and j % objects == 0:
            f.append("o part%d" % j)
        f.append("usemtl m%d" % (j % m + 1))
        for i in range(w):
            f.append("f %s %s %s" % (n(i, j), n(i + 1, j), n(i + 1, j + 1)))
            f.append("f %s %s %s" % (n(i, j), n(i + 1, j + 1), n(i, j + 1)))
    images = some_images(rng, 1)
    lib = [{"name": "m%d" % (i + 1), "kd": [rng.randrange(1001) for _ in range(3)], "tex": int(i % 3 == 2), "bump": 0, "bumpfile": 0, "kind": "matte"} for i in range(m)]
    probes = []
    for _ in range(150):
        d = rng.choice([3, 5, 7, 11])
        i, j = rng.choice([rng.randrange(w), w - 1, 0]), rng.choice([rng.randrange(h), h - 1, rng.randrange(h), rng.randrange(3 * h // 4, h)])
        probes.append({"at": [i * d + rng.randrange(1, d), j * d + rng.randrange(1, d)], "d": d})
    probes += [{"at": [-1, 5], "d": 3}, {"at": [3 * w + 1, 3 * h - 1], "d": 3}, {"at": [1, 3 * h + 1], "d": 3}]
    x = case_of(rng, [], [lib], images, probes, "large", plain=True, tr=pose(rng))
    x["files"][0]["text"] = "\n".join(["mtllib lib0.mtl"] + v + vt + f) + "\n"
    return dict(x, grid=g)


def gen(c, words):
    rng, out = c.rng, []
    rng.shuffle(words)
    for w in words[:c.n(2000, len(words))]:
        n = sum(1 for s in w["st"] if s["op"] == "v") // 4
        probes = []
        for k in range(1, (n if n < 8 else 5) + 1):
            probes += [{"at": [20 * k + 8, 3], "d": 5}, {"at": [20 * k + 2, 7], "d": 5}]
        out.append(case_of(rng, w["st"], w["libs"], [], probes, "enumerated", default=("matte", [100, 200, 300]), plain=True))
    for i in range(c.n(700, 6000)):
        out.append(random_model(rng, "random", rng.choice([1, 2, 3, 5, 8]), 0))
    for i in range(c.n(6, 40)):
        out.append(random_model(rng, "many faces", rng.choice([60, 150, 250]), 0))
    for m in c.n([127, 140, 260], [126, 127, 128, 129, 140, 255, 256, 257, 258, 300, 400]):
        out.append(random_model(rng, "many materials", m, m))
    for w, h, m, o in c.n([(40, 1650, 7, 0), (300, 230, 5, 16)], [(40, 1650, 7, 0), (300, 230, 5, 16), (33000, 1, 3, 0), (260, 260, 300, 1), (1, 33000, 4, 3)]):
        out.append(grid(rng, w, h, m, o))
    return out


def run(c):
    exe = c.build()
    words = c.enumerate("MC_Obj", c.n("MC_Obj.cfg", "MC_Obj_thorough.cfg"))
    c.model("MC_Obj", "MC_Obj_reset.cfg", violated="ReadsWhatIsMeant")
    c.model("MC_Obj", "MC_Obj_late.cfg", violated="ReadsWhatIsMeant")
    cases = gen(c, words)
    evs = c.record(cases, exe)
    def cls(e):
        return cases[e["case"]]["_k"]
    c.judge("T_Obj", evs, cases, cls, ["enumerated", "random", "many faces", "many materials", "large"])
    if not c.violations:
        seen = {"hits": 0, "textured": 0, "bumped": 0}
        neg = []
        for e in evs:
            hs = [h for p in e["probes"] for h in p["hits"]]
            seen["hits"] += len(hs)
            if cases[e["case"]]["_k"] not in ("random", "enumerated") or len(neg) > 1500:
                continue
            for what, f in (("faces-hit", lambda p, h: p["hits"].append(h)), ("faces-hit", lambda p, h: p["hits"].pop()), ("colour texture", lambda p, h: h["col"].__setitem__(0, (h["col"][0] + 300000) % 1000000)),
                            ("facing", lambda p, h: h.update(front=not h["front"])), ("height", lambda p, h: h.update(z=h["z"] + 30)), ("texture-coordinate", lambda p, h: h["uv"].__setitem__(1, h["uv"][1] + 900)),
                            ("bump", lambda p, h: h.update(n=mul(-1, h["n"]))), ("kind-of-material", lambda p, h: h.update(kind="glass"))):
                if cases[e["case"]]["_k"] == "random" and what not in ("faces-hit", "height", "facing", "kind-of-material"):
                    continue
                if cases[e["case"]]["_k"] == "random":
                    continue
                x = copy.deepcopy(e)
                ps = [p for p in x["probes"] if p["hits"]]
                if ps:
                    p = c.rng.choice(ps)
                    f(p, p["hits"][0])
                    neg.append((x, None))
            neg.append((dict(e, ok=False), "does-not-load"))
        c.rng.shuffle(neg)
        c.negatives("T_Obj", neg[:c.n(600, 1500)])
        c.explored["faces_met"] = seen["hits"]
    c.assumptions += ["polygons are plane and convex, their texture coordinates affine; faces without texture coordinates in files that have some are left open in that respect",
                      "rays exactly on edges, on the cuts of polygons, or through faces closer than 0.04 to each other are left open"]
    return c.finish("every file of up to %d statements of an alphabet of 8 (enumerated by TLC), random files in varying notation with several objects, libraries, textures, bump maps, relative references, files of up to 400 materials, files of over 65536 vertices and 130000 faces; all faces met by lines straight through the model" % c.n(4, 5))
