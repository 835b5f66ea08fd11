"""L02: errors of reading model files."""
import copy, re
from gen import *
from objtext import *
from checks.l01 import random_model

BAD_LINES = ["v 1 2", "v a b c", "v 1 2 x", "v", "v 1 2 3 0", "v 1 2 3 x", "v 1 2 3 4 5", "vt 0.5", "vt x 1", "vt", "vn 1 2", "vn a b c", "f", "f a b c", "f 1 2 x", "f 1/2/3/4 2 3", "f 1//x 2 3", "f 1.5 2 3",
             "f 1 2 0", "f 0 1 2", "f 1 2 99", "f -99 1 2", "f 99999999999999999999 1 2", "f 4294967297 1 2", "usemtl", "f 1/99 2/1 3/1", "f 1//99 2//1 3//1"]
BAD_MTL = {"colour": ["Kd 0.5", "Kd 0.5 0.5", "Kd", "Ka 1", "Ks 1 1", "Ke 0.1"], "number": ["Kd a b c", "Kd 1 1 x", "Ns abc", "d x", "Ni", "Ka x 1 1", "Ns"], "nameless": ["newmtl", "newmtl  "],
           "mapless": ["map_Kd", "map_Bump", "bump", "map_d ", "map_Ka"], "illum": ["illum x", "illum", "illum 2.5"]}
WEIRD = ["v nan 0 0", "v inf 0 0", "v 1e39 1e39 1e39", "v -1e38 1e38 0", "vt nan nan", "vt 1e38 -1e38", "f 1", "f 1 1 1", "f 1 2", "l 1 2", "p 1", "f 1/0 2/0 3/0", "f 1/1 2 3", "f 1 2/1 3", "f 1 2 3 1 2 3 1 2 3",
         "usemtl  none such", "o", "g", "bogus 1 2 3", "mtllib", "mtllib ", "v 1 2 3 0.1 0.2 0.3", "f 1/-1 2/-1 3/-1", "f 1\\", "\u00e5\u00e4\u00f6 1", "vt 0.3", "usemtl\tA", "  f 1 2 3", "f 1 2 3 # comment", "fo 1 2 3", "v 0x10 1 1",
         "f 1,2,3", "f 1/1/1/1", "f / / /", "f // // //", "f 1/ 2/ 3/"]


def file_set(rng, case, texts):
    """files of a case, with the damages it asks for"""
    libs = case["libs"]
    pattern = rng.choice(["tex_%d.png", "tex_%d.png", "skin_%d", "tex_%d.jpg", "a tex_%d.png", "T_%d.JPEG", "x.y_%d.bmp", "im_%d.tga", "im_%d.unknown", ".hidden_%d"])
    names = [pattern % (i + 1) for i in range(len(case["imgstate"]))]
    files = []
    o = case["obj"]
    if o == "ok":
        files.append({"name": "model.obj", "text": texts})
    elif o == "binary":
        files.append({"name": "model.obj", "bytes": [rng.randrange(128, 256) for _ in range(60)] + [10] + [118, 32, 255]})
    else:
        files.append({"name": "model.obj", "damage": o})
    for i, l in enumerate(libs):
        n, s = "lib%d.mtl" % (i + 1), case["libstate"][i]
        t = mtl_text(rng, l, names, True)
        if s == "ok":
            files.append({"name": n, "text": t})
        elif s == "binary":
            files.append({"name": n, "bytes": list(t.encode()) + [10, 255, 254, 0x80, 10]})
        elif s in BAD_MTL:
            ls = t.rstrip("\n").replace("\r", "").split("\n")
            ls.insert(rng.randint(1, len(ls)), rng.choice(BAD_MTL[s]))
            files.append({"name": n, "text": "\n".join(ls) + "\n"})
        else:
            files.append({"name": n, "damage": s})
    for i, s in enumerate(case["imgstate"]):
        if s == "ok":
            files.append({"name": names[i], "img": {"w": 2, "h": 1, "px": [[128, 128, 255], [128, 128, 255]]}, "fmt": "rgb"})
        else:
            files.append({"name": names[i], "damage": s})
    return dict(case, cmd="load", files=files, file="model.obj",
                names=[["obj", 0, "model.obj"]] + [["lib", i + 1, "lib%d.mtl" % (i + 1)] for i in range(len(libs))] + [["img", i + 1, n] for i, n in enumerate(names)])


def beyond(text):
    """the known finding of texture and normal references to before the first"""
    n = {"vt": 0, "vn": 0}
    for line in text.replace("\r", "\n").split("\n"):
        w = line.split() or [""]
        if w[0] in n:
            n[w[0]] += 1
        if w[0] in "fl":
            for x in w[1:]:
                for k, y in zip(("vt", "vn"), x.split("/")[1:]):
                    m = re.match(r"[-+]?\d+$", y)
                    if m and (int(y) + n[k] < 0 or int(y) > 10 ** 17):
                        return True
    return False


def mat(name, tex=0, bump=0):
    return {"name": name, "kd": [500, 500, 500], "tex": tex, "bump": 0, "bumpfile": bump, "kind": "matte"}


BASE = [{"op": "v", "p": [0, 0, 0]}, {"op": "v", "p": [1, 0, 0]}, {"op": "v", "p": [0, 1, 0]}, {"op": "vt", "p": [1, 2]}, {"op": "vn"}]
FACE = {"op": "f", "vs": [[1, 1, 1], [2, 1, 1], [3, 1, 1]]}


def gen(c, combos):
    rng, out = c.rng, []
    rng.shuffle(combos)
    for e in combos[:c.n(2200, 30000)]:
        k = "sound" if e["obj"] == "ok" and set(e["libstate"]) | set(e["imgstate"]) == {"ok"} else "damaged files"
        out.append(file_set(rng, dict(e, _k=k), obj_text(rng, e["st"], plain=True)))
    def with_line(lines, k, open=False, label=None):
        st = BASE + [FACE]
        for l in lines:
            i = rng.randint(5, len(st)) if not l.startswith("mtllib") else 0
            st = st[:i] + [{"op": "bad", "text": l}] + st[i:]
        out.append(file_set(rng, {"obj": "ok", "st": st, "libs": [], "libstate": [], "imgstate": [], "open": open, "_k": k, "label": label}, obj_text(rng, st, plain=True)))
    for l in BAD_LINES:
        for i in range(3):
            with_line([l], "malformed line")
    for l in WEIRD:
        for i in range(3):
            with_line([l], "unusual line", True)
        with_line([l, rng.choice(WEIRD)], "unusual line", True)
    # relative references to before the first texture coordinate or normal
    with_line(["f 1/-9 2/1 3/1"], "malformed line", label="relative-texture-reference-before-the-first")
    with_line(["f 1//-9 2//1 3//1"], "malformed line", label="relative-normal-reference-before-the-first")
    # references out of range, of every kind and sign
    for v, t, n in [(4, 1, 1), (0, 1, 1), (-4, 1, 1), (1, 2, 1), (1, 1, 2), (1, 7, 0), (1, 0, 5), (1000000, 1, 1), (-1000000, 1, 1), (2147483647, 0, 0), (-1, -1, -1), (-3, 1, -1), (3, -1, 1)]:
        for p in range(3):
            f = copy.deepcopy(FACE)
            f["vs"][p] = [v, t, n]
            st = BASE + [FACE, f]
            if rng.random() < 0.5:
                st = BASE + [f] + rng.choice([[], [{"op": "o"}]]) + [FACE]
            out.append(file_set(rng, {"obj": "ok", "st": st, "libs": [], "libstate": [], "imgstate": [], "_k": "references"}, obj_text(rng, st, plain=True)))
    # damaged libraries and images, alone and among sound ones
    for s in sorted(BAD_MTL) + ["missing", "dir", "binary"]:
        for line in BAD_MTL.get(s, [""]):
            for n in (1, 2, 3):
                for at in range(n):
                    libs = [[mat("M%d" % i), mat("N%d" % i)] for i in range(n)]
                    st = [{"op": "lib", "lib": i + 1} for i in range(n)] + BASE + [{"op": "usemtl", "name": "M0"}, FACE]
                    e = {"obj": "ok", "st": st, "libs": libs, "libstate": ["ok"] * n, "imgstate": [], "_k": "library " + s}
                    e["libstate"][at] = s
                    x = file_set(rng, e, obj_text(rng, st, plain=True))
                    if line:
                        f = [y for y in x["files"] if y["name"] == "lib%d.mtl" % (at + 1)][0]
                        f["text"] = "newmtl M%d\nKd 0.1 0.2 0.3\n%s\nnewmtl other\n" % (at, line)
                    out.append(x)
    for s in ("missing", "empty", "garbage", "text", "dir", "truncated", "header"):
        for use in ("tex", "bump"):
            for unused in (False, True):
                libs = [[mat("A"), mat("B", *((1, 2) if use == "tex" else (2, 1)))]]
                st = [{"op": "lib", "lib": 1}] + BASE + [{"op": "usemtl", "name": "A" if unused else "B"}, FACE]
                out.append(file_set(rng, {"obj": "ok", "st": st, "libs": libs, "libstate": ["ok"], "imgstate": [s, "ok"], "_k": "image " + s}, obj_text(rng, st, plain=True)))
    # sound files of many kinds
    for i in range(c.n(150, 1500)):
        m = random_model(rng, "random", rng.choice([1, 3, 6]), 0)
        m.update(cmd="load", names=[["obj", 0, "model.obj"]], obj="ok", libstate=["ok"] * len(m["libs"]), imgstate=["ok"] * len(m["images"]), _k="sound")
        out.append(m)
    # an altered byte, a cut: whatever comes of it, no panic
    for i in range(c.n(400, 6000)):
        m = random_model(rng, "random", rng.choice([1, 3]), 0)
        m.update(cmd="load", names=[], obj="ok", libstate=["ok"] * len(m["libs"]), imgstate=["ok"] * len(m["images"]), open=True, _k="altered")
        f = rng.choice([x for x in m["files"] if "text" in x])
        t = f["text"]
        for _ in range(rng.choice([1, 1, 2, 5])):
            if not t:
                break
            p = rng.randrange(len(t))
            t = rng.choice([t[:p], t[:p] + rng.choice("0123456789-+/.e \n\tfvnxK\x00\x7f") + t[p + 1:], t[:p] + t[p + 1:], t[:p] + rng.choice(["nan", "\n", " ", "-", "9", "f 1 2 3\n", "v 1 2 3\n"]) + t[p:]])
        if beyond(t):
            continue
        f["text"] = t
        out.append(m)
    return out


def run(c):
    exe = c.build()
    combos = c.enumerate("MC_Load", c.n("MC_Load.cfg", "MC_Load_thorough.cfg"))
    c.model("MC_Load", "MC_Load_lenient.cfg", violated="Honest")
    cases = gen(c, combos)
    evs = c.record(cases, exe)
    c.judge("T_Obj", evs, cases, lambda e: cases[e["case"]]["_k"], ["sound", "damaged files", "malformed line", "unusual line", "references", "altered"] + ["library " + s for s in list(BAD_MTL) + ["missing", "dir", "binary"]]
            + ["image " + s for s in ("missing", "empty", "garbage", "text", "dir", "truncated", "header")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] != "load" or e["open"]:
                continue
            if e["ok"]:
                neg.append((dict(e, ok=False), "does-not-load"))
            else:
                neg.append((dict(e, ok=True), "no-error")); neg.append((dict(e, mentions=[]), "file-not-named"))
        c.rng.shuffle(neg)
        c.negatives("T_Obj", neg[:3000])
    c.assumptions += ["unrecognised statements are ignored, as the format has it", "where a model has several faults, any file at fault may be named; a faulty library may be named by its model"]
    return c.finish("combinations of damages to the model, two libraries and two images (enumerated by TLC), every kind of malformed statement, references out of range, damaged libraries among sound ones, every damage of images, altered bytes (no panic), sound files")
