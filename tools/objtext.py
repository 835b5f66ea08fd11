"""Writes the statements of specs/Obj.tla as text of model files and material libraries."""


def num(rng, x):
    if x and (abs(x) < 0.01 or abs(x) > 1e5):
        return rng.choice(["%.9g", "%.8e", "%.10g"]) % x
    if x == int(x) and rng.random() < 0.6:
        return "%d" % x
    return rng.choice(["%.6f", "%.9g", "%.8e", "%.7f", "%+.7f"]) % x


def noise(rng, nv):
    k = rng.random()
    if k < 0.3:
        return "# %s" % rng.choice(["a comment", "v 1 2 3", "usemtl A"])
    if k < 0.5:
        return ""
    if k < 0.6:
        return rng.choice(["s off", "s 1", "vp 0.3 0.1", "curv 1 2", "cstype bezier", "call x.obj"])
    if k < 0.7 and nv >= 2:
        return "l %d %d" % (1, rng.randint(2, nv))
    return None


def obj_text(rng, st, unit=1, lib=lambda k: "lib%d.mtl" % k, plain=False):
    out, nv, nt, nn = [], 0, 0, 0
    extra = rng.choice(["", "", "", "w", "rgb"]) if not plain else ""
    pad = rng.choice(["", "", " ", "  \t"]) if not plain else ""
    sep = rng.choice([" ", " ", "  ", "\t"]) if not plain else " "
    for s in st:
        op = s["op"]
        if not plain and rng.random() < 0.08:
            x = noise(rng, nv)
            if x is not None:
                out.append(x)
        if op == "v":
            p = [x * unit for x in s["p"]]
            if extra == "w" and rng.random() < 0.5:
                w = rng.choice([2, 0.5, 4])
                p = [x * w for x in p] + [w]
            elif extra == "rgb":
                p = p + [0.1, 0.2, 0.3]
            out.append("v" + sep + sep.join(num(rng, x) for x in p))
            nv += 1
        elif op == "vt":
            w = [0.0] if rng.random() < 0.1 and not plain else []
            out.append("vt" + sep + sep.join(num(rng, x) for x in [y / 8 for y in s["p"]] + w))
            nt += 1
        elif op == "vn":
            out.append("vn" + sep + sep.join(num(rng, x) for x in [0, 0, 1]))
            nn += 1
        elif op == "f":
            def ref(v):
                a, b, n = v
                if n:
                    return "%d/%s/%d" % (a, b if b else "", n)
                return "%d/%d" % (a, b) if b else "%d" % a
            out.append("f" + sep + sep.join(ref(v) for v in s["vs"]))
        elif op == "usemtl":
            out.append("usemtl " + s["name"])
        elif op == "lib":
            out.append("mtllib " + lib(s["lib"]))
        elif op == "o":
            out.append(rng.choice(["o", "g"]) + rng.choice(["", " thing%d" % len(out), " a b"]))
        elif op == "bad":
            out.append(s["text"])
        else:
            raise Exception(op)
    eol = rng.choice(["\n", "\n", "\r\n"]) if not plain else "\n"
    return eol.join(x + (pad if x and not x.startswith("o") else "") for x in out) + rng.choice(["", eol])


def mtl_text(rng, mats, images, plain=False):
    out = []
    def junk():
        if plain or rng.random() > 0.3:
            return
        out.append(rng.choice(["Ka 0.1 0.2 0.3", "Ks 1 1 1", "Ns 96.07", "Ni 1.45", "d 1.0", "illum 2", "# Kd 0 0 0", "Ke 0 0 0", "Tf 1 1 1", "Pr 0.3", "", "Kd_unknown 3 4 5"]))
    if not plain and rng.random() < 0.3:
        out.append("# materials")
    for m in mats:
        out.append("newmtl " + m["name"])
        lines = []
        if m["kd"]:
            lines.append("Kd " + " ".join(num(rng, x / 1000) for x in m["kd"]))
        if m["tex"]:
            lines.append("map_Kd " + images[m["tex"] - 1])
        if m["bumpfile"]:
            lines.append(rng.choice(["map_Bump", "map_bump", "bump"]) + " " + images[m["bumpfile"] - 1])
        rng.shuffle(lines)
        for x in lines:
            junk()
            out.append(x)
        junk()
        if rng.random() < 0.3:
            out.append("")
    return rng.choice(["\n", "\n", "\r\n"]).join(out) + rng.choice(["", "\n"])
