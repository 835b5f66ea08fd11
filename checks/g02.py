"""G02: bounding boxes and the slab test."""
import copy
from gen import *


def unit_place(s, u):
    o = {"k": s["k"]}
    for k, x in s.items():
        if k in ("c", "q", "u", "v", "a", "b"):
            o[k] = mul(u, x)
    if "r" in s:
        o["r"] = s["r"] * u
    if s["k"] == "tri":
        o["c"] = mul(u, s["c"])
        o["uv"] = [[x / 4 for x in w] for w in s["uv"]]
    return o


def boxes(c):
    rng, out = c.rng, []
    for _ in range(c.n(2500, 20000)):
        s = lattice_shape(rng)
        if rng.random() < 0.3 and s["k"] in ("quad", "tri"):      # flat along an axis
            a = rng.randrange(3)
            if s["k"] == "quad":
                s["u"][a] = s["v"][a] = 0
            else:
                s["b"][a] = s["c"][a] = s["a"][a]
        u = rng.choice([1, 1, 0.37, 1000.0, 1.7e-5, 3.3e-5, 1.3e-4])
        if s["k"] == "box":         # its faces bring thickness of their own
            u = max(u, 0.37)
        shape = unit_place(s, u)
        if rng.random() < 0.2:
            shape = {"k": "fog", "b": shape, "d": 1, "c": [1, 1, 1]} if s["k"] != "box" else shape
        if rng.random() < 0.2 and s["k"] != "box":
            shape = {"k": "bvh", "items": [shape] * rng.randint(1, 3)}
        out.append({"cmd": "bbox", "shape": shape, "s": s, "unit": u, "thin": int(1e-4 / u), "pad": int(2e-4 / u * 1000) + 2})
    return out


def quarter(s, axis, k):
    """a lattice shape turned by k quarters about an axis, as the transformations have it"""
    def turn(p):
        p = list(p)
        for _ in range(k % 4):
            x, y, z = p
            p = {"rx": [x, z, -y], "ry": [z, y, -x], "rz": [y, -x, z]}[axis]
        return p
    return dict(s, **{j: turn(s[j]) for j in ("q", "u", "v", "a", "b", "c") if j in s})


def turned(c):
    """flat shapes aligned with the axes but for rounding: their boxes, and rays that meet them"""
    rng, out = c.rng, []
    for _ in range(c.n(500, 5000)):
        while True:
            s = lattice_shape(rng, ("quad", "tri"))
            a = rng.randrange(3)
            if s["k"] == "quad":
                s["u"][a] = s["v"][a] = 0
                n = cross(s["u"], s["v"])
            else:
                s["b"][a] = s["c"][a] = s["a"][a]
                n = cross(sub(s["b"], s["a"]), sub(s["c"], s["a"]))
            if any(n):
                break
        u = rng.choice([1, 1, 0.37, 100.0, 0.013])
        shape, t = unit_place(s, u), s
        shape["tr"] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            x, k = rng.choice(["rx", "ry", "rz"]), rng.choice([1, 2, 3, -1, -2, -3, 5])
            shape["tr"].append({x: 90 * k})
            t = quarter(t, x, k)
        if rng.random() < 0.6:
            sh = [rng.randint(-30, 30) / 3 * u for _ in range(3)]
            shape["tr"].append({"t": sh})
        else:
            sh = [0, 0, 0]
        if sh == [0, 0, 0]:
            out.append({"cmd": "bbox", "shape": shape, "s": t, "unit": u, "thin": int(1e-4 / u), "pad": int(2e-4 / u * 1000) + 2, "turned": True})
        rays = []
        ds = rng.choice([1, 1, 0.03, 41])
        for _ in range(12):
            o, d = lattice_ray(rng, t)
            rays.append({"o": add(mul(u, o), sh), "d": mul(ds * u, d), "lo": o, "ld": d})
        out.append({"cmd": "boxhit", "shape": shape, "s": t, "turned": True, "rays": rays})
    for _ in range(c.n(300, 3000)):
        s = lattice_shape(rng)
        P = (IDENT, [0, 0, 0], 1) if s["k"] == "box" or rng.random() < 0.5 else (rotation(rng), vec(rng, -5, 5), 1)
        x = hits_case(rng, s, P, 8)
        out.append({"cmd": "boxhit", "shape": x["shape"], "s": s, "turned": False, "rays": x["rays"]})
    return out


def unions(c):
    rng, out = c.rng, []
    for _ in range(c.n(400, 4000)):
        items = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 40])):
            k = rng.random()
            if k < 0.75:
                items.append(shape(rng))
            elif k < 0.85:
                items.append({"k": "bvh", "items": [shape(rng) for _ in range(rng.randint(0, 4))]})
            else:
                items.append({"k": "fog", "b": shape(rng), "d": 1, "c": [1, 1, 1]})
        out.append({"cmd": "union", "items": items})
    return out


def slabs(c):
    rng, out = c.rng, []
    D = range(-1, 2)
    # every ray of a small lattice around a box
    for (l, h) in ([[0, 0, 0], [2, 1, 2]], [[-1, 0, 1], [1, 2, 2]]):
        for mode in c.n(["two", "three"], ["two", "swapped", "three", "combined"]):
            rays = []
            for x in range(-2, 4):
                for y in range(-2, 4):
                    for z in range(-2, 4):
                        for dx in D:
                            for dy in D:
                                for dz in D:
                                    if (dx or dy or dz) and (c.thorough or rng.random() < 0.6):
                                        rays.append([[x, y, z], [dx, dy, dz], rng.randrange(8)])
            out.append({"cmd": "slab", "blo": l, "bhi": h, "mode": mode, "unit": 1, "ds": rng.choice([1, 1, 0.3]), "rays": rays})
    for _ in range(c.n(400, 6000)):
        l = lat(rng, -6, 4)
        h = [x + rng.randint(1, 6) for x in l]
        rays = []
        for _ in range(25):
            o = lat(rng, -12, 12)
            if rng.random() < 0.8:
                p = [rng.randint(a, b) for a, b in zip(l, h)]
                d = sub(p, o)
                if rng.random() < 0.3:
                    d = mul(-1, d)
                if rng.random() < 0.3:
                    d = add(d, lat(rng, -2, 2))
            else:
                d = lat(rng, -9, 9)
            if any(d):
                rays.append([o, d, rng.randrange(8)])
        out.append({"cmd": "slab", "blo": l, "bhi": h, "mode": rng.choice(["two", "swapped", "three", "padded", "combined", "shifted"]),
                    "unit": 1, "ds": rng.choice([1, 1e-3, 7.7, 1e4]), "rays": rays})
    # powers of two: lengths change, nothing else does
        out[-1]["unit"] = rng.choice([1, 0.25, 1024]) if out[-1]["mode"] != "padded" else rng.choice([1, 1024])
    return out


def centers(c):
    rng = c.rng
    return [{"cmd": "center", "blo": lat(rng, -20, 10), "bhi": lat(rng, 11, 40), "plo": lat(rng, -30, 10), "phi": lat(rng, 11, 50), "shift": lat(rng, -9, 9)}
            for _ in range(c.n(200, 2000))]


def cls(e):
    if e["ev"] == "bbox":
        return "bbox %s%s" % (e["s"]["k"], " thin" if e["thin"] else "")
    if e["ev"] == "boxhit":
        return "meets box%s" % (" turned" if e["turned"] else "") if e["got"] else "passes box"
    if e["ev"] == "slab":
        return "slab %s%s" % ("hit" if e["got"] else "miss", " axis" if 0 in e["d"] else "")
    return e["ev"]


def run(c):
    exe = c.build()
    c.model("MC_Geometry", c.n("MC_Geometry.cfg", "MC_Geometry_thorough.cfg"))
    cases = boxes(c) + turned(c) + unions(c) + centers(c) + slabs(c)
    evs = c.record(cases, exe)
    c.judge("T_Geometry", evs, cases, cls, ["bbox " + k for k in ("sphere", "quad", "tri", "box", "quad thin", "tri thin")]
            + ["meets box", "meets box turned", "passes box", "slab hit", "slab miss", "slab hit axis", "slab miss axis", "union", "center"])
    if not c.violations:
        neg = []
        for i, e in enumerate(evs):
            if e["ev"] == "bbox" and i % 9 == 0:
                x = copy.deepcopy(e)
                x[("lo", "hi")[i % 2]][i % 3] += (-1 if i % 2 == 0 else 1) * (e["pad"] + 5) * 2
                neg.append((x, "bounding-box"))
                x = copy.deepcopy(e)
                x[("lo", "hi")[i % 2]][i % 3] -= (-1 if i % 2 == 0 else 1) * (e["pad"] + 5) * 2
                neg.append((x, "bounding-box"))
                if e["thin"]:
                    neg.append((dict(e, wide=[False] * 3), "bounding-box")) if 0 in [b - a for a, b in zip(e["lo"], e["hi"])] else None
            if e["ev"] == "boxhit" and e["got"] and i % 7 == 0:
                d2 = sum(x * x for x in e["d"])
                if e["s"]["k"] == "sphere":
                    oc = sub(e["s"]["c"], e["o"])
                    b = sum(x * y for x, y in zip(oc, e["d"]))
                    if b > 0 and b * b > d2 * (sum(x * x for x in oc) - e["s"]["r"] ** 2):
                        neg.append((dict(e, got=False), "shape-outside-its-box"))
                elif e["s"]["k"] == "quad":
                    m2 = [2 * a + b + c for a, b, c in zip(e["s"]["q"], e["s"]["u"], e["s"]["v"])]
                    d = sub(m2, mul(2, e["o"]))
                    if sum(x * y for x, y in zip(d, cross(e["s"]["u"], e["s"]["v"]))):
                        neg.append((dict(e, d=d, got=False), "shape-outside-its-box"))
            if e["ev"] == "union" and e["boxes"] and i % 5 == 0:
                x = copy.deepcopy(e); x["hi"][i % 3] -= 1; neg.append((x, "not-the-union"))
            if e["ev"] == "center" and i % 9 == 0:
                x = copy.deepcopy(e); x["center"][i % 3] += 10; neg.append((x, "center"))
                x = copy.deepcopy(e); x["diag"] += 1000; neg.append((x, "diagonal"))
                x = copy.deepcopy(e); x["slo"][i % 3] += 10; neg.append((x, "shifted-box"))
                x = copy.deepcopy(e); x["chi"][i % 3] += 10; neg.append((x, "combined-box"))
            if e["ev"] == "slab" and i % 41 == 0:
                o, d, l, h = e["o"], e["d"], e["blo"], e["bhi"]
                # through the centre of the box, or pointing away from it: no question
                m = [(a + b) / 2 for a, b in zip(l, h)]
                k = [(m[j] - o[j]) / d[j] for j in range(3) if d[j]]
                if e["got"] and all(d[j] or m[j] == o[j] for j in range(3)) and max(k) - min(k) < 1e-9 and min(k) > 0:
                    neg.append((dict(e, got=False), "missed-box"))
                if any(o[j] > h[j] and d[j] > 0 or o[j] < l[j] and d[j] < 0 for j in range(3)):
                    neg.append((dict(e, got=True), "box-not-there"))
        c.negatives("T_Geometry", neg[:1500])
    c.assumptions += ["rays that only touch a box may or may not be reported to hit it"]
    return c.finish("boxes of lattice shapes at several scales against exact extreme points; the slab test on lattice rays against exact rational slabs")
