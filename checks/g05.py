"""G05: transformations."""
import copy, math
from gen import *

ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-3, 4, 5), (5, 12, 13), (-12, -5, 13), (24, 7, 25)]
# close to a multiple of a quarter turn
FINE = [(m * m - 1, 2 * m, m * m + 1) for m in (20, 70, 200)]
FINE += [(-c, s, h) for c, s, h in FINE] + [(s, c, h) for c, s, h in FINE] + [(c, -s, h) for c, s, h in FINE] + [(-s, -c, h) for c, s, h in FINE]


def one(rng):
    """lattice form, form for the recorder, 3x3 matrix, translation, scale"""
    k = rng.choice(["t", "s", "rx", "ry", "rz", "rx", "ry", "rz", "nop"])
    if k == "t":
        t = lat(rng, -5, 5)
        return ["t"] + t, {"t": t}, IDENT, t, 1
    if k == "s":
        n, d = rng.choice([(2, 1), (1, 2), (3, 2), (5, 1), (1, 4)])
        return ["s", n, d], {"s": n / d}, [[n / d, 0, 0], [0, n / d, 0], [0, 0, n / d]], [0, 0, 0], n / d
    if k == "nop":
        return ["nop"], {"nop": 0}, IDENT, [0, 0, 0], 1
    c, s, h = rng.choice(ANG if rng.random() < 0.75 else FINE)
    deg = math.degrees(math.atan2(s, c)) + 360 * rng.choice([0, 0, 0, 1, -1])
    C, S = c / h, s / h
    M = {"rx": [[1, 0, 0], [0, C, S], [0, -S, C]], "ry": [[C, 0, S], [0, 1, 0], [-S, 0, C]], "rz": [[C, S, 0], [-S, C, 0], [0, 0, 1]]}[k]
    return [k, c, s, h], {k: deg}, M, [0, 0, 0], 1


def several(rng, depth=0):
    k = rng.random()
    if k < 0.25 or depth > 1:
        return one(rng)
    L, R, M, T, sc, h = [], [], IDENT, [0, 0, 0], 1, 1
    for _ in range(rng.randint(0, 4)):
        a = several(rng, depth + 1) if rng.random() < 0.15 else one(rng)
        h *= a[0][3] if a[0][0][0] == "r" else 25 if a[0][0] == "list" else 4 if a[0][0] == "s" else 1
        if h > 800 and (L or h > 50000):                        # keeps the rationals small
            break
        L.append(a[0]); R.append(a[1])
        M, T, sc = mat_mul(a[2], M), add(mat_vec(a[2], T), a[3]), sc * a[4]
    return ["list", L], R, M, T, sc


def gen(c):
    rng, out = c.rng, []
    for _ in range(c.n(1200, 15000)):
        L, R, M, T, sc = several(rng)
        out.append({"cmd": "trans", "tr": L, "real": R, "ps": [[lat(rng, -9, 9), rng.random() < 0.5] for _ in range(6)]})
    for _ in range(c.n(500, 6000)):
        L, R, M, T, sc = several(rng)
        s = lattice_shape(rng, ("quad", "tri", "box"))
        case = hits_case(rng, s, (M, T, sc), 16, shape=dict(place(s, (IDENT, [0, 0, 0], 1)), tr=R))
        case["_n"] = len(L[1]) if L[0] == "list" else 1
        out.append(case)
    return out


def run(c):
    exe = c.build()
    c.model("MC_Geometry", c.n("MC_Geometry.cfg", "MC_Geometry_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    fine = lambda t: t[0][0] == "r" and t[3] > 400 or t[0] == "list" and any(fine(x) for x in t[1])
    cls = lambda e: ("trans %s %s" % ("fine" if fine(e["tr"]) else e["tr"][0], "direction" if e["dir"] else "point")) if e["ev"] == "trans" else \
        ("%s %s" % (e["s"]["k"], "hit" if e["got"] else "miss")) if e["ev"] == "hit" else e["ev"]
    c.judge("T_Geometry", evs, cases, cls, ["trans %s %s" % (k, d) for k in ("t", "s", "rx", "ry", "rz", "list", "nop") for d in ("direction", "point")] + ["trans fine direction", "trans fine point"]
            + [s + w for s in ("quad", "tri", "box") for w in (" hit", " miss")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] == "trans" and any(e["p"]) and len(neg) < 300:
                x = copy.deepcopy(e); x["got"][len(neg) % 3] += 20; neg.append((x, "transformed-point"))
                if e["tr"][0] == "t" and any(e["tr"][1:]):
                    neg.append((dict(e, dir=not e["dir"]), "transformed-point"))
                if e["tr"][0] == "list" and len(e["tr"][1]) == 2 and e["tr"][1][0][0] == "t" and e["tr"][1][1] == ["s", 2, 1] and not e["dir"] and any(e["tr"][1][0][1:]):
                    neg.append((dict(e, tr=["list", e["tr"][1][::-1]]), "transformed-point"))
        for e in [x for x in evs if x["ev"] == "hit" and x["got"] and abs(x["t"]) < 10**8][:40]:
            x = copy.deepcopy(e); x["t"] += 2000; neg.append((x, "no-such-crossing"))
            x = copy.deepcopy(e); x["n"] = mul(-1, e["n"]); neg.append((x, "normal"))
        c.negatives("T_Geometry", neg)
    return c.finish("transformations by Pythagorean angles have exact rational results; transformed shapes are hit, in the frame before the transformation, exactly like the untransformed lattice shapes")
