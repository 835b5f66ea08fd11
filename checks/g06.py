"""G06: vectors, intervals, rays."""
import copy
from gen import *

NORMALS = [([1, 2, 2], 3), ([2, 3, 6], 7), ([4, 4, 7], 9), ([3, 4, 0], 5), ([0, 5, 12], 13), ([1, 0, 0], 1), ([0, 1, 0], 1), ([0, 0, 1], 1), ([1, 4, 8], 9)]
BIG = 10**9


def gen(c):
    rng, out = c.rng, []
    for _ in range(c.n(5000, 60000)):
        N, h = rng.choice(NORMALS)
        N = [x * rng.choice([1, -1]) for x in rng.sample(N, 3)]
        r = rng.choice([2, 9, 40])
        ex = rng.choice([0, 0, 0, -3, 20, -60, 150])
        out.append({"cmd": "vec", "a": lat(rng, -r, r), "b": lat(rng, -r, r), "k": rng.randint(-30, 30), "N": N, "h": h,
                    "ea": ex, "eb": rng.choice([ex, 0, 7, -40]), "ek": rng.choice([0, 3, -20]),
                    "tiny": [rng.choice([0, 4, -4, 9, -9, 11, -11, 1000, 0, 0]) for _ in range(3)]})
    b = lambda: rng.choice([-BIG, BIG]) if rng.random() < 0.15 else rng.randint(-6, 6)
    for _ in range(c.n(3000, 30000)):
        i, j = [b(), b()], [b(), b()]
        if rng.random() < 0.6:
            i.sort(); j.sort()
        out.append({"cmd": "intervals", "i": i, "j": j, "x": rng.randint(-8, 8), "e": rng.choice([0, 0, -2, 30, -50])})
    for _ in range(c.n(4000, 40000)):
        x = nonzero(rng, lambda: lat(rng, -3, 3))
        y = mul(rng.choice([1, -1, 2]), x) if rng.random() < 0.2 else nonzero(rng, lambda: lat(rng, -3, 3))
        a, bb = lat(rng, -4, 4), lat(rng, -4, 4)
        if rng.random() < 0.15:            # meeting
            bb = sub(add(a, mul(rng.randint(-1, 1), x)), y)
        out.append({"cmd": "rays", "a": a, "x": x, "b": bb, "y": y, "t": rng.randint(-20, 20),
                    "e": rng.choice([0, 0, 10, -10, -40, 60]), "ex": rng.choice([0, 1, -7, 20, -25, -60, 70]), "ey": rng.choice([0, -3, 12, -30, -45, 60])})
    for _ in range(c.n(2000, 10000)):
        r = rng.choice([1, 3, 12])
        out.append({"cmd": "onb", "w": nonzero(rng, lambda: lat(rng, -r, r)), "e": rng.choice([0, 0, -30, 40]), "p": lat(rng, -5, 5)})
    return out


def cls(e):
    if e["ev"] == "ray":
        return "ray parallel" if not any(cross(e["x"], e["y"])) else "ray meeting" if e["dist"] == 0 else "ray skew"
    if e["ev"] == "interval":
        return "interval " + ("empty" if e["i"][0] > e["i"][1] else "infinite" if BIG in map(abs, e["i"]) else "plain")
    return e["ev"]


def run(c):
    exe = c.build()
    c.model("MC_Algebra", c.n("MC_Algebra.cfg", "MC_Algebra_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Algebra", evs, cases, cls, ["vec", "onb", "ray parallel", "ray meeting", "ray skew", "interval empty", "interval infinite", "interval plain"])
    if not c.violations:
        neg = []
        for e in evs:
            if len(neg) > 1200:
                break
            if e["ev"] == "vec" and any(e["a"]) and c.rng.random() < 0.03:
                for k, cl in (("add", "add"), ("addassign", "add-assign"), ("sub", "sub"), ("mul", "product"), ("cross", "cross"), ("refl", "reflect"), ("unit", "unit"), ("neg", "neg"), ("axis", "axis"), ("uv", "uv-difference")):
                    x = copy.deepcopy(e); x[k][len(neg) % 2] += 300; neg.append((x, cl))
                for k, cl in (("dot", "dot"), ("len", "length"), ("lsq", "length-squared"), ("deg", "degrees")):
                    neg.append((dict(e, **{k: e[k] + 300}), cl))
        for e in [x for x in evs if x["ev"] == "interval"][:200]:
            neg.append((dict(e, has=not e["has"]), "contains"))
            for k, cl in (("join", "union"), ("plus", "shift"), ("wide", "expand")):
                neg.append((dict(e, **{k: [e[k][0] + 30, e[k][1]]}), cl))
        for e in [x for x in evs if x["ev"] == "ray"][:200]:
            x = copy.deepcopy(e); x["at"][1] += 30; neg.append((x, "point-at-length"))
            neg.append((dict(e, dist=e["dist"] + 1200), "distance"))
        for e in [x for x in evs if x["ev"] == "onb"][:100]:
            neg.append((dict(e, a=e["b"]), "basis-angles"))
            neg.append((dict(e, c=mul(-1, e["c"])), "basis-direction"))
        c.negatives("T_Algebra", neg)
    c.assumptions += ["arguments are small integers times powers of two, for which the exact results are representable or rational"]
    return c.finish("exact arithmetic on lattice arguments at many scales")
