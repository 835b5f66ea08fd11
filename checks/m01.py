"""M01: light sampling."""
import copy, math
from math import gcd
from gen import *

AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def flat(s):
    return (s["q"], s["u"], s["v"]) if s["k"] == "quad" else (s["a"], sub(s["b"], s["a"]), sub(s["c"], s["a"]))


def origin(rng, s):
    """a lattice point from which the light can be seen, where the numbers stay small"""
    for _ in range(1000):
        o = lat(rng, -6, 6)
        if s["k"] == "sphere":
            D = dot(sub(o, s["c"]), sub(o, s["c"]))
            if D < s["r"] ** 2 or s["r"] ** 2 < D <= 400:
                return o
        else:
            q, u, v = flat(s)
            if dot(cross(u, v), sub(q, o)):
                return o
    raise ValueError(s)


def near_sphere(rng):
    """a sphere and a point within a few percent of its surface"""
    while True:
        r = rng.randint(4, 13)
        v = lat(rng, -14, 14)
        D = dot(v, v)
        if r * r - 3 <= D <= r * r + 3 and D != r * r:
            c = lat(rng, -3, 3)
            return {"k": "sphere", "c": c, "r": r}, add(c, v)


def place_light(s, P):
    return dict(place(s, P), m=light((1, 1, 1)))


def pose(rng):
    if rng.random() < 0.3:
        return IDENT, [0, 0, 0], 1
    sc = rng.choice([1, 1, 0.37, 5.0])
    return [mul(sc, r) for r in rotation(rng)], vec(rng, -3, 3), sc


def case(cmd, s, P, **k):
    return dict({"cmd": cmd, "shape": place_light(s, P), "s": s, "M": [x for r in P[0] for x in r], "T": P[1], "scale": P[2]}, **k)


def flat_ok(s, o, d):
    q, u, v = flat(s)
    n = cross(u, v)
    num, nd, L2 = dot(n, sub(q, o)), abs(dot(n, d)), dot(d, d)
    if nd == 0:
        return True
    A, B = num * num * L2, nd ** 3
    g = gcd(A, B)
    return A < 2 * 10**9 and B < 2 * 10**9 and B // g <= 10**7 and A / B * math.sqrt(L2) < 900 and (B // g) * 9 < 2 * 10**8


def gen(c):
    rng, out = c.rng, []
    N = c.n(250000, 2000000)
    kinds = ["sphere", "quad", "tri"]
    for i in range(c.n(90, 600)):
        s = lattice_shape(rng, (kinds[i % 3],))
        o = origin(rng, s)
        out.append(case("aim", s, pose(rng), lo=o, total=N, m=rng.choice([3, 5, 8]), seed=rng.randrange(10**9)))
    for i in range(c.n(24, 80)):              # inside a sphere light
        s = {"k": "sphere", "c": lat(rng, -3, 3), "r": rng.randint(1, 4)}
        o = add(s["c"], rng.choice([[0, 0, 0], lat(rng, -1, 1), lat(rng, -2, 2)]))
        if dot(sub(o, s["c"]), sub(o, s["c"])) < s["r"] ** 2:
            out.append(case("aim", s, pose(rng), lo=o, total=N, m=6, seed=rng.randrange(10**9)))
    for i in range(c.n(16, 80)):              # just inside and just outside of the surface of a sphere light
        s, o = near_sphere(rng)
        out.append(case("aim", s, pose(rng), lo=o, total=N, m=6, seed=rng.randrange(10**9)))
    for i in range(c.n(60, 600)):
        s, o = near_sphere(rng)
        rays = []
        while len(rays) < 8:
            d = lat(rng, -9, 9) if rng.random() < 0.3 else sub(add(s["c"], lat(rng, -s["r"], s["r"])), o)
            if any(d) and dot(d, d) < 900:
                rays.append([o, d, rng.choice([1, 0.1])])
        out.append(case("density", s, pose(rng), rays=rays))
    for i in range(c.n(1500, 20000)):
        s = lattice_shape(rng, (kinds[i % 3],))
        rays = []
        while len(rays) < 8:
            o = origin(rng, s)
            if s["k"] == "sphere":
                t = add(s["c"], lat(rng, -s["r"], s["r"]))
            else:
                q, u, v = flat(s)
                a = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (2, -1), (1, 2)])
                t = add(add(q, mul(a[0], u)), mul(a[1], v))
                if rng.random() < 0.6:        # a point inside: the middle of the (half) light, doubled
                    t = None
            if t is None:
                d = add(sub(mul(2, q), mul(2, o)), add(u, v)) if s["k"] == "quad" else add(sub(mul(3, q), mul(3, o)), add(u, v))
                g = gcd(gcd(d[0], d[1]), d[2]) or 1
                d = [x // g for x in d]
            else:
                d = sub(t, o)
            if rng.random() < 0.1:
                d = mul(-1, d)
            if any(d) and max(map(abs, d)) <= 30 and (s["k"] == "sphere" or flat_ok(s, o, d)) and dot(d, d) < 900:
                ins = s["k"] == "sphere" and dot(sub(o, s["c"]), sub(o, s["c"])) < s["r"] ** 2
                rays.append([o, d, rng.choice([1, 1, 0.01, 3.7] + ([] if ins else [20]))])
        out.append(case("density", s, pose(rng), rays=rays))
    for i in range(c.n(200, 2000)):
        lights = [place_light(lattice_shape(rng, ("sphere", "quad", "tri")), (IDENT, vec(rng, -3, 3), 1)) for _ in range(rng.choice([1, 2, 3, 7]))]
        o = vec(rng, -8, 8)
        dirs = [vec(rng, -1, 1) for _ in range(6)] + [sub(rng.choice(lights).get("c") or vec(rng, -3, 3), o) for _ in range(6)]
        out.append({"cmd": "mixval", "lights": lights, "o": o, "w": nonzero(rng, lambda: vec(rng, -1, 1)), "dirs": [d for d in dirs if any(d)]})
    for k in (40, 257, 300, 1000)[:c.n(3, 4)]:     # very many lights, all around the origin
        def star(i):
            z, a = 1 - (2 * i + 1) / k, i * 2.399963229728653
            s = math.sqrt(1 - z * z)
            return {"k": "sphere", "c": mul(40, [s * math.cos(a), s * math.sin(a), z]), "r": 2.4 if k <= 300 else 0.4, "m": light((1, 1, 1))}
        stars = [star(i) for i in range(k)]
        out.append({"cmd": "choose", "lights": stars, "o": [0, 0, 0], "total": N, "seed": rng.randrange(10**9)})
        out.append({"cmd": "mixval", "lights": stars, "o": [0, 0, 0], "w": [0, 1, 0], "dirs": [mul(1 / 40, rng.choice(stars + stars[-2:] * k)["c"]) for _ in range(6)]})
    for i in range(c.n(18, 60)):
        k = rng.choice([1, 2, 2, 3, 4, 5, 6]) if i > 6 else max(1, i)
        def one(a):
            p = mul(rng.uniform(4, 8), a)
            b, e = [x for x in AXES if not dot(x, a)][:1][0], None
            e = cross(a, b)
            z = rng.choice(["sphere", "quad", "tri"])
            r = rng.uniform(0.3, 1.5)
            if z == "sphere":
                return {"k": z, "c": p, "r": r, "m": light((1, 1, 1))}
            if z == "quad":
                return {"k": z, "q": p, "u": mul(r, b), "v": mul(r, e), "m": light((1, 1, 1))}
            return {"k": z, "a": p, "b": add(p, mul(r, b)), "c": add(p, mul(r, e)), "m": light((1, 1, 1))}
        o = vec(rng, -2, 2)
        shift = lambda sh: dict(sh, **{key: add(sh[key], o) for key in (("c",) if sh["k"] == "sphere" else ("q",) if sh["k"] == "quad" else ("a", "b", "c"))})
        out.append({"cmd": "choose", "lights": [shift(one(a)) for a in rng.sample(AXES, k)], "o": o, "total": N, "seed": rng.randrange(10**9)})
        below = [shift(one([0, -1, 0])) for _ in range(1)]
        out.append({"cmd": "choose", "lights": below, "o": o, "w": [0, 1, 0], "swap": i % 2 == 0, "total": N, "seed": rng.randrange(10**9)})
    return out


def inside(e):
    return e["s"]["k"] == "sphere" and dot(sub(e["o"], e["s"]["c"]), sub(e["o"], e["s"]["c"])) < e["s"]["r"] ** 2


def near(e):
    return e["s"]["k"] == "sphere" and e["s"]["r"] > 3 and abs(dot(sub(e["o"], e["s"]["c"]), sub(e["o"], e["s"]["c"])) - e["s"]["r"] ** 2) <= 3


def cls(e):
    if e["ev"] == "aim":
        return "aim " + ("near " if near(e) else "") + ("inside" if inside(e) else e["s"]["k"])
    if e["ev"] == "density":
        return "density %s %s" % ("inside" if inside(e) else e["s"]["k"], "on" if e["got"] else "off")
    if e["ev"] == "mix":
        return "mix" if len(e["each"]) < 20 else "mix many"
    return "dist " + e["fun"] + (" many" if e["m"] > 6 else "") if e["ev"] == "dist" else e["ev"]


def run(c):
    exe = c.build()
    c.model("MC_Sampling", c.n("MC_Sampling.cfg", "MC_Sampling_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Sampling", evs, cases, cls, ["aim inside", "aim near inside", "aim near sphere", "mix many", "dist choose many", "aim sphere", "aim quad", "aim tri", "density inside on", "mix", "dist choose", "dist mix"]
            + ["density %s %s" % (k, w) for k in ("sphere", "quad", "tri") for w in ("on", "off")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] == "density" and len(neg) < 500:
                neg.append((dict(e, got=e["got"] + e["got"] // 1000 + 20), None))
                if e["got"] and not inside(e) and e["s"]["k"] != "sphere":
                    x = copy.deepcopy(e); x["d"] = mul(-1, e["d"]); neg.append((x, "density-off-the-light"))
            if e["ev"] == "aim":
                neg.append((dict(e, missed=1), "missed-the-light")); neg.append((dict(e, badpdf=1), "density-not-positive"))
                x = copy.deepcopy(e)
                f = "unit" if inside(e) else "counts"
                k = max(range(len(x[f])), key=lambda i: x[f][i])
                x[f][k] = x[f][k] // 2
                neg.append((x, "distribution"))
            if e["ev"] == "dist":
                x = copy.deepcopy(e); x["counts"][0] -= e["total"] // 50 + 1; neg.append((x, "distribution"))
            if e["ev"] == "mix" and 10**8 > e["container"] > 100 and max(e["each"]) < 10**8:
                neg.append((dict(e, mixed=e["mixed"] + 10), "mixed-density")); neg.append((dict(e, container=e["container"] * 2), "average-over-lights"))
        c.negatives("T_Sampling", neg[:1500])
    c.assumptions += ["hits nearer than a thousandth of a direction's length are none, for the whole library",
                      "points in the plane of a flat light, and on the surface of a sphere light, see nothing of it and are not used",
                      "drawn directions are judged by counts per bin of exactly known probability, six standard deviations, fixed seeds"]
    return c.finish("lattice lights in random poses: reported densities against exact solid angle densities, drawn directions counted over the light")
