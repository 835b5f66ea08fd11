"""M04: matte scattering, emission, blends."""
import copy, math
from gen import *

TILTS = [([0, 0, 1], 1), ([2, 3, 6], 7), ([-1, 2, 2], 3), ([4, 0, 3], 5), ([6, -2, 3], 7)]


def some_light(rng, p, N):
    """a light somewhere around point p of normal N"""
    k = rng.choice(["sphere", "quad", "tri"])
    d = nonzero(rng, lambda: vec(rng, -1, 1))
    at = add(p, mul(rng.uniform(1.5, 6) / length(d), d))
    if k == "sphere":
        w = rng.random()
        r = rng.uniform(0.2, 1.2)
        if w < 0.15:                       # enclosing the point
            r = length(sub(at, p)) * 1.5
        return {"k": k, "c": at, "r": r, "m": light((4, 4, 4))}
    while True:
        u, v = vec(rng, -2, 2), vec(rng, -2, 2)
        n = cross(u, v)
        if length(n) > 0.5 and abs(dot(n, sub(p, at))) > 0.3 * length(n):
            break
    if k == "quad":
        return {"k": k, "q": at, "u": u, "v": v, "m": light((4, 4, 4))}
    return {"k": k, "a": at, "b": add(at, u), "c": add(at, v), "m": light((4, 4, 4))}


def furnace(rng, total):
    R = rotation(rng)
    T = vec(rng, -3, 3)
    w8 = lambda x: mat_vec(R, x)
    pt = lambda x: add(w8(x), T)
    side = rng.choice([1, -1])
    col = [rng.randint(0, 10) / 10 for _ in range(3)]
    tilt, h = rng.choice(TILTS + TILTS[:1] * 4)
    mat = {"k": "lamb", "c": col}
    if (tilt, h) != TILTS[0]:
        mat["n"] = [(x / h + 1) / 2 for x in tilt]
    k = rng.choice(["quad", "tri", "sphere"])
    P = pt([0, 0, 0])
    d = [rng.uniform(-1, 1), rng.uniform(-1, 1), -side * rng.uniform(0.3, 1)]
    N = w8([0, 0, side])
    if k == "sphere":                      # top of a sphere, or its bottom from inside
        tilt = [0, 0, h]
        mat.pop("n", None)
        r = 2
        sh = {"k": k, "c": pt([0, 0, -r]) if side > 0 else pt([0, 0, -r]), "r": r, "m": mat}
    elif k == "quad":
        sh = {"k": k, "q": pt([-1, -1, 0]), "u": w8([2, 0, 0]), "v": w8([0, 2, 0]), "m": mat}
    else:
        # u, v increase along x and y
        sh = {"k": k, "a": pt([-1, -1, 0]), "b": pt([3, -1, 0]), "c": pt([-1, 3, 0]), "uv": [[0, 0], [1, 0], [0, 1]], "m": mat}
    # tangents do not depend on the side the surface is seen from
    W = add(w8([tilt[0] / h, tilt[1] / h, 0]), mul(tilt[2] / h, N))
    lights = [some_light(rng, P, N) for _ in range(rng.choice([1, 1, 2, 3]))]
    coplanar = False
    if rng.random() < 0.4 and k != "sphere":
        if rng.random() < 0.5:
            lights.append({"k": "quad", "q": pt([5, 5, 0]), "u": w8([1, 0, 0]), "v": w8([0, 1, 0]), "m": light((1, 1, 1))})
        else:
            lights.append({"k": "tri", "a": pt([5, 5, 0]), "b": pt([7, 5, 0]), "c": pt([5, 7, 0]), "m": light((1, 1, 1))})
        coplanar = True
    o = pt(mul(-2 * rng.choice([0.2, 1, 1.6]), d)) if k != "sphere" or side > 0 else pt(mul(-0.4, d))
    return {"cmd": "furnace", "shape": sh, "lights": lights, "o": o, "d": mul(rng.choice([1, 1, 0.1, 30]), sub(P, o)), "w": W, "total": total, "m": 4,
            "seed": rng.randrange(10**9), "color": col, "coplanar": coplanar}


def fog(rng, total):
    col = [rng.randint(0, 10) / 10 for _ in range(3)]
    c = vec(rng, -3, 3)
    o = add(c, mul(0.3, vec(rng, -1, 1)))
    sh = {"k": "fog", "b": {"k": "sphere", "c": c, "r": 2}, "d": 1e9, "c": col}     # so dense that it scatters at once
    return {"cmd": "furnace", "fog": True, "shape": sh, "lights": [some_light(rng, o, [0, 0, 1]) for _ in range(rng.choice([1, 2, 3]))], "o": o,
            "d": nonzero(rng, lambda: vec(rng, -1, 1)), "w": [0, 0, 1], "total": total, "m": 4, "seed": rng.randrange(10**9), "color": col, "coplanar": False}


def emit(rng):
    col = [rng.choice([0, 1, 2.5, 15, 0.1, 0.004]) for _ in range(3)]
    half = rng.choice([None, None, 1, 4, 0.5, 250])
    m = {"k": "light", "c": col, "half": half} if half or rng.random() < 0.7 else {"k": "light3", "c": col}
    s = lattice_shape(rng)
    sc = rng.choice([1, 0.3, 10])
    P = ([mul(sc, r) for r in rotation(rng)], vec(rng, -3, 3), sc)
    if s["k"] == "box":
        P = (IDENT, [0, 0, 0], 1)
    rays = []
    for _ in range(40):
        o, d = lattice_ray(rng, s)
        if s["k"] == "box":                # not through the edges
            o = vec(rng, -6, 6)
            d = sub([rng.uniform(*x) for x in zip(s["a"], s["b"])], o)
        if s["k"] == "sphere":
            D = dot(sub(o, s["c"]), sub(o, s["c"]))
            if D == s["r"] ** 2:
                continue
            b = dot(sub(o, s["c"]), d)
            if b * b - dot(d, d) * (D - s["r"] ** 2) <= 0:
                continue
            front = D > s["r"] ** 2
        elif s["k"] == "box":
            lo, hi = [min(x) for x in zip(s["a"], s["b"])], [max(x) for x in zip(s["a"], s["b"])]
            front = not all(a < x < b for a, x, b in zip(lo, o, hi))
        else:
            g = cross(s["u"], s["v"]) if s["k"] == "quad" else cross(sub(s["b"], s["a"]), sub(s["c"], s["a"]))
            if dot(g, d) == 0 or dot(g, sub(o, s["q"] if s["k"] == "quad" else s["a"])) == 0:
                continue
            front = dot(g, d) < 0
        ds = rng.choice([1, 0.1, 20])
        # crossings nearer than 0.001 are none
        if s["k"] == "sphere":
            b, r = -dot(sub(o, s["c"]), d), math.sqrt(b * b - dot(d, d) * (D - s["r"] ** 2))
            if any(0 < x / dot(d, d) < 0.002 * ds for x in (b - r, b + r)):
                continue
        if s["k"] == "box" and front:
            t = max(min((a - q) / x, (b - q) / x) for a, b, q, x in zip(lo, hi, o, d))
            if t < 0.002 * ds:
                continue
        rays.append({"o": add(mat_vec(P[0], o), P[1]), "d": mul(ds, mat_vec(P[0], d)), "front": front})
    return {"cmd": "emit", "shape": dict(place(s, P), m=m), "lights": [], "rays": rays, "want": [round(x * 1e6) for x in col],
            "wantatt": -1 if half is None else round(1e6 / half)}


def blend(rng, total, of=None, kinds=None, factor=None):
    """a random blend, or one of the given two kinds by the given factor"""
    of = of or rng.choice(["scatter", "normal"])
    ax = [[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, 1]]
    n = [0]
    leaves = []
    def leaf():
        n[0] += 1
        fixed = kinds[n[0] - 1] if kinds else None
        if of == "normal":
            a = ax[n[0] - 1]
            leaves.append([x * 1000000 for x in a])
            k = fixed or rng.choice(["lamb", "metal", "glass"])
            m = {"k": k, "c": [0.5, 0.5, 0.5], "fuzz": 0, "ior": 1.5}
            if a != [0, 0, 1]:
                m["n"] = [(x + 1) / 2 for x in a]
            elif not fixed and rng.random() < 0.4:
                m = light((1, 1, 1))
        else:
            col = [n[0] / 8, 0.25, 0.5]
            leaves.append([round(x * 1e6) for x in col])
            k = fixed or (rng.choice(["lamb", "metal", "glass", "light"]) if n[0] > 1 else rng.choice(["lamb", "metal", "glass"]))
            m = {"k": k, "c": col, "fuzz": 0.3, "ior": 1.5, "half": None}
        return {"leaf": n[0]}, m
    def tree(depth):
        if depth == 0 or (depth == 1 and rng.random() < 0.4):
            return leaf()
        a, ma = tree(depth - 1)
        b, mb = tree(depth - 1)
        f = factor if kinds else rng.choice([0, 1000, 500, 300, 50, 990, rng.randint(0, 1000)])
        return {"leaf": 0, "f": f, "a": a, "b": b}, {"k": "blend", "a": ma, "b": mb, "f": f / 1000}
    t, m = tree(rng.choice([1, 1, 2])) if not kinds else tree(1)
    while kinds and t["leaf"]:
        n[0] = 0; leaves.clear(); t, m = tree(1)
    return {"cmd": "blend", "tree": t, "mat": m, "of": of, "leaves": leaves, "total": total, "seed": rng.randrange(10**9)}


def gen(c):
    rng, N = c.rng, c.n(100000, 600000)
    return ([furnace(rng, N) for _ in range(c.n(100, 800))] + [fog(rng, N) for _ in range(c.n(30, 200))] +
            [emit(rng) for _ in range(c.n(120, 1500))] + [blend(rng, N) for _ in range(c.n(50, 800))] +
            # every pair of kinds, also two of a kind, by small, middling and large factors
            [blend(rng, N // 2, of, (a, b), rng.randint(lo, hi)) for of in ("scatter", "normal") for a in ("lamb", "metal", "glass", "light") for b in ("lamb", "metal", "glass", "light")
             for lo, hi in ((20, 200), (250, 480), (520, 750), (800, 980)) if (of == "scatter" or "light" not in (a, b)) for _ in range(c.n(1, 6))])


def run(c):
    exe = c.build()
    c.model("MC_Optics", c.n("MC_Optics.cfg", "MC_Optics_thorough.cfg"))
    c.model("MC_Sampling", c.n("MC_Sampling.cfg", "MC_Sampling_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    def cls(e):
        if e["ev"] == "furnace":
            return "furnace fog" if e["what"] == "unit" else "furnace %s%s%s" % (cases[e["case"]]["shape"]["k"], " tilted" if "n" in cases[e["case"]]["shape"]["m"] else "", " coplanar" if e["coplanar"] else "")
        if e["ev"] == "emit":
            return "emit %s %s" % (e["k"], "front" if e["front"] else "back")
        return "blend " + e["of"] if e["ev"] == "blend" else e["ev"]
    c.judge("T_Optics", evs, cases, cls, ["furnace " + k for k in ("fog", "quad", "tri", "sphere", "quad tilted", "tri tilted", "quad coplanar", "tri coplanar", "tri tilted coplanar")] + ["blend scatter", "blend normal"]
            + ["emit %s %s" % (k, s) for k in ("sphere", "quad", "tri", "box") for s in ("front", "back")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] == "furnace":
                x = copy.deepcopy(e); x["w"] = [y * 104 // 100 for y in e["w"]]; neg.append((x, "energy"))
                k = max(range(len(e["w"])), key=lambda i: e["w"][i])
                x = copy.deepcopy(e); x["w"][k] = x["w"][k] * 3 // 4; neg.append((x, "biased-direction"))
                neg.append((dict(e, elsewhere=1), "start")); neg.append((dict(e, below=1), "weight-behind-the-surface")); neg.append((dict(e, notpdf=1), "scatter-kind"))
                neg.append((dict(e, colors=[[x // 2 + 7 for x in e["want"]]]), "colour"))
            elif e["ev"] == "emit" and len(neg) < 1500 and any(e["want"]):
                neg.append((dict(e, front=not e["front"]), "emission")); neg.append((dict(e, kind="scatter"), "emitter-scatters")); neg.append((dict(e, att=e["att"] + 7), "attenuation-factor"))
            elif e["ev"] == "blend":
                x = copy.deepcopy(e); s = x["counts"]; i = max(range(len(s)), key=lambda i: s[i]); k = s[i] // 20; s[i] -= k
                if len(s) > 1:
                    s[i - 1] += k
                    neg.append((x, "blend-" + e["of"]))
                neg.append((dict(e, bad=1), "blend-" + e["of"]))
        c.negatives("T_Optics", neg[-2500:])
    c.assumptions += ["weights per bin of directions are judged with six standard deviations (weights are at most two), fixed seeds",
                      ]
    return c.finish("furnace test: weighted directions of matte and fog surfaces under random lights against the cosine (uniform) measure per bin; emitters from both sides; blend trees")
