"""M02: fog."""
import copy, math
from gen import *

LN2 = math.log(2)


def mesh(rng):
    """a tetrahedron"""
    while True:
        p = [lat(rng, -3, 3) for _ in range(4)]
        v = [sub(p[i], p[0]) for i in (1, 2, 3)]
        if abs(dot(v[0], cross(v[1], v[2]))) >= 8:
            break
    f = [[p[0], p[1], p[2]], [p[0], p[2], p[3]], [p[0], p[3], p[1]], [p[1], p[2], p[3]]]
    return {"k": "mesh", "f": f}


def boundary(s, P):
    pt = lambda p: add(mat_vec(P[0], p), P[1])
    if s["k"] == "sphere":
        return place(s, P)
    if s["k"] == "mesh":
        return {"k": "bvh", "items": [{"k": "tri", "a": pt(a), "b": pt(b), "c": pt(d)} for a, b, d in s["f"]]}
    faces = []
    lo, hi = [min(x) for x in zip(s["a"], s["b"])], [max(x) for x in zip(s["a"], s["b"])]
    E = [[hi[i] - lo[i] if i == k else 0 for i in range(3)] for k in range(3)]
    for i, j in ((0, 1), (1, 2), (2, 0)):
        for q in (lo, add(lo, E[3 - i - j])):
            faces.append({"k": "quad", "q": pt(q), "u": mat_vec(P[0], E[i]), "v": mat_vec(P[0], E[j])})
    return {"k": "bvh", "items": faces}


def inside(s, o, d):
    """lengths at which the ray enters and leaves the volume; None: not at all; "edge": too close to call"""
    if s["k"] == "sphere":
        oc = sub(o, s["c"])
        a, b = dot(d, d), dot(oc, d)
        D = b * b - a * (dot(oc, oc) - s["r"] ** 2)
        if D == 0:
            return "edge"
        return None if D < 0 else ((-b - math.sqrt(D)) / a, (-b + math.sqrt(D)) / a)
    if s["k"] == "mesh":
        fl = [(a, sub(b, a), sub(e, a), True) for a, b, e in s["f"]]
    else:
        lo, hi = [min(x) for x in zip(s["a"], s["b"])], [max(x) for x in zip(s["a"], s["b"])]
        E = [[hi[i] - lo[i] if i == k else 0 for i in range(3)] for k in range(3)]
        fl = [(q, E[i], E[j], False) for i, j in ((0, 1), (1, 2), (2, 0)) for q in (lo, add(lo, E[3 - i - j]))]
    ts = []
    for q, u, v, tri in fl:
        n = cross(u, v)
        nd, num = dot(n, d), dot(n, sub(q, o))
        if nd == 0:
            if num == 0:
                return "edge"
            continue
        p = add(mul(nd, sub(o, q)), mul(num, d))
        sg = 1 if nd > 0 else -1
        a, b, den = sg * dot(n, cross(p, v)), sg * dot(n, cross(u, p)), abs(nd) * dot(n, n)
        if max(map(abs, (a, b, den))) > 10**8:
            return "edge"
        out = a < 0 or b < 0 or (a + b > den if tri else a > den or b > den)
        if out:
            continue
        if a == 0 or b == 0 or (a + b == den if tri else a == den or b == den):
            return "edge"
        ts.append(num / nd)
    return (min(ts), max(ts)) if len(ts) == 2 else None if not ts else "edge"


def case(rng, want, total, k, ds, small=False):
    while True:
        s = mesh(rng) if k == "mesh" else lattice_shape(rng, (k,))
        if want == "inside":
            if k == "sphere":
                o = add(s["c"], lat(rng, -2, 2))
            elif k == "box":
                o = [rng.randint(min(x), max(x)) for x in zip(s["a"], s["b"])]
            else:
                o = lat(rng, -2, 2)
            d = lat(rng, -3, 3)
        else:
            o, d = lattice_ray(rng, s if k != "mesh" else {"k": "tri", "a": s["f"][0][0], "b": s["f"][3][1], "c": s["f"][3][2]})
        if not any(d):
            continue
        w = inside(s, o, d)
        if w == "edge" or (w is None) != (want == "miss"):
            continue
        a, b = rng.choice([(0.001, math.inf), (0, math.inf), (-math.inf, math.inf), (-2, math.inf)])
        if w and want != "behind" and w[1] <= 0.02 or want == "inside" and (w[0] > -0.01 or w[1] < 0.01) or want == "outside" and w[0] < 0.01:
            continue
        if want == "behind" and w[1] > -0.01:
            continue
        if want == "later":
            a = max(w[0], 0) + (w[1] - max(w[0], 0)) * rng.choice([0.25, 0.5, 0.8])
        if want == "sooner":
            b = max(w[0], 0) + (w[1] - max(w[0], 0)) * rng.choice([0.25, 0.5, 0.8])
        if want == "between":
            x, y = sorted(rng.uniform(max(w[0], 0), w[1]) for _ in range(2))
            a, b = x, y
        if want == "beyond":
            a = w[1] + 0.5
        if want == "before":
            if w[0] < 0.1:
                continue
            b = w[0] * 0.7
        f, t = (max(w[0], a, 0), min(w[1], b)) if w else (0, 0)
        empty = f >= t
        if (want in ("miss", "behind", "beyond", "before")) != empty or (not empty and t - f < 0.05):
            continue
        m = rng.randint(1, 6)
        break
    sc = rng.choice([1, 1, 0.02, 3.7, 250.0]) if not small else 0.0005
    if w and (w[1] - w[0]) * length(d) * sc < 0.0003:      # a volume left within 0.0001 is none to the library
        sc = 0.001 / ((w[1] - w[0]) * length(d))
    P = ([mul(sc, r) for r in (rotation(rng) if rng.random() < 0.7 else IDENT)], mul(sc, vec(rng, -3, 3)), sc)
    dens = m * LN2 / ((t - f) * length(d)) if not empty else rng.choice([0.1, 1, 30])
    e6 = lambda x: FAR if x == math.inf else -FAR if x == -math.inf else round(x * 1e6)
    iv = [("inf" if x > 0 else "-inf") if math.isinf(x) else x / ds for x in (a, b)]
    if empty:
        f = t = 0
    return {"cmd": "fog", "shape": {"k": "fog", "b": boundary(s, P), "d": dens / sc, "c": [1, 1, 1]}, "s": s, "M": [x for r in P[0] for x in r], "T": P[1],
            "scale": sc, "ds": ds, "lo": o, "ld": d, "a": e6(a), "b": e6(b), "iv": iv, "from": f, "to": t, "m": m, "total": total if not empty else 3000,
            "seed": rng.randrange(10**9)}


KINDS = ["outside", "inside", "later", "sooner", "between", "miss", "behind", "beyond", "before"]


def gen(c):
    out = []
    for w in KINDS:
        for i in range(c.n(42, 315)):
            out.append(dict(case(c.rng, w, c.n(60000, 400000), ("sphere", "box", "mesh")[i % 3], (1, 0.3, 20, 0.01, 1000, 1, 100000)[i // 3 % 7], i // 3 % 4 == 1), want=w))
    return out


def run(c):
    exe = c.build()
    c.model("MC_Fog")
    c.model("MC_Fog", "MC_Fog_memory.cfg", violated="Mass")
    c.model("MC_Geometry", c.n("MC_Geometry.cfg", "MC_Geometry_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    def cls(e):
        if e["ev"] != "fog":
            return e["ev"]
        k = cases[e["case"]]
        return "%s %s" % (e["s"]["k"], k["want"]) + (" small" if k["scale"] < 0.003 else " long" if k["ds"] >= 1000 else " short" if k["ds"] < 0.1 else "")
    c.judge("T_Fog", evs, cases, cls, ["%s %s" % (k, w) for k in ("sphere", "box", "mesh") for w in KINDS]
            + ["%s %s %s" % (k, w, x) for k in ("sphere", "box", "mesh") for w in ("outside", "inside", "between") for x in ("long", "short")] + ["%s %s small" % (k, w) for k in ("sphere", "box", "mesh") for w in ("outside", "miss", "inside")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["from"] == e["to"]:
                neg.append((dict(e, none=e["none"] - 1, outside=1), "scattered-outside"))
                continue
            neg.append((dict(e, none=e["none"] - 1, outside=1), "scattered-outside"))
            neg.append((dict(e, badpoint=1), "scatter-point"))
            x = copy.deepcopy(e); j = 0; k = x["counts"][j] // 12; x["counts"][j] -= k; x["none"] += k; neg.append((x, "depth-distribution"))
            x = copy.deepcopy(e); x["to"] += 20000; neg.append((x, "case-of-another-volume"))
        c.negatives("T_Fog", neg)
    c.assumptions += ["depths are judged by counts per half-value length, six standard deviations, fixed seeds", "rays through an edge of the boundary, or tangent to it, are not used"]
    return c.finish("lattice rays through spheres, boxes and tetrahedra of fog in random poses, the chord computed exactly by TLC")
