"""G03: ray intersection with sphere, quad, triangle and box."""
import copy
from gen import *


def pose(rng, s):
    k = rng.random()
    if k < 0.3 or s["k"] == "box":
        return (IDENT, [0, 0, 0], 1), True
    sc = rng.choice([1, 0.02, 3.7, 250.0])
    if k < 0.45:
        return (mat_mul([[sc, 0, 0], [0, sc, 0], [0, 0, sc]], IDENT), mul(sc, vec(rng, -5, 5)), sc), True
    return (mat_mul([[sc, 0, 0], [0, sc, 0], [0, 0, sc]], rotation(rng)), mul(sc, vec(rng, -5, 5)), sc), s["k"] != "sphere"


def gen(c):
    rng = c.rng
    out = []
    for _ in range(c.n(900, 12000)):
        s = lattice_shape(rng)
        P, uvok = pose(rng, s)
        out.append(hits_case(rng, s, P, 20, uvok=uvok))
        if s["k"] == "box" and rng.random() < 0.5:     # any two opposite corners will do
            out[-1]["shape"]["a"], out[-1]["shape"]["b"] = out[-1]["shape"]["b"], out[-1]["shape"]["a"]
    out += [grazing(rng) for _ in range(c.n(300, 3000))]
    out += [exact(rng) for _ in range(c.n(250, 3000))]
    return out


def grazing(rng):
    """rays almost within the plane of a flat shape"""
    while True:
        ax = rng.sample(range(3), 3)
        U = lambda a, k: [k if i == a else 0 for i in range(3)]
        k = rng.choice(["quad", "quad", "tri", "box"])
        q, a, b = lat(rng, -2, 2), rng.choice([1, 2, 3, -2]), rng.choice([2, 3, -1, -2])
        u, v = U(ax[0], a), U(ax[1], b)
        s = {"quad": {"k": k, "q": q, "u": u, "v": v}, "tri": {"k": k, "a": q, "b": add(q, u), "c": add(q, v), "uv": [[0, 0], [4, 0], [0, 8]]},
             "box": {"k": k, "a": q, "b": [x + 2 for x in q]}}[k]
        P, uvok = pose(rng, s)
        case = hits_case(rng, s, P, 0, uvok=uvok)
        M, T, sc = P
        for _ in range(12):
            # from far out, a little above or below
            e = rng.choice([0, 1])
            steep = rng.choice([30, 300, 900, 1400])
            d = U(ax[2], rng.choice([1, -1]))
            d[ax[e]] = rng.choice([1, -1]) * rng.randint(steep // 2, steep)
            d[ax[1 - e]] = rng.randint(-1, 1)
            o = sub(add(q, U(ax[e], rng.randint(-1, 2))), d)
            if k == "box":
                o[ax[2]] += rng.choice([0, 1, 2])
            o[ax[1 - e]] += rng.randint(0, 1)
            lo, hi, iv = lattice_interval(rng) if rng.random() < 0.4 else (1000, FAR, [0.001, "inf"])
            iv = [x if isinstance(x, str) else x / case["ds"] for x in iv]
            case["rays"].append({"o": add(mat_vec(M, o), T), "d": mul(case["ds"], mat_vec(M, d)), "iv": iv, "lo": o, "ld": d, "a": lo, "b": hi})
        return case


def exact(rng):
    """axis aligned shapes of power of two sizes, rays along an axis through lattice points: no rounding"""
    ax = [0, 1, 2]
    rng.shuffle(ax)
    U = lambda a, k: [k if i == a else 0 for i in range(3)]
    k = rng.choice(["quad", "tri", "sphere"])
    q = lat(rng, -3, 3)
    a, b = rng.choice([1, 2, 4, -1, -2]), rng.choice([1, 2, 4, -2])
    u, v = U(ax[0], a), U(ax[1], b)
    s = {"quad": {"k": k, "q": q, "u": u, "v": v}, "tri": {"k": k, "a": q, "b": add(q, u), "c": add(q, v), "uv": [[0, 0], [4, 0], [0, 8]]},
         "sphere": {"k": k, "c": q, "r": rng.choice([1, 2, 3])}}[k]
    case = hits_case(rng, s, (IDENT, [0, 0, 0], 1), 0, ds=1)
    case["exact"] = True
    for _ in range(16):
        d = U(ax[2], rng.choice([1, -1, 2, -2]))
        p = list(q)
        if k != "sphere":
            p[ax[0]] += rng.choice([0, a, rng.randint(min(0, a) - 1, max(0, a) + 1)])
            p[ax[1]] += rng.choice([0, b, rng.randint(min(0, b) - 1, max(0, b) + 1)])
        o = sub(p, mul(rng.randint(-4, 4), d))
        t = [(s["c"][ax[2]] + w * s["r"] - o[ax[2]]) / d[ax[2]] for w in (1, -1)] if k == "sphere" else [(q[ax[2]] - o[ax[2]]) / d[ax[2]]]
        t = rng.choice(t)
        lo, hi = rng.choice([(t, FAR), (-FAR, t), (t, t), (t - 1, t), (t, t + 1), (t + .5, FAR), (-FAR, t - .5), (t - 5, t + 5)])
        iv = ["-inf" if lo == -FAR else lo, "inf" if hi == FAR else hi]
        e6 = lambda x: int(x) if abs(x) == FAR else int(x * 1000000)
        case["rays"].append({"o": o, "d": d, "iv": iv, "lo": o, "ld": d, "a": e6(lo), "b": e6(hi)})
    return case


def cls(e):
    if e["ev"] != "hit":
        return e["ev"]
    if max(abs(x) for x in e["d"]) > 9:
        return "%s %s grazing" % (e["s"]["k"], "hit" if e["got"] else "miss")
    if e["exact"]:
        return "%s %s exact" % (e["s"]["k"], "hit" if e["got"] else "miss")
    return "%s %s" % (e["s"]["k"], "miss" if not e["got"] else "front" if e["front"] else "back")


def corrupt(evs):
    out, n = [], {}
    for e in evs:
        if e["ev"] != "hit" or not e["got"] or abs(e["t"]) > 100000000 or max(abs(x) for x in e["d"]) > 9:
            continue
        k = cls(e)
        n[k] = n.get(k, 0) + 1
        if n[k] > 12:
            continue
        x = copy.deepcopy(e); x["t"] += 2000; out.append((x, "no-such-crossing"))
        x = copy.deepcopy(e); x["p"][n[k] % 3] += 100; out.append((x, None))
        x = copy.deepcopy(e); x["n"] = mul(-1, x["n"]); out.append((x, "normal"))
        if e["uvok"] and e["s"]["k"] in ("quad", "tri"):
            x = copy.deepcopy(e); x["uv"][n[k] % 2] += 30; out.append((x, "texture-coordinates"))
        if e["uvok"] and e["s"]["k"] == "sphere":
            x = copy.deepcopy(e); x["cv"] += 60; out.append((x, "texture-coordinates"))
    return out


def missed(evs):
    """hits well inside, forgotten"""
    return [(dict(e, got=False), "missed-hit") for e in evs if e["ev"] == "hit" and e["got"] and e["s"]["k"] == "quad"
            and all(20000 < x < 980000 for x in e["uv"]) and e["lo"] + 9000 < e["t"] < e["hi"] - 9000][:40]


def run(c):
    exe = c.build()
    c.model("MC_Geometry", c.n("MC_Geometry.cfg", "MC_Geometry_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Geometry", evs, cases, cls, ["%s %s" % (k, x) for k in ("sphere", "quad", "tri", "box") for x in ("miss", "front", "back")]
            + ["%s %s grazing" % (k, x) for k in ("quad", "tri", "box") for x in ("hit", "miss")]
            + ["%s %s exact" % (k, x) for k in ("sphere", "quad", "tri") for x in ("hit", "miss")])
    if not c.violations:
        c.negatives("T_Geometry", corrupt(evs) + missed(evs))
    c.assumptions += ["a crossing on the very edge of a shape, or at the very end of the interval, may or may not be reported"]
    return c.finish("rays and shapes on the integer lattice, their crossings computed exactly by TLC; the real code sees them as they are and in random poses")
