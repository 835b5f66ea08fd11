"""G01: the hierarchy finds exactly the nearest hit."""
import copy, math
from gen import *

AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def normed(v): return mul(1 / (length(v) or 1), v)


def corner(t): return t["c"] if t["k"] == "sphere" else t["a"] if t["k"] == "tri" else t["q"]


def inside(rng, t):
    """a point of (or in) an object"""
    if t["k"] == "sphere":
        return add(t["c"], mul(rng.uniform(0, t["r"]), normed(vec(rng, -1, 1))))
    if t["k"] == "tri":
        a, b = sorted([rng.random(), rng.random()])
        return add(mul(a, t["a"]), add(mul(b - a, t["b"]), mul(1 - b, t["c"])))
    if t["k"] == "quad" and "u" in t:
        return add(t["q"], add(mul(rng.random(), t["u"]), mul(rng.random(), t["v"])))
    return add(t["q"], vec(rng, -0.7, 0.7))


def rays(rng, n, span, objs):
    out = []
    for _ in range(n):
        k = rng.random()
        o = vec(rng, -2 * span, 2 * span) if k < 0.6 else vec(rng, -span, span)
        if k < 0.15:
            d = list(rng.choice(AX))
            if rng.random() < 0.5:       # signed zeros
                d = [x if x else rng.choice([0, "-0"]) for x in d]
        elif k < 0.25:                   # in a coordinate plane
            d = vec(rng, -1, 1)
            d[rng.randrange(3)] = rng.choice([0, "-0"])
        elif k < 0.7 and objs:           # aimed at an object
            d = sub(inside(rng, rng.choice(objs)), o)
        else:
            d = vec(rng, -1, 1)
        if k > 0.88 and objs:            # at the outermost object in some direction, from the side
            a = rng.randrange(3)
            t = (max if rng.random() < 0.5 else min)(objs, key=lambda t: corner(t)[a])
            d = vec(rng, -1, 1)
            d[a] = rng.choice([0, 0, 0.01, -0.01])
            o = add(inside(rng, t), mul(-rng.uniform(1, 2 * span), d))
        if all(x in (0, "-0") for x in d):
            d = [1, 0, 0]
        if k < 0.25 and objs and rng.random() < 0.7:
            o = add(inside(rng, rng.choice(objs)), mul(-rng.choice([rng.uniform(0, 2 * span), rng.uniform(-1, 1)]), [float(x) for x in d]))
        s = rng.choice([1, 1, 1, 0.01, 37.5])
        d = [x if isinstance(x, str) else x * s for x in d]
        iv = rng.choice([None, None, None, ["-inf", "inf"], [0.001, rng.uniform(0.1, 12)],
                         [rng.uniform(0, 6), "inf"], [-rng.uniform(0, 6), rng.uniform(0, 6)],
                         [-8, -rng.uniform(0, 5)], [0.001, 0.0011]])
        out.append({"o": o, "d": d, "iv": iv})
    return out


def nest(rng, objs, depth=0):
    """groups some of the objects in hierarchies of their own"""
    if depth > 2 or len(objs) < 3:
        return objs
    k = rng.randint(1, len(objs))
    inner = nest(rng, objs[:k], depth + 1)
    return [{"k": "bvh", "items": inner}] + objs[k:]


def far_out(rng, objs, dist):
    """puts a few of them far away from the others"""
    objs = list(objs)
    for i, a in zip(rng.sample(range(len(objs)), 4), rng.sample(AX, 4)):
        t = {"k": "sphere", "c": add(mul(dist, a), vec(rng, -2, 2)), "r": rng.uniform(0.3, 1.5), "m": objs[i]["m"]}
        objs[i] = t
    return objs


def gen_cases(c):
    rng = c.rng
    cases = []

    def case(objs, nr, span=4.0, flat=None):
        cases.append({"cmd": "nearest", "objs": objs, "clone": rng.random() < 0.2, "rays": rays(rng, nr, span, flat or objs)})

    scale = c.n(3, 12)
    case([], 5)
    case([{"k": "bvh", "items": []}], 5, flat=[shape(rng)])
    for n in list(range(1, 13)) * (6 * scale):
        case([shape(rng) for _ in range(n)], 25)
    for n in (16, 17, 31, 33, 40, 64, 65, 100) * (2 * scale):
        objs = [shape(rng, size=1.0) for _ in range(n)]
        case(far_out(rng, objs, 12) if rng.random() < 0.3 else objs, 25)
    for n in (300, 1000) * scale:
        case([shape(rng, span=8, size=0.5) for _ in range(n)], 30, 8.0)
    for n in c.n((2601, 2500, 3001, 5000), (2500, 3001, 5000, 5041, 12000, 20001)):
        case(far_out(rng, [shape(rng, span=12, size=0.4) for _ in range(n)], 30), 25, 12.0)
        # a height field
        w = int(math.sqrt(n))
        h = [[rng.uniform(-0.5, 0.5) for _ in range(w + 1)] for _ in range(w + 1)]
        case([{"k": "tri", "a": [i, h[i][j], j], "b": [i + 1, h[i + 1][j], j], "c": [i, h[i][j + 1], j + 1], "m": lamb([i % 9 / 8, j % 9 / 8, 0])} for i in range(w) for j in range(w)], 12, w / 2)
    # equal centres, collinear centres, duplicates, coplanar quads, everything in one spot
    for _ in range(20 * scale):
        o = vec(rng, -2, 2)
        n = rng.randint(3, 9)
        case([{"k": "sphere", "c": o, "r": rng.uniform(0.1, 2), "m": lamb([i / 10, 0, 0])} for i in range(n)], 20)
        a = rng.randrange(3)
        case([{"k": "sphere", "c": [o[j] + (rng.uniform(-3, 3) if j == a else 0) for j in range(3)],
               "r": rng.uniform(0.1, 0.6), "m": lamb([i / 10, 0, 0])} for i in range(n)], 20)
        s = shape(rng)
        case([s] * n + [shape(rng)], 20)
        case([{"k": "quad", "q": [x, y, 0], "u": [1, 0, 0], "v": [0, 1, 0], "m": lamb([(x + 3) / 8, (y + 3) / 8, 0])}
              for x in range(-2, 2) for y in range(-2, rng.randint(-1, 2))], 20)
        # one long chain of growing boxes: very uneven splits
        case([{"k": "sphere", "c": [1.7 ** i, 0, 0], "r": 0.4 * 1.7 ** i, "m": lamb([i / 16, 0, 0])} for i in range(n + 3)], 20)
    # nested hierarchies
    for _ in range(40 * scale):
        objs = [shape(rng) for _ in range(rng.randint(3, 24))]
        case(nest(rng, list(objs)), 20, flat=objs)
    # boxes (six flat faces each)
    for _ in range(20 * scale):
        bs = []
        for i in range(rng.randint(1, 5)):
            p = vec(rng, -3, 3)
            bs.append({"k": "box", "a": p, "b": add(p, vec(rng, 0.3, 2)), "m": lamb([i / 8, 0, 0]),
                       "tr": rng.choice([None, {"ry": rng.uniform(0, 360)}, [{"rx": 30}, {"rz": 45}]])})
        case(bs, 20, flat=[{"k": "quad", "q": b["a"]} for b in bs])
    return cases


def corrupt(evs):
    out = []
    for e in evs:
        if e["ev"] != "nearest" or not e["robust"]:
            continue
        if e["got"] > 0 and max(e["rank"]) > 1 and len(out) < 20:
            x = copy.deepcopy(e)                      # a farther hit
            far = max(e["rank"])
            x["got"], x["same"] = far, [i + 1 for i, r in enumerate(e["rank"]) if r == far]
            out.append((x, "not-the-nearest"))
            x = copy.deepcopy(e)                      # a missed hit
            x["got"], x["same"] = 0, []
            out.append((x, "not-the-nearest"))
            x = copy.deepcopy(e)                      # a length no member has
            x["got"] = -1
            out.append((x, "hit-not-a-member's"))
            x = copy.deepcopy(e)                      # wrong surface data
            x["same"] = []
            out.append((x, "hit-not-a-member's"))
    return out


def run(c):
    exe = c.build()
    c.model("MC_Bvh", c.n("MC_Bvh.cfg", "MC_Bvh_thorough.cfg"))
    c.model("MC_Bvh", "MC_Bvh_cull.cfg", violated="FindsNearest")
    c.model("MC_Bvh", "MC_Bvh_noshrink.cfg", violated="FindsNearest")
    cases = gen_cases(c)
    evs = c.record(cases, exe)
    c.judge("T_Bvh", evs, cases,
            cls=lambda e: "panic" if e["ev"] != "nearest" else
            ("grazing" if not e["robust"] else "miss" if e["got"] == 0 else "single" if max(e["rank"]) == 1 else "several"),
            need=("miss", "single", "several"))
    c.negatives("T_Bvh", corrupt(evs))
    c.assumptions += ["rays whose hit pattern changes under a 1e-6 displacement are judged for soundness only"]
    return c.finish("every ray is traced through the real hierarchy and through each of its members separately; "
                    "TLC compares the reported hit with the nearest member hit")
