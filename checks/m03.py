"""M03: mirrors and glass."""
import copy
from gen import *
from itertools import permutations, product

NORMALS = [(n, h) for base, h in (((1, 0, 0), 1), ((1, 2, 2), 3), ((2, 3, 6), 7), ((3, 4, 0), 5))
           for p in set(permutations(base)) for n in {tuple(a * s for a, s in zip(p, sg)) for sg in product((1, -1), repeat=3)}]
INDICES = [[3, 2], [4, 3], [1, 1], [5, 2], [6, 5], [2, 3], [9, 4]]
# two lattice vectors with cross product k * N, k > 0
SPAN = {}


def span(N):
    N = tuple(N)
    if N not in SPAN:
        best = None
        perp = [u for u in product(range(-4, 5), repeat=3) if any(u) and dot(u, N) == 0]
        perp.sort(key=lambda u: dot(u, u))
        for a in perp:
            for b in perp:
                c = cross(a, b)
                if dot(c, N) > 0 and any(c):
                    best = (list(a), list(b))
                    break
            if best:
                break
        SPAN[N] = best
    return SPAN[N]


def image(rng):
    px = [[rng.randrange(256) for _ in range(3)] for _ in range(16)]
    return {"img": {"w": 4, "h": 4, "px": px}}


def texel(img, i, j):
    """colour (10^6) in column i, row j from the top, and the coordinates of its middle"""
    return [round(b / 255 * 1e6) for b in img["img"]["px"][4 * j + i]], [(i + 0.5) / 4, 1 - (j + 0.5) / 4]


def pose(rng):
    if rng.random() < 0.4:
        return IDENT, [0, 0, 0], 1
    sc = rng.choice([1, 0.37, 5.0])
    return [mul(sc, r) for r in rotation(rng)], vec(rng, -3, 3), sc


def bend(v, N, h, front, ior):
    r = ior[::-1] if front else ior
    s = dot(v, v) * h * h - dot(v, N) ** 2
    return s * r[0] ** 2 - dot(v, v) * h * h * r[1] ** 2


def case(rng, what, total, shape):
    while True:
        N, h = rng.choice(NORMALS)
        N = list(N)
        v = mul(-1, N) if rng.random() < 0.1 else lat(rng, -4, 4)
        if dot(v, N) >= 0:
            continue
        front = rng.random() < 0.5
        ior = rng.choice(INDICES)
        if bend(v, N, h, front, ior) != 0:
            break
    P = pose(rng)
    tex = image(rng)
    i, j = rng.randrange(4), rng.randrange(4)
    want, uv = texel(tex, i, j)
    fuzz = rng.choice([0, 0, 0.1, 0.5, 1.0]) if what == "metal" else 0
    mat = {"k": "metal", "c": tex, "fuzz": fuzz} if what == "metal" else {"k": "glass", "c": tex, "ior": ior[0] / ior[1]}
    c = {"cmd": "optics", "ev": what, "mat": mat, "v": v, "n": N, "h": h, "front": front, "ior": ior, "M": [x for r in P[0] for x in r], "T": P[1], "scale": P[2],
         "hp": lat(rng, -3, 3), "ds": rng.choice([1, 1, 0.001, 0.3, 40, 1000]), "t": rng.choice([1, 0.5, 3]), "uv": uv, "fuzz": fuzz, "want": want, "m": 3,
         "total": 200 if what == "metal" and fuzz == 0 else total, "seed": rng.randrange(10**9)}
    if shape:
        # a quad around the hit point, seen from its front or back
        a, b = span(N if front else mul(-1, N))
        s, t = uv
        q = sub(sub(mul(8, c["hp"]), mul(8 * s, a)), mul(8 * t, b))
        pt = lambda p: add(mat_vec(P[0], mul(0.125, p)), P[1])
        c["shape"] = {"k": "quad", "q": pt(q), "u": mat_vec(P[0], a), "v": mat_vec(P[0], b), "m": mat}
        c["ds"], c["t"] = rng.choice([0.3, 1, 20]), rng.choice([1, 3])
    return c


def gen(c):
    out = []
    for i in range(c.n(600, 6000)):
        out.append(case(c.rng, "glass", c.n(40000, 200000), i % 2 == 1))
    for i in range(c.n(300, 3000)):
        out.append(case(c.rng, "metal", c.n(40000, 200000), i % 2 == 1))
    return out


def run(c):
    exe = c.build()
    c.model("MC_Optics", c.n("MC_Optics.cfg", "MC_Optics_thorough.cfg"))
    c.model("MC_Optics", "MC_Optics_swapped.cfg", violated="NoTotalIntoDenser")
    cases = gen(c)
    evs = c.record(cases, exe)
    def cls(e):
        if e["ev"] == "metal":
            return "mirror" if e["sharp"] else "fuzzy"
        if e["ev"] != "glass":
            return e["ev"]
        return "%s %s" % ("front" if e["front"] else "back", "total" if bend(e["v"], e["n"], e["h"], e["front"], e["ior"]) > 0 else "both" if len(e["dirs"]) == 2 else "one")
    c.judge("T_Optics", evs, cases, cls, ["mirror", "fuzzy", "front both", "back both", "back total", "front total"])
    if not c.violations:
        neg = []
        for e in evs:
            common = [(dict(e, elsewhere=1), "start"), (dict(e, colors=[[x ^ 64 for x in e["want"]]]), "colour"), (dict(e, notbasic=1), "scatter-kind")]
            neg += common if len(neg) < 300 else []
            if e["ev"] == "glass":
                k = cls(e)
                if "both" in k or "total" in k:
                    x = copy.deepcopy(e); x["dirs"][-1][0][0] += 60; neg.append((x, None))
                if "both" in k and e["ior"] != [1, 1] and any(cross(e["v"], e["n"])):
                    neg.append((dict(e, front=not e["front"]), None))
                    x = copy.deepcopy(e)
                    n = min(d[1] for d in x["dirs"]) // 2 + 100
                    i = max(range(2), key=lambda i: x["dirs"][i][1])
                    x["dirs"][i][1] -= n * 2; x["dirs"][1 - i][1] += n * 2
                    if n > 700:
                        neg.append((x, "reflectance"))
            elif e["sharp"]:
                x = copy.deepcopy(e); x["dirs"][0][0][1] += 40; neg.append((x, "mirror"))
            else:
                neg.append((dict(e, bad=1), "fuzz"))
                x = copy.deepcopy(e); s = x["counts"]; k = s[-1] // 2; s[-1] -= k; s[-2] += k; neg.append((x, "fuzz-distribution"))
        c.negatives("T_Optics", neg[:1500])
    c.assumptions += ["the normal of a hit faces the ray", "directions exactly at the critical angle are not used", "reflectance and fuzz are judged by counts, six standard deviations, fixed seeds"]
    return c.finish("lattice directions on Pythagorean normals in random poses; mirror and refracted directions exact, reflectance by counts")
