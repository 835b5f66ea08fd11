"""C01: the camera."""
import copy, math
from gen import *
from checks.t03 import frame

TANS = [(1, 1), (1, 2), (2, 1), (3, 4), (1, 3), (4, 1), (1, 10), (5, 12), (1, 40), (3, 2)]


def view(rng):
    e = rng.choice([0, 1, 2, 4, 8])
    w = rng.random()
    if w < 0.15:
        return [rng.choice([0, 2 ** e]), e]
    if w < 0.25 and e >= 1:
        return [2 ** (e - 1), e]
    if w < 0.35:                          # a little beyond the view
        return [rng.choice([-1, 2 ** e + 1]), e]
    return [rng.randint(0, 2 ** e), e]


def gen(c):
    rng, out = c.rng, []
    for i in range(c.n(1500, 20000)):
        while True:
            (T, B, N), nd = frame(rng)
            prim = lambda x: mul(1, [y // math.gcd(math.gcd(x[0], x[1]), x[2]) for y in x])
            T, B, N = prim(T), prim(B), prim(N)
            nd = math.isqrt(dot(N, N))
            if dot(N, N) * 4 * dot(B, B) < 40000 ** 2 // dot(N, N):
                break
        if dot(cross(T, B), N) < 0:
            T = mul(-1, T)
        tan = rng.choice(TANS)
        fov = math.degrees(2 * math.atan2(tan[0], tan[1]))
        w, h = rng.choice([(1, 1), (2, 1), (1, 3), (800, 400), (400, 800), (640, 480), (1920, 1080), (3, 40), (64, 9), (1000, 1000), (1, 10)])
        D = 10 ** rng.uniform(-2, 3)
        at = mul(D, vec(rng, -3, 3)) if rng.random() < 0.8 else [0, 0, 0]
        frm = add(at, mul(D / nd, N))
        a, s = rng.choice([(1, 0), (1, 1), (2, -1), (1, 3), (1, -4)])
        up = add(mul(a, B), mul(s, N))
        up = prim(up)
        stats = i % c.n(12, 12) == 0
        ap = rng.choice([0, 0, 0, 0.1, 1, 0.001, 5]) * D if not stats else rng.choice([0.1, 1, 0.003, 4]) * D
        k = ("lens statistics" if stats else "lens" if ap > 0 else "pinhole") + (" leaning" if s else "")
        upf = mul(rng.choice([1, 1, 0.01, 100]), up)
        out.append({"cmd": "camera", "cam": {"fov": fov, "ap": ap, "from": frm, "at": at, "up": upf}, "w": w, "h": h, "u": view(rng), "v": view(rng),
                    "back": N, "up": up, "tan": list(tan), "total": c.n(40000, 200000) if stats else rng.choice([1, 3, 20]) if ap == 0 else 20, "m": 10 if stats else 1,
                    "seed": rng.randrange(10 ** 9), "_k": k})
    # what a configuration leaves to the defaults: up is +y, 50 degrees, no lens, the origin
    for i in range(c.n(120, 1500)):
        g = rng.choice([[3, 12, 4], [0, 3, 4], [0, 0, 1], [9, 8, 12], [4, -3, 0], [-3, -12, 4], [0, -4, 3], [12, 8, -9]])
        which = rng.choice(["up", "up", "fov", "ap", "from", "at", "all"])
        left = {which} if which != "all" else {"up", "fov", "ap", rng.choice(["from", "at"])}
        D = 10 ** rng.uniform(-1, 2)
        nd = math.isqrt(dot(g, g))
        v = mul(D / nd, g)
        at = mul(-1, v) if "from" in left else [0, 0, 0] if "at" in left else vec(rng, -3, 3)
        tan = (4663, 10000) if "fov" in left else rng.choice([(1, 1), (3, 4)])
        w, h = rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (4, 3)])
        cam = {"from": add(at, v), "at": at, "up": mul(rng.choice([1, 3]), [0, 1, 0]), "fov": math.degrees(2 * math.atan2(tan[0], tan[1])), "ap": 0 if "ap" in left or rng.random() < 0.5 else 0.1 * D}
        lens = cam["ap"] > 0
        out.append({"cmd": "camera", "cam": {k: x for k, x in cam.items() if k not in left}, "w": w, "h": h, "u": view(rng), "v": view(rng), "back": g, "up": [0, 1, 0],
                    "tan": list(tan), "total": 20 if lens else 3, "m": 1, "seed": rng.randrange(10 ** 9), "_k": "default " + which})
    return out


def run(c):
    exe = c.build()
    c.model("MC_Camera", c.n("MC_Camera.cfg", "MC_Camera_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Camera", evs, cases, lambda e: cases[e["case"]]["_k"] if e["ev"] == "camera" else e["ev"], [k + l for k in ("pinhole", "lens", "lens statistics") for l in ("", " leaning")] + ["default " + x for x in ("up", "fov", "ap", "from", "at", "all")])
    if not c.violations:
        neg = []
        for e in evs[::3]:
            x = copy.deepcopy(e); i = c.rng.randrange(3); x["focus"][i] += 15 + abs(x["focus"][i]) // 200 + sum(abs(y) for y in x["focus"]) // 5000; neg.append((x, "focus-point"))
            if sum(abs(y) for y in e["focus"]) > 1000:
                neg.append((dict(e, up=mul(-1, e["up"])), "focus-point"))
            neg.append((dict(e, forward=False), "backwards")); neg.append((dict(e, spread=400), "out-of-focus")); neg.append((dict(e, offplane=10), "not-in-the-lens-plane"))
            if e["lens"]:
                neg.append((dict(e, outside=1), "lens"))
                if e["m"] == 10:
                    x = copy.deepcopy(e); k = x["counts"][0] // 2 + 60; x["counts"][0] += k; x["counts"][79] -= k; neg.append((x, "lens"))
            else:
                neg.append((dict(e, same=False), "starts-elsewhere"))
        c.negatives("T_Camera", neg)
    c.assumptions += ["the lens is sampled with fixed seeds and judged with six standard deviations"]
    return c.finish("cameras in rational frames with leaning and stretched up vectors, openings of rational tangents, image shapes from 1:10 to 64:9, view coordinates in and a little beyond the view; focus point, lens plane, distribution over the lens")
