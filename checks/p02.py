"""P02: bloom."""
import copy, math
from gen import *


def fraction(rng, r, w):
    """a fraction of the width w whose kernel has radius r, clear of rounding"""
    w_ = rng.uniform(0.2, 0.8)
    if r + w_ > 0.5 * w:
        w_ = 0.0 if 2 * r == w else max(0.0, 0.5 * w - r) / 2
    k = (r + w_) / w
    return min(0.5, k)


def gen(c):
    rng, out = c.rng, []
    shapes = [(1, 1), (1, 7), (7, 1), (2, 2), (3, 5), (5, 3), (8, 8), (9, 4), (4, 12), (16, 2), (13, 11), (24, 3), (3, 24)]
    def case(w, h, px, r, frac, thr2, half, mx, k, n=None, unit=None):
        n = n or rng.choice([1, 2, 3, 7, 10, 100, 1023, 65536, 10 ** 6])
        unit = unit or rng.choice([1, 1 / 64, 1 / 512, 4])
        thr = None
        if thr2 is not None:
            thr = math.sqrt(thr2 + (0.5 if half else 0)) * unit
        m = None if mx < 0 else mx * unit
        b = {"k": frac, "thr": thr, "max": m}
        out.append({"cmd": "bloom", "w": w, "h": h, "n": n, "unit": unit, "px": px, "r": r, "bloom": b, "thr2": thr2 if thr2 is not None else 3, "half": half, "max": mx, "_k": k})
    def radius(w):
        r = rng.choice([0, 1, 1, 2, 3, 4, w // 2, w // 3])
        return min(r, w // 2 if w % 2 == 0 else (w - 1) // 2)
    black = [0, 0, 0]
    for i in range(c.n(150, 3000)):
        w, h = rng.choice(shapes) if rng.random() < 0.7 else (rng.randint(1, 14), rng.randint(1, 10))
        r = radius(w)
        frac = fraction(rng, r, w)
        if int(frac * w) != r:
            continue
        k = rng.choice(["impulse", "impulse", "random", "random", "limit", "threshold", "random", "uniform", "dark", "default", "equal", "half"])
        px = [list(black) for _ in range(w * h)]
        at = rng.randrange(w * h)
        if k == "impulse":
            px[at] = [rng.randint(0, 500), rng.randint(0, 500), rng.randint(100, 500)]
            case(w, h, px, r, frac, 50, True, -1, k)
        elif k in ("random", "half"):
            px = [[rng.randint(0, 300) if rng.random() < 0.5 else rng.randint(0, 30) for _ in range(3)] for _ in range(w * h)]
            if k == "half":                # the widest kernel there is
                r = w // 2
                frac = 0.5
            case(w, h, px, r, frac, rng.choice([0, 400, 20000, 90000]), True, rng.choice([-1, 100, 350]), k)
        elif k == "limit":
            px = [[rng.randint(0, 500) for _ in range(3)] if rng.random() < 0.3 else [rng.randint(0, 20) for _ in range(3)] for _ in range(w * h)]
            case(w, h, px, r, frac, 1000, True, rng.choice([1, 30, 200, 577]), k)
        elif k == "threshold":           # brightness just at, above or below the threshold
            t = rng.randint(5, 300)
            px = [rng.choice([[t, 0, 0], [0, t + 1, 0], [0, 0, t - 1], [t // 2, t // 2, t // 2], [t - 1, t // 3, 0]]) for _ in range(w * h)]
            case(w, h, px, r, frac, t * t, True, -1, k)
        elif k == "equal":               # exactly at it
            t = rng.randint(5, 300)
            px = [rng.choice([[t, 0, 0], [0, 0, t - 1], [0, t, 0]]) for _ in range(w * h)]
            case(w, h, px, r, frac, t * t, False, -1, k, n=2 ** rng.randint(0, 12))
        elif k == "uniform":
            px = [[200, 100, 50]] * (w * h)
            case(w, h, px, r, frac, 0, True, rng.choice([-1, 90]), k)
        elif k == "dark":
            px = [[rng.randint(0, 50) for _ in range(3)] for _ in range(w * h)]
            case(w, h, px, r, frac, 3 * 2500, True, -1, k)
        else:                              # nothing but the fraction is given: threshold white
            px = [rng.choice([[1, 1, 0], [2, 0, 0], [0, 1, 1], [5, 3, 1], [1, 0, 0], [0, 40, 3]]) for _ in range(w * h)]
            case(w, h, px, r, frac, None, False, -1, k, unit=1)
    for i in range(c.n(3, 60)):            # wide kernels
        w = rng.randint(40, 90)
        r = rng.randint(10, 20)
        px = [list(black) for _ in range(w * 2)]
        for _ in range(6):
            px[rng.randrange(2 * w)] = [rng.randint(0, 500) for _ in range(3)]
        case(w, 2, px, r, (r + 0.5) / w, 900, True, -1, "wide")
    for r in c.n((65, 130, 300), (65, 130, 131, 200, 260, 300)):            # the widest
        w = 2 * r + rng.choice([0, 1, 40])
        px = [list(black) for _ in range(w)]
        at, ch = rng.randrange(1, w - 41), rng.randrange(3)
        for i in range(at, at + 40):
            px[i][ch] = rng.randint(300, 500)
        case(w, 1, px, r, 0.5 if w // 2 == r else (r + 0.5) / w, 900, True, -1, "widest")
    return out


def run(c):
    exe = c.build()
    c.model("MC_Post", c.n("MC_Post.cfg", "MC_Post_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    def cls(e):
        return cases[e["case"]]["_k"]
    c.judge("T_Post", evs, cases, cls, ["impulse", "random", "limit", "threshold", "uniform", "dark", "default", "equal", "half", "wide", "widest"])
    if not c.violations:
        neg = []
        for e in evs:
            if e["r"] > 8 or len(neg) > c.n(60, 900):
                continue
            k = cases[e["case"]]["_k"]
            x = copy.deepcopy(e); i = c.rng.randrange(len(x["out"])); j = c.rng.randrange(3); x["out"][i][j] += 60
            neg.append((x, "bloom"))
            if k == "impulse" and e["r"] and len(e["px"]) > 3:
                neg.append((dict(e, out=e["out"][1:] + e["out"][:1]), "bloom"))
                neg.append((dict(e, r=e["r"] + 1), "bloom"))
            if k == "limit" and any(sum(y * y for y in p) > max(1000, e["max"] ** 2) for p in e["px"]):
                neg.append((dict(e, max=-1), "bloom"))
            neg.append((dict(e, bytes=False), "image-is-not-the-processed-colours"))
        c.negatives("T_Post", neg)
    c.assumptions += ["brightness is the length of the colour vector; glow is judged to about 10^-5 of the brightest colour",
                      "kernel radius is the whole part of fraction times width (fractions next to a whole number are avoided)"]
    return c.finish("impulses, random images, thresholds, limits, uniform and dark images, kernels up to half the width, in images of all shapes, for many numbers of samples; glow recomputed with a fixed point Gaussian by TLC")
