"""P01: colour sums to bytes."""
import copy
from gen import *

CODES = {"nan": 2000000001, "inf": 2000000002, "-inf": 2000000003, "-0": 0, "max": 2000000002}


def value(rng):
    """<<k, f>>: a mean of (k + f/1024)/65536"""
    w = rng.random()
    b = rng.randrange(257)
    if w < 0.4:                          # about a border between two bytes
        k, f = rng.choice([(b * b, 0), (b * b, 1), (b * b - 1, 1023), (b * b, rng.randrange(1, 1024)), (b * b - 1, 500)])
        return (k, f) if k >= 0 else (0, 0)
    if w < 0.7:
        return rng.randrange(65537), rng.randrange(1024)
    if w < 0.8:
        return rng.choice([65404, 65405, 65406, 65535, 65536, 65537, 70000, 10 ** 6, 2 * 10 ** 9]), rng.randrange(1, 1024)
    if w < 0.9:
        return rng.choice([0, 0, 1, 2, 3]), rng.randrange(1024)
    if w < 0.95:
        return rng.choice([-1, -65536, -10 ** 9]), 0
    return rng.choice(["nan", "inf", "-inf", "-0", "max"]), 0


def gen(c):
    rng, out = c.rng, []
    ns = [1, 2, 3, 5, 7, 10, 16, 49, 100, 1000, 1024, 4095, 65537, 10 ** 6, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    def case(n, vals, w, h, k):
        out.append({"cmd": "tone", "n": n, "w": w, "h": h, "k": [[x[0] for x in p] for p in vals], "f": [[x[1] for x in p] for p in vals],
                    "codes": [[CODES.get(x[0], x[0]) for x in p] for p in vals], "_k": k})
    # every border, exactly on it, just below and just above
    for n in ns:
        vals = [[(b * b, 0), (max(0, b * b - 1), 1023), (b * b, 1)] for b in range(1, 257)]
        case(n, vals, 16, 16, "borders")
        case(n, [[(x * 256, 7), (x * 256 + 77, 3), (x * 256 + 200, 9)] for x in range(256)], 32, 8, "sweep")
    for i in range(c.n(250, 4000)):
        w, h = rng.randint(1, 12), rng.randint(1, 12)
        n = rng.choice(ns) if rng.random() < 0.6 else rng.randint(1, 2 ** 32 - 1)
        case(n, [[value(rng) for _ in range(3)] for _ in range(w * h)], w, h, "random")
    return out


def run(c):
    exe = c.build()
    c.model("MC_Post", c.n("MC_Post.cfg", "MC_Post_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Post", evs, cases, lambda e: cases[e["case"]]["_k"], ["borders", "sweep", "random"])
    if not c.violations:
        neg = []
        for e in evs:
            for k, cl in (("rgb", "byte"), ("img", "image-byte")):
                x = copy.deepcopy(e); i = c.rng.randrange(len(x[k])); x[k][i] += 3 if x[k][i] < 128 else -3
                neg.append((x, cl))
            x = copy.deepcopy(e)
            for i in range(len(x["img"]) - 1):
                if abs(x["img"][i] - x["img"][i + 1]) > 2:
                    x["img"][i], x["img"][i + 1] = x["img"][i + 1], x["img"][i]
                    neg.append((x, "image-byte"))
                    break
            ok = [i for i, v in enumerate(sum(e["k"], [])) if 0 <= v < 2000000001]
            if ok:
                x = copy.deepcopy(e); x["fl"][c.rng.choice(ok)] -= 60
                neg.append((x, "float"))
            neg.append((dict(e, same=False), "nop-changes-colours"))
        c.negatives("T_Post", neg[:500])
    c.assumptions += ["means exactly on the border of two bytes may be rounded to the lower one unless the number of samples is a power of two"]
    return c.finish("all 256 borders between bytes (on, just below and just above), sweeps, random sums, zeros, negatives, infinities and not-a-number, for 18 numbers of samples up to 2^32-1 and random ones, converted alone and as images")
