"""M05: random helpers."""
import copy
from gen import *


def gen(c):
    rng, out = c.rng, []
    N = c.n(2000000, 4000000)
    def d(fun, what, m, **k):
        out.append(dict({"cmd": "dist", "fun": fun, "what": what, "m": m, "total": N, "seed": rng.randrange(10**9)}, **k))
    for rep in range(c.n(1, 4)):
        d("normal", "float", 64)
        for lo, hi in ((-1, 1), (0, 1), (-2, 5), (3, 3.5), (-1e6, 1e6), (0, 1e-6)):
            d("float", "float", 20, min=lo, max=hi)
        for k in (1, 2, 3, 5, 8, 17, 100):
            d("uint", "index", k, k=k)
            d("index", "index", k, k=k)
        for k in (2**32 - 1, 3 * 10**9, 2**31 + 1, 10**9, 70000):
            d("uintbig", "float", 20, k=k)
        for k in (300, 1000, 5000, 70000, 200000):     # lists of which every element must have its turn
            d("indexbig", "float", 100, k=k)
        d("vec3", "cube", 4, min=-1, max=1); d("vec3", "cube", 3, min=0.5, max=7)
        d("ball", "ball", 5); d("disc", "disc", 10)
        d("unit", "unit", 16); d("spherepdf", "unit", 16)
        d("cosdir", "cosine", 12)
        for _ in range(c.n(8, 20)):
            w = nonzero(rng, lambda: lat(rng, -4, 4)) if rng.random() < 0.6 else vec(rng, -1, 1)
            d("cosine", "cosine", 10, w=mul(rng.choice([1, 1, 100, 0.01]), w))
    for fun in ("normal", "uint", "index", "unit", "spherepdf", "cosdir", "cosine", "ball", "disc"):
        for strew in (True, False):
            out.append({"cmd": "range", "fun": fun, "k": 7, "w": [1, 2, 2], "total": 200000, "seed": rng.randrange(1, 10**9), "strew": strew})
    for lo, hi in ((0, 1), (-1, 1), (1, 2), (1000, 1001), (1e15, 1e15 + 1), (-1, -0.5), (-1e9, -1e9 + 0.001), (0.1, 0.1 + 1e-15), (0, 1e-300), (-1e-3, 1e-3)):
        for fun in ("float", "vec3"):
            out.append({"cmd": "range", "fun": fun, "min": lo, "max": hi, "total": 100000, "seed": rng.randrange(1, 10**9)})
    for _ in range(c.n(300, 4000)):
        out.append({"cmd": "cosval", "w": nonzero(rng, lambda: lat(rng, -3, 3)), "e": rng.choice([0, 0, 10, -10]), "ds": rng.choice([1, 1, 30, 0.01]),
                    "dirs": [nonzero(rng, lambda: lat(rng, -5, 5)) for _ in range(8)]})
    return out


def run(c):
    exe = c.build()
    c.model("MC_Sampling", c.n("MC_Sampling.cfg", "MC_Sampling_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    cls = lambda e: e["ev"] + " " + e["fun"] if "fun" in e else "cos above" if e["ev"] == "cos" and e["got"] else e["ev"]
    c.judge("T_Sampling", evs, cases, cls, ["dist " + k for k in "normal float uint uintbig index indexbig vec3 ball disc unit spherepdf cosdir cosine".split()] + ["range float", "cos", "cos above"])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] == "dist" and len(e["counts"]) > 1:
                for i in {0, (len(e["counts"]) - 1) // 2}:
                    x = copy.deepcopy(e)
                    k = int(e["total"] / len(e["counts"]) * 0.12) + 60   # a shift of some percent
                    x["counts"][i] -= k; x["counts"][-1] += k
                    neg.append((x, "distribution"))
                neg.append((dict(e, bad=1), "out-of-range"))
                if e["what"] in ("disc", "cosine"):
                    x = copy.deepcopy(e); x["what"] = "unit"; neg.append((x, "distribution"))
            elif e["ev"] == "cos" and e["got"] > 3000 and len(neg) < 300:
                neg.append((dict(e, got=e["got"] * 101 // 100 + 30), "cosine-density"))
                neg.append((dict(e, got=0), "cosine-density"))
        c.negatives("T_Sampling", neg)
    c.assumptions += ["distributions are judged by counts per bin, %d samples each, six standard deviations, fixed seeds" % (2000000)]
    return c.finish("samples counted per bin of exactly known probability; the extreme draws of the generator are strewn in")
