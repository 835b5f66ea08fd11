"""R06: post processors are applied in order, to the image only."""
from checks.r02 import level, colour

U = 65536.0
PLANES = [[7, 0, 24], [-7, 0, 24], [0, 7, 24], [0, -7, 24], [0, 0, 25]]


def case(rng, w, h, n, S, links, **kw):
    chan = rng.choice([1, 2, 3])
    cols = [[colour(p, s, S, k) if k == chan else 0 for k in (1, 2, 3)] for p in range(w * h) for s in range(S)]
    links = [(list(l) + [0])[:4] for l in links]
    chain = [{"k": (l[3] + 0.5 * (l[3] > 0)) / w, "thr": (l[1] + 0.501) / U, "max": l[2] / U} if l[0] == "bloom" else l[0] for l in links]
    c = {"cmd": "image", "kind": "chain", "w": w, "h": h, "n": n, "S": S, "dir": "u", "strat": "every",
         "threads": rng.choice([1, 2, 4]), "colors": cols, "subs": [rng.randrange(S) for _ in range(n)] if S > 1 else None,
         "adv": "none", "seed": 1, "chan": chan, "links": links, "chain": chain, "limit_ms": 60000, "risky": True,
         "bg": [0, 0, 0], "behind": [0, 0, 0], "miss": [], "plane": None, "colored": True}
    c.update(kw)
    if c["S"] > 1:
        c["adv"] = rng.choice(["none", "late", "straggler"])
    return c


def behind(rng, c):
    """some cells are missing: a plane or the background shows"""
    n = c["w"] * c["h"] * c["S"]
    c["miss"] = [i for i in range(n) if rng.random() < 0.3]
    c["behind"] = [rng.randint(0, 60000) for _ in range(3)]
    if any(l[0] == "bloom" for l in c["links"]):     # one channel only
        k = c["chan"] - 1
        c["behind"] = [x if i == k else 0 for i, x in enumerate(c["behind"])]
    if rng.random() < 0.6:
        c["plane"] = rng.choice(PLANES)
    else:
        c["bg"] = [x / U for x in c["behind"]]
    return c


def link(rng):
    if rng.random() < 0.35:
        return ["nop", 0, 0]
    return ["bloom", rng.choice([0, 500, 2000, 8000, 20000, 40000, 65000]), rng.choice([100, 1000, 5000, 30000, 2 * 65536])]


SIZES = [(1, 1), (2, 2), (3, 2), (2, 3), (4, 4), (4, 3), (5, 4)]


def gen_chain(c, exts=()):
    rng, out = c.rng, []
    for _ in range(c.n(90, 700)):
        w, h = rng.choice(SIZES)
        links = [link(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        for e in exts:
            if rng.random() < 0.5:
                links.insert(rng.randint(0, len(links)), [e, 0, 0])
        n = rng.choice([1, 2, 3, 7, 12])
        x = case(rng, w, h, n, rng.choice([1, 2, 3, 4]), links)
        # the image of report k does not depend on how many images there were before
        x["strat"] = rng.choice(["every", "every", "final", {"interval": 0}])
        out.append(behind(rng, x) if rng.random() < 0.3 else x)
    return out


def gen_glow(c):
    """the last bloom reaches the neighbours, and what it is given may be brighter than can be shown"""
    rng, out = c.rng, []
    for _ in range(c.n(40, 400)):
        w, h = rng.choice([(4, 4), (5, 3), (7, 2), (8, 3), (3, 5), (6, 1)])
        links = [link(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.6:
            links.append(["bloom", rng.choice([500, 20000, 40000]), 2 * 65536])
        links.append(["bloom", rng.choice([2000, 20000, 40000, 65000, 90000]), rng.choice([5000, 65536, 4 * 65536, 8 * 65536]), rng.randint(1, (w - 1) // 2)])
        S = rng.choice([1, 2])
        x = case(rng, w, h, rng.choice([1, 2, 3, 7]), S, links)
        x["gain"] = [rng.choice([0, 1, 1, 3]) for _ in range(S)]
        # few pixels are bright
        dark = [rng.random() < 0.7 for _ in range(w * h)]
        x["colors"] = [[v * x["gain"][i % S] for v in col] for i, col in enumerate(x["colors"])]
        x["miss"] = [i for i in range(w * h * S) if dark[i // S]]
        out.append(x)
    return out


def gen_aux(c):
    rng, out = c.rng, []
    for _ in range(c.n(40, 300)):
        w, h = rng.choice(SIZES)
        links = [link(rng) for _ in range(rng.choice([0, 0, 1, 2]))] + [["oidn", 0, 0]]
        n = rng.choice([1, 2, 3, 7, 12])
        x = case(rng, w, h, n, rng.choice([1, 2, 3]), links, denoised=True, rotate=rng.choice([0, 1, 2]), threads=rng.choice([1, 2, 4, 8]),
                 strat=rng.choice(["every", "final", {"interval": 0}]))
        out.append(behind(rng, x))
    # surfaces that scatter
    for m in ("lamb", "metal", "glass"):
        for sh in ("albedo", "path"):
            for _ in range(c.n(2, 12)):
                w, h = rng.choice(SIZES)
                x = case(rng, w, h, rng.choice([1, 3, 9]), 1, [["oidn", 0, 0]], denoised=True, cellmat=m,
                         shader="albedo" if sh == "albedo" else {"path": 3}, colored=sh == "albedo")
                out.append(behind(rng, x))
    return out


def corrupt(evs):
    out = []
    for e in evs:
        if e["ev"] == "image" and e["kind"] == "chain" and len(out) < 60:
            lit = [i for i, v in enumerate(e["px"]) if 0 < v < 255]
            if lit:
                i = lit[len(out) % len(lit)]
                y = list(e["px"])
                y[i] += 1
                out.append((dict(e, px=y), "not-the-chain-applied-to-the-sums"))
        if e["ev"] == "aux" and len(out) < 120:
            for b, cl in (("albedo", "albedo"), ("normal", "normal"), ("color", "colour")):
                if b == "color" and not e["colored"]:
                    continue
                # a sample less or more
                i = next((i for i, v in enumerate(e[b]) if 2000 < v < 60000 * e["k"]), None)
                if i is not None:
                    y = list(e[b])
                    y[i] += 400 if len(out) % 2 else -400
                    out.append((dict(e, **{b: y}), cl))
            out.append((dict(e, told=[True, True]), "wrong-range"))
            if e["w"] != e["h"]:
                out.append((dict(e, dims=[e["h"], e["w"]]), "wrong-dimensions"))
    return out


def chain_class(e):
    if e["ev"] != "image":
        return e["ev"]
    n = len(e["chain"])
    if n and e["chain"][-1][3]:
        return "glow" + (" of what is too bright" if n > 1 else "")
    b = [l[0] for l in e["chain"]].count("bloom")
    return "chain of %s%s" % ("0" if n == 0 else "1" if n == 1 else "several", ", blooms" if b > 1 else "")


def run(c):
    exe = c.build()
    exo = c.build(oidn=True)
    c.model("MC_Render", "MC_Render_aux.cfg")
    c.model("MC_Render", "MC_Render_feedback.cfg", violated="ImageExact")
    cases = gen_chain(c, exts=("oidn",)) + gen_glow(c)          # without the denoiser it leaves images alone
    evs = c.record(cases, exe)
    c.judge("T_Image", evs, cases, chain_class, ("chain of 0", "chain of 1", "chain of several", "chain of several, blooms", "glow", "glow of what is too bright"))
    acases = gen_chain(c)[:30] + gen_aux(c)
    aevs = c.record(acases, exo)
    c.judge("T_Image", aevs, acases, lambda e: e["ev"] + (" behind" if e["ev"] == "aux" and e["miss"] else ""), ("aux", "aux behind", "image"))
    if not c.violations:
        c.negatives("T_Image", corrupt(evs) + corrupt(aevs))
    c.assumptions += ["the auxiliary buffers are seen through a stand-in of the denoiser library, behind the library's own gamma correction (negative components cannot be seen)"]
    return c.finish("chains of extentless blooms and no-ops have an exact integer oracle; every image of every report is recomputed by TLC "
                    "from the sums of the samples; a stand-in denoiser records the albedo and normal buffers")
