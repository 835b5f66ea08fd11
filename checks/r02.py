"""R02: images are the mean of exactly the completed samples of each pixel."""
import re


def level(i, c):
    return 16 + ((i * (1, 37, 101)[c - 1] + 7 * c) % 230)


def colour(p, s, S, c):
    q = level(p * S + s, c)
    return q * q + 1 if (p + s + c) % 2 == 0 else (q + 1) ** 2 - 1


def case(rng, w, h, n, S=1, d="u", subs=None, **kw):
    c = {"cmd": "image", "kind": "mean", "w": w, "h": h, "n": n, "S": S, "dir": d, "strat": "every", "threads": rng.choice([1, 2, 3, 4, 8]),
         "colors": [[colour(p, s, S, k) for k in (1, 2, 3)] for p in range(w * h) for s in range(S)],
         "subs": subs, "adv": "none", "seed": rng.randrange(2**31), "limit_ms": 60000, "risky": True}
    c.update(kw)
    return c


def gen(c):
    rng, out = c.rng, []
    sizes = [(1, 1), (1, 2), (2, 1), (1, 7), (7, 1), (2, 2), (3, 2), (5, 4), (9, 3), (3, 9), (12, 8), (2, 16), (16, 2)]
    # which sample falls where, exactly
    for _ in range(c.n(1, 8)):
        for w, h in sizes:
            for d in ("u", "v"):
                S = rng.choice([2, 3, 4, 8])
                n = rng.choice([1, 2, 3, 5, 8, 13])
                out.append(case(rng, w, h, n, S, d, [rng.randrange(S) for _ in range(n)],
                                adv=rng.choice(["none", "random", "late", "straggler", "lockstep"])))
    # all positions within a pixel
    for d in ("u", "v"):
        S = 16
        subs = list(range(S))
        rng.shuffle(subs)
        out.append(case(rng, 3, 2, S, S, d, subs))
        out.append(case(rng, 1, 1, S, S, d, subs))
    # many rows or columns
    for w, h in ((1, 129), (2, 131), (131, 2), (300, 1), (1, 300), (rng.randint(2, 5), rng.randint(64, 257)), (rng.randint(64, 257), rng.randint(2, 5))):
        S = rng.choice([1, 2])
        out.append(case(rng, w, h, 2, S, rng.choice("uv"), [rng.randrange(S) for _ in range(2)] if S > 1 else None,
                        threads=rng.choice([1, 3, 8]), adv=rng.choice(["none", "late"])))
    # more pixels than sixteen bits can count
    for w, h in ((rng.randint(65540, 66000), 1), (1, rng.randint(65540, 66000)), (256, 257), (rng.randint(330, 350), rng.randint(200, 220))):
        out.append(case(rng, w, h, 2, 1, threads=8, adv="none", strat="final", limit_ms=300000))
    # many samples, adverse schedules
    for _ in range(c.n(1, 6)):
        for adv in ("none", "random", "late", "straggler", "lockstep"):
            for th in (1, 2, 3, 8):
                w, h = rng.choice([(1, 8), (2, 8), (3, 12), (4, 16), (8, 9)])
                n = 20 if adv == "straggler" else 60
                out.append(case(rng, w, h, n, 1, adv=adv, threads=th, strat={"interval": 0} if rng.random() < 0.3 else "every"))
    for _ in range(c.n(4, 30)):
        out.append(case(rng, 1, 32, 200, 1, adv=rng.choice(["none", "lockstep"]), threads=8, strat="final"))
        out.append(case(rng, 40, 30, 6, 1, adv="none", threads=rng.choice([2, 8]), strat="every"))
    return out


def orders(c):
    out = c.model("Scen_Rows", "Scen_Rows.cfg" if not c.thorough else "Scen_Rows_thorough.cfg")
    by = {}
    for h, w, o in re.findall(r'<<"ORDER", (\d+), (\d+), <<([\d, ]*)>>>>', out):
        by.setdefault((int(h), int(w)), set()).add(tuple(int(x) for x in o.split(",")))
    cases, total = [], 0
    for (h, w), os in sorted(by.items()):
        os = sorted(os)
        total += len(os)
        c.rng.shuffle(os)
        for i in range(0, len(os), 40):
            part = os[i:i + 40]
            width = c.rng.choice([1, 2, 3])
            cases.append(case(c.rng, width, h, len(part), 1, adv="orders", orders=[list(o) for o in part], threads=w, strat="every"))
    c.log("%d finishing orders of rows enumerated by TLC" % total)
    c.explored["finishing_orders_replayed"] = total
    return cases


def spread(c):
    """how the samples are distributed over a pixel: the share of several sets of the 16 cells of its footprint"""
    out, S = [], 4
    cell = [(i % S, i // S) for i in range(S * S)]
    sets = [lambda x, y, k=k: x == k for k in range(S)] + [lambda x, y, k=k: y == k for k in range(S)]
    sets += [lambda x, y: (x < 2) == (y < 2), lambda x, y: x == y, lambda x, y: x + y == 3, lambda x, y: (x + y) % 2 == 0]
    masks = [[i for i, xy in enumerate(cell) if f(*xy)] for f in sets]
    for w, h in ((1, 1), (2, 3), (5, 2)):
        order = list(masks)
        c.rng.shuffle(order)
        for g in range(0, len(order), 3):
            ms = order[g:g + 3]
            cols = [[65536 * (i in m) for m in ms] for _ in range(w * h) for i in range(S * S)]
            out.append(case(c.rng, w, h, c.n(4000, 40000), S, "xy", None, kind="spread", colors=cols, strat="final", masks=ms))
    return out


def bright(c):
    """a few very bright samples among dark ones: they count like all others"""
    rng, out = c.rng, []
    for G, times in ((10, 1), (100, 2), (800, 1), (2000, 2), (10000, 1)):
        for w, h in ((1, 1), (2, 1), (1, 2)):
            if G == 10000 and w * h > 1 and not c.thorough:
                continue
            n = G * times
            subs = [0] * n
            for i in rng.sample(range(1, n), times):
                subs[i] = 1
            x = case(rng, w, h, n, 2, rng.choice("uv"), subs, strat="final", gain=[0, G], threads=2)
            x["colors"] = [[v * (0, G)[i % 2] for v in col] for i, col in enumerate(x["colors"])]
            out.append(x)
    # more samples than sixteen bits count, a quarter of them lit
    n = c.n(70000, 140000)
    lit = set(rng.sample(range(n), n // 4))
    x = case(rng, 1, 1, n, 2, rng.choice("uv"), [int(i in lit) for i in range(n)], strat="final", gain=[0, 1], threads=2, limit_ms=300000)
    x["colors"] = [[v * (i % 2) for v in col] for i, col in enumerate(x["colors"])]
    out.append(x)
    return out


def corrupt(evs):
    out = []
    for e in evs:
        if e["ev"] != "image" or e["kind"] != "mean" or len(out) > 60:
            continue
        px = e["px"]
        i = (7 * len(out)) % len(px)
        for d in (1, -1):
            y = list(px)
            y[i] += d if 0 <= y[i] + d <= 255 else -d
            b = y[i]
            if abs(b - px[i]) == 1:
                out.append((dict(e, px=y), "not-the-mean-of-the-samples"))
        if e["w"] != e["h"]:
            out.append((dict(e, iw=e["h"], ih=e["w"]), "wrong-size"))
        if e["h"] > 1 and e["w"] * e["h"] < 100:
            rows = [px[3 * e["w"] * r:3 * e["w"] * (r + 1)] for r in range(e["h"])]
            out.append((dict(e, px=sum(rows[::-1], [])), "not-the-mean-of-the-samples"))
    return out


def classes(e):
    if e["ev"] != "image":
        return e["ev"]
    if e["kind"] == "spread":
        return "spread"
    if e["k"] > 65535:
        return "very many samples"
    if e["gain"]:
        return "bright samples"
    if e["w"] * e["h"] > 65536:
        return "very large"
    if e["w"] > 100 or e["h"] > 100:
        return "many rows or columns"
    if e["w"] == 1 or e["h"] == 1:
        return "one pixel wide or high"
    return "positions known" if e["S"] > 1 else "large image" if e["w"] * e["h"] > 500 else "any position"


def run(c):
    exe = c.build()
    c.model("MC_Render", c.n("MC_Render.cfg", "MC_Render_thorough.cfg"))
    c.model("MC_Render", "MC_Render_unlocked.cfg", violated="ImageExact")
    c.model("MC_Render", "MC_Render_nowait.cfg", violated="Quiet")
    cases = orders(c) + gen(c) + spread(c) + bright(c)
    evs = c.record(cases, exe)
    c.judge("T_Image", evs, cases, classes,
            ("spread", "very many samples", "bright samples", "one pixel wide or high", "positions known", "large image", "many rows or columns", "very large", "any position"))
    if not c.violations:
        bad = [e for e in evs if e["ev"] == "image" and e["kind"] == "spread"]
        c.negatives("T_Image", corrupt(evs) + [(dict(e, px=[150] * len(e["px"])), None) for e in bad])
    c.assumptions += ["the row workers are held back at their random draws; what happens between two draws is left to the machine"]
    return c.finish("scenes whose pixels are tiled with lights of known colour, draws chosen by the recorder, workers driven through "
                    "the finishing orders enumerated by TLC and further adverse schedules; TLC recomputes every byte of every image")
