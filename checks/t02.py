"""T02: bump images."""
import copy, itertools, math
from gen import *

UNIT = []
def unit_pixels(rng):
    """bytes that decode to about a unit vector"""
    d = nonzero(rng, lambda: vec(rng, -1, 1))
    d[2] = abs(d[2])
    d = mul(1 / length(d), d)
    return [max(0, min(255, round((x + 1) * 127.5))) for x in d]


def grey(rng):
    g = rng.randrange(256)
    if rng.random() < 0.2:
        return [max(0, min(255, g + rng.randint(-6, 6))) for _ in range(3)]
    return [g] * 3


def loud(rng):
    """neither grey nor unit"""
    return rng.choice([[200, 40, 250], [255, 0, 0], [0, 200, 10], [10, 20, 250]]) if rng.random() < 0.5 else [rng.randrange(256) for _ in range(3)]


def border(rng):
    """about where a pixel stops being grey, or of unit length"""
    if rng.random() < 0.5:
        g = rng.randrange(20, 230)
        return [g, g + rng.choice([12, 13, -12, -13]), g + rng.choice([0, 12, 13, 25, 26])]
    d = nonzero(rng, lambda: vec(rng, -1, 1))
    d = mul(rng.choice([0.95, 1.05]) / length(d), d)
    return [max(0, min(255, round((x + 1) * 127.5) + rng.choice([-1, 0, 1]))) for x in d]


def gen(c):
    rng, out = c.rng, []
    def case(w, h, px, k, fmt=None):
        grey = all(p[0] == p[1] == p[2] for p in px)
        fmt = fmt or rng.choice(["rgb", "rgb", "rgba", "bmp", "rgb16", "pnm"] + ["gray", "graya"] * grey)
        out.append({"cmd": "bump", "w": w, "h": h, "px": px, "fmt": fmt, "ext": rng.choice(["png", "png", "jpg"]), "_k": k})
    # every height map of 1x1, 2x1, 1x2, 2x2, 3x1, 1x3 pixels over four levels
    for w, h in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2)):
        for levels in itertools.product(*[[0, 100, 130, 255]] * (w * h)):
            if (w, h) != (2, 2) or c.thorough or rng.random() < 0.3:
                case(w, h, [[g, g, g] for g in levels], "small", rng.choice(["rgb", "gray", "direct"]))
    for i in range(c.n(150, 2500)):
        w, h = rng.choice([1, 2, 3, 5, 8, 13, 24]), rng.choice([1, 2, 3, 4, 9, 17])
        n = w * h
        k = rng.choice(["height", "height", "normal", "flat", "mixed", "mixed", "border", "padded", "ramp", "balance"])
        fmt = None
        if k == "height":
            px = [grey(rng) for _ in range(n)]
        elif k == "normal":
            px = [unit_pixels(rng) for _ in range(n)]
        elif k == "flat":
            px = [[128, 128, 255]] * n if rng.random() < 0.5 else [[rng.randrange(256)] * 3] * n
        elif k == "mixed":
            a, b = rng.random(), rng.random()
            px = [rng.choices([grey, unit_pixels, loud], [a, b, 0.3])[0](rng) for _ in range(n)]
        elif k == "border":
            px = [border(rng) for _ in range(n)]
            px = [[max(0, min(255, x)) for x in p] for p in px]
        elif k == "padded":            # a normal map with some unused pixels
            px = [unit_pixels(rng) if rng.random() < 0.7 else [0, 0, 0] for _ in range(n)]
        elif k == "ramp":
            ax, s = rng.randrange(2), rng.choice([1, 3, 9, 40, -1, -7])
            px = [[max(0, min(255, (10 if s > 0 else 250) + s * (j % w if ax else j // w)))] * 3 for j in range(n)]
            if rng.random() < 0.5:
                fmt = rng.choice(["gray", "graya", "direct"])
        else:                          # as many of one kind as of the other, or one more
            m = n // 2
            px = [[90, 90, 90]] * m + [[128, 128, 255]] * (n - m)
            if rng.random() < 0.5 and m > 0:
                px = px[::-1]
            if rng.random() < 0.5:
                px = [[90, 90, 90] if p != [90, 90, 90] else [128, 128, 255] for p in px]
        case(w, h, px, k, fmt)
    # large images of patterns: no part of an image is like the whole
    for i in range(c.n(40, 400)):
        w, h = rng.choice([(64, 64), (65, 64), (100, 100), (300, 7), (7, 300), (256, 256), (511, 513), (1000, 700), (1500, 20)])
        n, p = w * h, rng.choice([2, 3, 4, 5, 7, 8, 16])
        run = rng.choice([1, 1, 2, w, w * (h // 8 + 1), n // p + 1, max(1, n // (p * 2)), max(1, int(n * 0.45))])
        kinds = [rng.choice("gu") for _ in range(p)]
        if rng.random() < 0.6:         # close to a draw
            kinds = ["g"] * (p // 2) + ["u"] * (p // 2) + ([rng.choice("gu")] if p % 2 else [])
            rng.shuffle(kinds)
        if rng.random() < 0.5:
            kinds[rng.randrange(p)] = "l"
        if rng.random() < 0.15:
            kinds = ["g"] * p
        g = lambda: [rng.choice([3, 90, 128, 250])] * 3
        px = [g() if k == "g" else rng.choice([[128, 128, 255], unit_pixels(rng)]) if k == "u" else [200, 40, 250] for k in kinds]
        out.append({"cmd": "pattern", "w": w, "h": h, "run": run, "colours": px,
                    "looks": [[rng.choice([0, w - 1, rng.randrange(w)]), rng.choice([0, h - 1, rng.randrange(h)])] for _ in range(60)], "_k": "pattern"})
    for of in ("image", "bump"):
        for what in ("missing", "empty", "garbage", "text", "dir", "truncated", "header"):
            for name in ("a_%s.png" % what, "b c_%s.jpg" % what, "nothing_like_%s" % what):
                out.append({"cmd": "fail", "of": of, "what": what, "name": name, "_k": "%s %s" % (of, what)})
    return out


def run(c):
    exe = c.build()
    c.enumerate("MC_Texture", c.n("MC_Texture.cfg", "MC_Texture_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Texture", evs, cases, lambda e: cases[e["case"]]["_k"] + ((" normal" if e["same"] else " height") if e["ev"] == "pattern" else ""), ["small", "height", "normal", "flat", "mixed", "border", "padded", "ramp", "balance", "pattern height", "pattern normal"]
            + [o + " " + w for o in ("image", "bump") for w in ("missing", "empty", "garbage", "text", "dir", "truncated", "header")])
    if not c.violations:
        neg = []
        for e in evs:
            if e["ev"] == "fail":
                neg.append((dict(e, err=False), "no-error")); neg.append((dict(e, named=False), "file-not-named"))
            elif e["ev"] == "pattern":
                if e["same"]:
                    neg.append((dict(e, same=False), None))
                elif all(p[0] == p[1] == p[2] for p in e["colours"]):
                    neg.append((dict(e, same=True, looks=[dict(l, out=[128, 128, 128]) for l in e["looks"]]), None))
            elif e["ev"] == "bump":
                k = cases[e["case"]]["_k"]
                if k in ("small", "ramp", "normal"):
                    x = copy.deepcopy(e); i = c.rng.randrange(len(x["out"])); x["out"][i] = [abs(y - 6) for y in x["out"][i]]
                    neg.append((x, "normal-map" if k == "normal" else "height-map"))
                neg.append((dict(e, out=e["out"][1:]), "size"))
        c.negatives("T_Texture", neg)
    c.assumptions += ["converted bytes are accepted within one step", "grey and of unit length are meant within 5 %, as the code has it"]
    return c.finish("height maps of up to 3 pixels exhaustively over four levels, random height maps, normal maps and mixtures around the borders of the classification, in files of several pixel formats; converted pixels recomputed; damaged and missing files")
