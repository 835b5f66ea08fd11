"""T01: texture lookup."""
import copy
from gen import *

SPECIALS = [(1e30, 1, 0), ("max", 1, 0), ("-max", -1, 0), ("-0", 0, 0), ("denorm", 0, 0), (-1e-40, 0, 0), (1e-30, 0, 0), (16777216.0, 1, 0), (-8388609.0, 1, 0), (3e9, 1, 0)]


def coordinate(rng, size):
    """<<k, e>>: k / 2^e, an exact single precision number; and where the texels meet"""
    e = rng.choice([0, 1, 2, 3, 5, 8, 12, 14, 18, 20])
    w = rng.random()
    whole = rng.choice([0, 0, 0, 1, 2, 7]) if e <= 20 else 0
    if w < 0.35:                       # next to a border between texels
        k = (rng.randrange(size + 1) * 2 ** e) // size + rng.choice([-1, 0, 0, 1])
    elif w < 0.5:                      # at the ends
        k = rng.choice([0, 1, 2 ** e - 1, 2 ** e])
    else:
        k = rng.randrange(2 ** e + 1)
    k = max(0, k) + whole * 2 ** e
    while k >= 2 ** 24:
        k -= 2 ** e
    return [rng.choice([1, 1, -1]) * k, e]


def lookup(rng, w, h):
    u, v = coordinate(rng, w), coordinate(rng, h)
    l = {"u": u, "v": v}
    if rng.random() < 0.1:
        x, k, e = rng.choice(SPECIALS)
        l["uf"], l["u"] = x, [k, e]
    if rng.random() < 0.1:
        x, k, e = rng.choice(SPECIALS)
        l["vf"], l["v"] = x, [k, e]
    return l


def gen(c, enum):
    rng, out = c.rng, []
    by = {}
    for e in enum:
        by.setdefault((e["w"], e["h"]), []).append({"u": e["u"], "v": e["v"]})
    for (w, h), ls in sorted(by.items()):
        out.append({"cmd": "texel", "kind": "rgb", "src": "new", "w": w, "h": h, "lookups": ls, "_k": "enumerated"})
    sizes = [1, 1, 2, 3, 4, 5, 7, 10, 16, 31, 64, 100, 255, 256, 257, 300, 640, 1000, 1023]
    for i in range(c.n(60, 1200)):
        w, h = rng.choice(sizes), rng.choice(sizes)
        if rng.random() < 0.3:
            w = rng.randint(1, 1024)
        src = rng.choice(["new", "new", "rgb", "rgba", "gray", "graya", "rgb16", "bmp", "pnm"])
        ext = rng.choice(["png", "png", "jpg", "dat"])        # the content decides, not the name
        kind = "gray" if src.startswith("gray") or (src == "new" and rng.random() < 0.2) else "rgb"
        out.append({"cmd": "texel", "kind": kind, "src": src, "ext": ext, "w": w, "h": h, "clone": rng.random() < 0.3,
                    "lookups": [lookup(rng, w, h) for _ in range(c.n(250, 600))], "_k": "file " + src if src != "new" else "memory"})
    out.append({"cmd": "texel", "kind": "rgb", "src": "new", "w": 4000, "h": 1, "lookups": [{"u": [x, 12], "v": [0, 0]} for x in range(0, 4097, 1)], "_k": "memory"})
    out.append({"cmd": "texel", "kind": "rgb", "src": "rgb", "ext": "png", "w": 1, "h": 4000, "lookups": [{"u": [0, 0], "v": [x, 12]} for x in range(0, 4097, 1)], "_k": "file rgb"})
    # longer than 2^12, 2^15 and 2^16 texels
    for n, e in ((5000, 11), (8192, 11), (20000, 9), (33000, 8), (65537, 7), (70000, 7)):
        m = rng.choice([1, 2, 3])
        other = lambda: [rng.randrange(5), 2]
        long = lambda: [rng.choice([1, 1, -1]) * rng.randint(0, 2 ** e), e]
        out.append({"cmd": "texel", "kind": "rgb", "src": rng.choice(["new", "rgb"]), "ext": "png", "w": n, "h": m, "lookups": [{"u": long(), "v": other()} for _ in range(150)], "_k": "long"})
        out.append({"cmd": "texel", "kind": "rgb", "src": rng.choice(["new", "rgb"]), "ext": "png", "w": m, "h": n, "lookups": [{"u": other(), "v": long()} for _ in range(150)], "_k": "long"})
    for i in range(c.n(200, 2000)):
        col = [rng.choice([0, 1, 0.5, rng.uniform(0, 1), rng.uniform(0, 20), -1]) for _ in range(3)]
        how = rng.choice(["rgb", "array", "vec"])
        out.append({"cmd": "solid", "how": how, "c": col, "want": [round(x * 1e6) for x in col], "tol": 3 if how == "array" else 1, "_k": "solid " + how})
    return out


def run(c):
    exe = c.build()
    cases = gen(c, c.enumerate("MC_Texture", c.n("MC_Texture.cfg", "MC_Texture_thorough.cfg")))
    evs = c.record(cases, exe)
    c.judge("T_Texture", evs, cases, lambda e: e["ev"] if e["ev"] not in ("texel", "solid") else cases[e["case"]]["_k"] + (" special" if e.get("special") else ""),
            ["enumerated", "long", "memory", "memory special"] + ["file " + s for s in ("rgb", "rgba", "gray", "graya", "rgb16", "bmp", "pnm")] + ["solid " + h for h in ("rgb", "array", "vec")])
    if not c.violations:
        neg = []
        for e in evs[::97]:
            if e["ev"] == "texel":
                neg.append((dict(e, col=[x + 3922 for x in e["col"]]), "wrong-texel"))
                neg.append((dict(e, col=[x + (5 if i == len(neg) % 3 else 0) for i, x in enumerate(e["col"])]), "wrong-texel"))
        for e in evs:
            if e["ev"] == "solid":
                neg.append((dict(e, same=False), "solid-colour"))
                neg.append((dict(e, col=[x + 5 for x in e["col"]]), "solid-colour"))
        c.negatives("T_Texture", neg)
    return c.finish("lookups at all multiples of a quarter (thorough: eighth) in all small images, enumerated by TLC; random exact coordinates around texel borders, wrapped, mirrored, huge and tiny, in images of up to 70000 texels, in memory and from files of seven pixel formats")
