"""R08: what the preview shaders show."""
from gen import *

# orthogonal integer frames: columns of equal length nd
FRAMES = [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1), ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3),
          ([[2, 3, 6], [3, -6, 2], [6, 2, -3]], 7), ([[1, 4, 8], [4, 7, -4], [8, -4, 1]], 9), ([[3, 4, 0], [4, -3, 0], [0, 0, 5]], 5)]
TILTS = [([0, 0, 1], 1), ([3, 0, 4], 5), ([0, -3, 4], 5), ([2, 1, 2], 3), ([-2, 3, 6], 7), ([-1, -4, 8], 9)]


def frame(rng):
    f, n = rng.choice(FRAMES)
    f = list(f)
    rng.shuffle(f)
    f = [mul(rng.choice([1, -1]), x) for x in f]
    p = rng.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2)])
    f = [[x[p[0]], x[p[1]], x[p[2]]] for x in f]
    if dot(cross(f[0], f[1]), f[2]) < 0:
        f[2] = mul(-1, f[2])
    return f, n                                      # T, B, N = T x B


def gen(c):
    rng, out = c.rng, []
    for i in range(c.n(1500, 15000)):
        (T, B, N), nd = frame(rng)
        tint = [rng.randint(0, 8) for _ in range(3)]
        col = [x / 8 for x in tint]
        kind = rng.choice(["lamb", "metal", "glass", "blend", "light", "img"])
        nrm, tn = N, nd
        tilt = None
        back = rng.random() < 0.3
        if kind not in ("light", "blend") and rng.random() < 0.5 and not back:
            t, td = rng.choice(TILTS)
            tilt = [(x / td + 1) / 2 for x in t]
            nrm = [t[0] * T[j] + t[1] * B[j] + t[2] * N[j] for j in range(3)]
            tn = nd * td
        if back:
            nrm = mul(-1, nrm)
        m = {"lamb": dict(k="lamb", c=col, n=tilt), "img": None, "metal": dict(k="metal", c=col, n=tilt, fuzz=rng.choice([0, 0.5])),
             "glass": dict(k="glass", c=col, n=tilt, ior=1.5), "light": light(col, rng.choice([None, 2])), "blend": None}[kind]
        tol = 2
        if kind == "blend":
            m = {"k": "blend", "a": lamb(col), "b": {"k": "metal", "c": col, "fuzz": 0}, "f": 0.5}
        if kind == "img":        # byte values within half a step of the eighths
            tint = [rng.choice([0, 8]) for _ in range(3)]
            w, h = rng.randint(1, 3), rng.randint(1, 3)
            m = dict(k="lamb", c={"img": {"w": w, "h": h, "px": [[255 if x else 0 for x in tint]] * (w * h)}}, n=tilt)
        if kind == "light" and back:
            tint = [0, 0, 0]
        q = lat(rng, -3, 3)
        u, v = mul(rng.choice([1, 2]) * 4 / nd, T), mul(rng.choice([1, 0.5]) * 4 / nd, B)
        P = add(q, add(mul(rng.uniform(.1, .4), u), mul(rng.uniform(.1, .4), v)))
        D = add(mul(-1.0 if not back else 1.0, N), add(mul(rng.uniform(-.5, .5), T), mul(rng.uniform(-.5, .5), B)))
        far = rng.choice([0.5, 2, 30])
        o = sub(P, mul(far / length(D), D))
        if rng.random() < 0.5:
            obj = {"k": "quad", "q": q, "u": u, "v": v, "m": m}
        else:                   # a triangle with the same frame
            obj = {"k": "tri", "a": q, "b": add(q, u), "c": add(q, v), "uv": [[0, 0], [1, 0], [0, 1]], "m": m}
        if nd > 1:
            tol = 3
        out.append({"cmd": "preview", "world": [obj, {"k": "sphere", "c": [900, 0, 0], "r": 1, "m": light([5, 6, 7], 1)}],
                    "o": o, "d": mul(rng.choice([1, 0.3]), D), "shaders": ["albedo", "normal", "simple"],
                    "depth": rng.choice([0, 0, 1, 50, 1000]), "acc": rng.choice([0, 3.5, 1e6]), "bg": [1, 1, 1],
                    "nrm": nrm, "nd": tn, "tint": tint, "emits": kind == "light", "tol": tol + (3 if tilt else 0),
                    "_k": kind + (" mapped" if tilt else "") + (" back" if back else "")})
    return out


def run(c):
    exe = c.build()
    c.model("MC_PathLight", "MC_PathLight.cfg")
    cases = gen(c)
    evs = c.record(cases, exe)
    kind = lambda e: e["ev"] if e["ev"] != "preview" else e["shader"] + ": " + cases[e["case"]]["_k"]
    c.judge("T_PathLight", evs, cases, kind,
            [s + ": " + k for s in ("albedo", "normal", "simple") for k in
             ("lamb", "metal", "glass", "blend", "light", "img", "lamb mapped", "metal mapped", "glass mapped", "lamb back", "light back")])
    if not c.violations:
        neg = []
        for e in evs[::40]:
            x = list(e["color"])
            x[len(neg) % 3] += 20
            neg.append((dict(e, color=x, final=x), e["shader"]))
            y = [v // 2 for v in e["color"]]
            if y != e["color"]:
                neg.append((dict(e, final=y), "attenuated"))
        for e in evs:
            if e["shader"] == "simple" and e["emits"] and any(e["tint"]) and len(neg) < 500:   # an emitter is not shaded
                neg.append((dict(e, emits=False), None) if sum(e["n"][:2]) - e["n"][2] != e["nd"] / 2 else (dict(e, tint=[9, 9, 9]), None))
        c.negatives("T_PathLight", neg)
    return c.finish("surfaces of known orientation (Pythagorean frames, tilted normal maps), colour and material, at any depth and distance")
