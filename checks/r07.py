"""R07: the light a path carries."""
import copy
from gen import *


def rot(k, p):
    """one of the 24 rotations of the cube"""
    p = list(p)
    perm = [(0, 1, 2), (1, 2, 0), (2, 0, 1)][k % 3]
    q = [p[i] for i in perm]
    s = k // 3 % 4
    q = [q[0] * (-1 if s in (1, 2) else 1), q[1] * (-1 if s in (2, 3) else 1), q[2] * (-1 if s in (1, 3) else 1)]
    return q


def corridor(rng, sc, camera, tinted=None):
    """zigzag between y=0 and y=4 in legs of length 5; panes across the legs at multiples of 1/2"""
    k = rng.randrange(12)
    P, up = [0, 0, 0], 1
    objs, decl = [], []
    src = [rng.choice([1, 3, 8, 24]) for _ in range(3)]
    half = rng.choice([0, 1, 3, 10])
    used = last = 0
    left = [tinted]

    def tint():
        if tinted is not None:      # a very long corridor: white but for a few
            if rng.random() > 0.02 or not left[0]:
                return [8, 8, 8]
            left[0] -= 1
            return [rng.randint(4, 8) for _ in range(3)]
        return [rng.randint(0, 8) if rng.random() < 0.4 else rng.randint(1, 8) for _ in range(3)]

    def pane(t, m, flip):
        c = [P[0] + 0.6 * t, P[1] + up * 0.8 * t, 0]
        u, v = [-0.8 * up * 0.2, 0.6 * 0.2, 0], [0, 0, 0.2]
        if flip:
            u, v = v, u
        q = sub(sub(c, mul(0.5, u)), mul(0.5, v))
        objs.append({"k": "quad", "q": rot(k, q), "u": rot(k, u), "v": rot(k, v), "m": m})

    def facing(flip):       # does the front of a pane face the path?  u x v . dir
        u, v = [-0.8 * up * 0.2, 0.6 * 0.2, 0], [0, 0, 0.2]
        if flip:
            u, v = v, u
        return dot(cross(u, v), [0.6, 0.8 * up, 0]) < 0

    for i, it in enumerate(sc["items"]):
        t = tint()
        if it == "glass":
            pos = used + rng.randint(1, 2) if used < 6 else used + 1      # in halves
            pane(pos / 2, {"k": "glass", "c": [x / 8 for x in t], "ior": 1}, rng.random() < 0.5)
            decl.append(["g", t, pos - last])
            last = used = pos
        else:
            m = {"k": "metal", "c": [x / 8 for x in t], "fuzz": 0}
            if it == "blend":
                o = {"k": "metal", "c": [x / 8 for x in tint()], "fuzz": 0}
                m = {"k": "blend", "a": m, "b": o, "f": 0} if rng.random() < 0.5 else {"k": "blend", "a": o, "b": m, "f": 1}
            Q = [P[0] + 3, P[1] + 4 * up, 0]
            u, v = [0.5, 0, 0], [0, 0, 0.5]
            if rng.random() < 0.5:
                u, v = v, u
            objs.append({"k": "quad", "q": rot(k, sub(sub(Q, mul(.5, u)), mul(.5, v))), "u": rot(k, u), "v": rot(k, v), "m": m})
            decl.append(["m", t, 10 - last])
            P, up, used, last = Q, -up, 0, 0
    seg2 = 0
    if sc["fin"] != "none":
        pos = rng.randint(used + 1, 9)
        seg2 = pos - last
        f = rng.random() < 0.5
        if facing(f) != (sc["fin"] == "light"):
            f = not f
        # a rotation of the cube keeps the sense of u x v
        pane(pos / 2, light([x / 8 for x in src], half or None), f)
    # a light away from the path
    objs.append({"k": "sphere", "c": rot(k, [-50, -60, 20]), "r": 1, "m": light()})
    rng.shuffle(objs)
    L = rng.choice([1, 1, 0.5, 2])
    d = rot(k, [0.6 * L, 0.8 * L, 0])
    case = {"cmd": "corridor", "world": objs, "bg": [x / 8 for x in src], "shader": {"path": sc["max"]}, "decl": decl,
            "fin": sc["fin"], "src": src, "half": half, "seg2": seg2, "o": [0, 0, 0], "d": d,
            "depth": 0, "acc": 0, "camera": None}
    if camera:
        case["camera"] = {"fov": 0.0001, "ap": 0, "from": [0, 0, 0], "at": d, "up": rot(k, [0, 0, 1])}
    elif rng.random() < 0.3 and sc["max"] > 1:
        case["depth"], case["acc"] = rng.randint(0, sc["max"]), rng.choice([0, 1, 7])
    return case


def deep(c):
    """corridors of hundreds of surfaces, and bounce limits to match"""
    rng, out = c.rng, []
    for n in [51, 101, 129, 257, 300] + [rng.randint(40, 330) for _ in range(c.n(3, 30))]:
        for fin in ("light", "none"):
            items = [rng.choice(["mirror", "mirror", "glass", "blend"]) for _ in range(n)]
            s = n + (fin != "none")
            for lim in (s, s - 1, rng.randint(s, 2 * s), 1000):
                out.append(corridor(rng, {"items": items, "fin": fin, "max": lim}, False, 3))
    return out


def material(rng, depth=0):
    k = rng.random()
    c = [rng.randint(0, 8) / 8 for _ in range(3)]
    if k < 0.45:
        return lamb(c)
    if k < 0.6:
        return {"k": "metal", "c": c, "fuzz": rng.choice([0, 0.2])}
    if k < 0.75:
        return {"k": "glass", "c": c, "ior": rng.choice([1, 1.5])}
    if k < 0.9 and depth == 0:
        return {"k": "blend", "a": material(rng, 1), "b": material(rng, 1), "f": rng.choice([0, 0.3, 0.7, 1])}
    return light([rng.choice([0, 1, 2, 8]) for _ in range(3)], rng.choice([None, 2, 20]))


def scenes(c):
    rng, out = c.rng, []
    for i in range(c.n(160, 2000)):
        objs = [shape(rng, 3, 1.5, material(rng)) for _ in range(rng.randint(2, 9))]
        if rng.random() < 0.4:       # inside a room
            for a in range(3):
                for s in (-6, 6):
                    q, u, v = [-6, -6, -6], [0, 0, 0], [0, 0, 0]
                    q[a], u[(a + 1) % 3], v[(a + 2) % 3] = s, 12, 12
                    objs.append({"k": "quad", "q": q, "u": u, "v": v, "m": material(rng)})
        if rng.random() < 0.3:
            objs.append({"k": "fog", "d": rng.choice([0.05, 0.5]), "c": [rng.randint(0, 8) / 8 for _ in range(3)],
                         "b": {"k": "sphere", "c": [0, 0, 0], "r": rng.choice([1, 4])}})
        k = rng.random()
        src = [rng.choice([1, 4, 9]) for _ in range(3)]
        if k < 0.15:     # emitters without measure
            src = [rng.choice(["inf", "nan", 0, 1]) for _ in range(3)]
        objs.append({"k": "sphere", "c": [0, 4.5, 0], "r": 0.5, "m": light(src, rng.choice([None, 3]) if k >= 0.15 else None)})
        rays = []
        for _ in range(6):
            o = vec(rng, -5, 5)
            t = rng.choice(objs[:5])
            p = t.get("c") or t.get("q") or t.get("a") if t["k"] != "fog" else [0, 0, 0]
            rays.append({"o": o, "d": mul(rng.choice([1, 0.2]), sub(add(p, vec(rng, -.6, .6)), o))})
        out.append({"cmd": "path", "world": objs, "bg": [rng.randint(0, 8) / 8 for _ in range(3)], "rays": rays, "seeds": 4,
                    "seed0": rng.randrange(10**6), "shader": {"path": rng.choice([0, 1, 2, 3, 4, 6])}, "depth": 0, "acc": 0})
        if rng.random() < 0.2:
            out[-1]["depth"], out[-1]["acc"] = rng.randint(0, 3), rng.choice([0, 5])
    return out


def cls(e):
    if e["ev"] == "corridor":
        n = len(e["decl"]) + (e["fin"] != "none") + e["depth"]
        return ("deep " if len(e["decl"]) > 40 else "") + "corridor: " + ("too long" if n > e["max"] else e["fin"] + (" att" if e["half"] and e["fin"] == "light" else ""))
    if e["ev"] == "path":
        n = len(e["steps"]) + (e["end"] == "emit") + e["depth"]
        k = sum(s["k"] == "diff" for s in e["steps"])
        if n > e["max"]:
            return "path: too long"
        capped = k and any(x == 3000000 for x in e["color"])
        strange = any(x in (2000000001, 2000000002) for x in e["light"])
        return "path: %s%s%s%s" % (e["end"], ", diffuse" if k else "", " capped" if capped else "", " strange" if strange else "")
    return e["ev"]


def corrupt(evs):
    out = []
    def put(e, cl, **kw):
        out.append((dict(e, **kw), cl))
    n = {}
    for e in evs:
        k = cls(e)
        n[k] = n.get(k, 0) + 1
        if n[k] > 8 or e["ev"] not in ("path", "corridor", "pixel"):
            continue
        if k.endswith("too long"):
            put(e, "beyond-the-bounce-limit", color=[0, 125000, 0], final=[0, 125000, 0])
        elif e["ev"] == "pixel":
            p = e["px"]
            put(e, None, px=[p[0] - 9 if p[0] > 100 else p[0] + 9] + p[1:])
        elif not "strange" in k:
            i = max(range(3), key=lambda j: e["color"][j])
            x = list(e["color"])
            if x[i] > 20000:
                x[i] = x[i] * 15 // 16
                put(e, "not-the-product-of-the-surfaces", color=x)
                x = list(e["final"])
                x[i] = x[i] * 15 // 16
                if x[i] > 4000:
                    put(e, None, final=x)
            lit = e["ev"] == "path" and e["end"] == "emit" and e["att"] > 0 or e["ev"] == "corridor" and e["fin"] == "light" and e["half"]
            if lit:
                put(e, "attenuation-factor", factor=e["factor"] * 2)
                put(e, "distance-travelled", len=e["len"] - 500000)
    return out


def run(c):
    exe = c.build()
    c.model("MC_PathLight", c.n("MC_PathLight.cfg", "MC_PathLight_thorough.cfg"))
    for b in ("late", "nocap", "attbg"):
        c.model("MC_PathLight", "MC_PathLight_%s.cfg" % b, violated="Promise")
    scen = c.enumerate("Scen_Path", c.n("Scen_Path.cfg", "Scen_Path_thorough.cfg"))
    cases = [corridor(c.rng, s, c.rng.random() < c.n(0.3, 0.1)) for s in scen]
    cases += deep(c) + scenes(c)
    evs = c.record(cases, exe)
    c.judge("T_PathLight", evs, cases, cls,
            ("deep corridor: too long", "deep corridor: light", "deep corridor: light att", "deep corridor: none", "corridor: too long", "corridor: light", "corridor: light att", "corridor: back", "corridor: none", "pixel",
             "path: emit, diffuse", "path: none, diffuse", "path: too long", "path: emit, diffuse capped", "path: emit, diffuse strange"))
    if not c.violations:
        c.negatives("T_PathLight", corrupt(evs))
    c.assumptions += ["shading draws the same random numbers as hitting and scattering step by step with the same seed"]
    return c.finish("all corridors of mirrors and panes up to the bound, with exact rational colours; random scenes walked by hand and by the shader with equal seeds")
