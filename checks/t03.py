"""T03: normal maps."""
import copy, math
from gen import *

TILTS = [([a, b, c], t) for t in range(1, 16) for a in range(-t, t + 1) for b in range(-t, t + 1) for c in range(1, t + 1)
         if a * a + b * b + c * c == t * t and math.gcd(math.gcd(a, b), c) == 1]
SPHERE = [(x, y, z, k, R) for R in range(1, 60) for y in range(-R, R + 1) for x in range(-R, R + 1) for z in range(-R, R + 1)
          if x * x + y * y + z * z == R * R and x * x + z * z > 0
          for k in [math.isqrt(x * x + z * z)] if k * k == x * x + z * z and math.gcd(math.gcd(math.gcd(x, y), z), R) == 1]


def frame(rng):
    """three orthogonal integer vectors of the same length, of either handedness"""
    while True:
        a, b, c, d = (rng.randint(-3, 3) for _ in range(4))
        n = a * a + b * b + c * c + d * d
        if n:
            break
    f = [[a*a+b*b-c*c-d*d, 2*(b*c+a*d), 2*(b*d-a*c)], [2*(b*c-a*d), a*a-b*b+c*c-d*d, 2*(c*d+a*b)], [2*(b*d+a*c), 2*(c*d-a*b), a*a-b*b-c*c+d*d]]
    rng.shuffle(f)
    return f, n


def textured(rng, at):
    """a normal map: its value t/td at texture coordinate `at`, and its description"""
    w = rng.random()
    if w < 0.15:
        return [0, 0, 1], 1, None, 2, "none"
    if w < 0.3:
        return [0, 0, 1], 1, [0.5, 0.5, 1], 2, "up"
    if w < 0.75:
        t, td = rng.choice(TILTS)
        return t, td, [(x / td + 1) / 2 for x in t], 3, "tilted"
    px = []
    for _ in range(4):
        t, td = rng.choice(TILTS)
        px.append([round((x / td + 1) * 127.5) for x in t])
    i = (1 if at[0] > 0.5 else 0) + 2 * (1 if at[1] < 0.5 else 0)
    return [2 * x - 255 for x in px[i]], 255, {"img": {"w": 2, "h": 2, "px": px}}, 7000, "image"


def material(rng, n):
    m = {"k": rng.choice(["lamb", "metal", "glass"]), "c": [0.5, 0.5, 0.5], "fuzz": 0.1, "ior": 1.4, "n": n}
    if n is None and rng.random() < 0.3:
        m = light((1, 1, 1))
    return m


def gen(c):
    rng, out = c.rng, []
    for i in range(c.n(2500, 30000)):
        kind = rng.choice(["quad", "tri", "tri", "sphere", "sphere", "pole", "nouv"])
        S = 10 ** rng.uniform(-1.5, 2)
        org = mul(S, vec(rng, -3, 3))
        back = rng.random() < 0.4
        if kind in ("sphere", "pole"):
            x, y, z, k, R = rng.choice(SPHERE)
            if kind == "pole":
                x, y, z, k, R = 0, rng.choice([1, -1]), 0, 1, 1
                T, B, N, nd = [1, 0, 0], [0, 0, 1], [0, y, 0], 1
            else:
                T, B, N, nd = [z * R, 0, -x * R], [-x * y, k * k, -y * z], [x * k, y * k, z * k], R * k
            n = [x / R, y / R, z / R]
            # in the texture: u grows from west (atan2 = pi) through ... to east, v from bottom to top
            u, v = (-math.atan2(n[2], n[0]) + math.pi) / (2 * math.pi), math.acos(-n[1]) / math.pi
            if min(abs(u - .5), abs(v - .5), u, 1 - u) < 1e-3 and kind != "pole":
                u = v = None
            P = add(org, mul(S, n))
            side = -1 if back else 1
            if kind == "pole":
                # straight along the axis
                o, d = add(P, [0, side * S * y * rng.uniform(0.3, 1.7), 0]), [0, -side * y, 0]
                org = [0, 0, 0]
                P = [0, S * y, 0]
                o = add(P, [0, side * S * y * rng.uniform(0.3, 1.7), 0])
                if back:
                    o = [0, 0, 0]
            else:
                d = add(mul(-side, n), mul(0.8 / math.sqrt(3) * rng.random(), vec(rng, -1, 1)))
                if dot(d, n) * -side <= 0.1:
                    continue
                t = rng.uniform(0.1, 3) if not back else rng.uniform(0.05, 0.9) * 2 * dot(d, n) / dot(d, d)
                o = sub(P, mul(S * t, d))
            N = mul(side, N)
            sh = {"k": "sphere", "c": org, "r": S}
            uv = (u, v)
        else:
            (T, B, N), nd = frame(rng)
            e1, e2 = mul(1 / nd, T), mul(1 / nd, B)
            a, b = rng.uniform(.05, .95), rng.uniform(.05, .95)
            if kind == "quad":
                lu, lv = rng.uniform(0.3, 3), rng.uniform(0.3, 3)
                sh = {"k": "quad", "q": org, "u": mul(S * lu, e1), "v": mul(S * lv, e2)}
                P = add(org, add(mul(S * lu * a, e1), mul(S * lv * b, e2)))
                uv = (a, b)
            else:
                while True:
                    V = [(rng.randint(0, 16) / 8, rng.randint(0, 16) / 8) for _ in range(3)]
                    if abs((V[1][0] - V[0][0]) * (V[2][1] - V[0][1]) - (V[1][1] - V[0][1]) * (V[2][0] - V[0][0])) > 0.3:
                        break
                su, sv, u0, v0 = rng.choice([0.125, 0.5, 1]), rng.choice([0.125, 0.25, 1]), rng.choice([0, 0.125]), rng.choice([0, 0.25])
                at = lambda p: add(org, add(mul(S * p[0], e1), mul(S * p[1], e2)))
                sh = {"k": "tri", "a": at(V[0]), "b": at(V[1]), "c": at(V[2])}
                w = [rng.uniform(0.05, 1) for _ in range(3)]
                w = [x / sum(w) for x in w]
                p = [sum(w[i] * V[i][j] for i in range(3)) for j in range(2)]
                P = at(p)
                uv = ((u0 + su * p[0]) % 1, (v0 + sv * p[1]) % 1)
                if kind == "tri":
                    sh["uv"] = [[u0 + su * q[0], v0 + sv * q[1]] for q in V]
            side = -1 if back else 1
            N = mul(side, N)
            d = add(mul(-1 / nd, N), add(mul(rng.uniform(-1, 1), e1), mul(rng.uniform(-1, 1), e2)))
            o = sub(P, mul(S * rng.uniform(0.1, 3), d))
            if rng.random() < 0.2:
                sh["tr"] = [{"t": [1, -2, 3]}, {"s": 2}]
                o, d = mul(2, add(o, [1, -2, 3])), mul(2, d)
        # hits nearer than 0.001 of the direction vector are not looked for
        far = length(sub(P, o)) / 2 if "tr" not in sh else S / 10
        at = (0.3, 0.3) if uv[0] is None else uv
        t, td, n, tol, mk = textured(rng, at)
        if kind in ("pole", "nouv") and mk not in ("none", "up"):
            t, td, n, tol, mk = [0, 0, 1], 1, [0.5, 0.5, 1], 2, "up"
        if mk == "image" and (uv[0] is None or min(abs(at[0] - .5), abs(at[1] - .5)) < 1e-3 or min(at + (1 - at[0], 1 - at[1])) < 1e-3):
            continue
        maps, looks = [{"t": t, "td": td, "tol": tol, "must": True}], 1
        sh["m"] = material(rng, n)
        if kind not in ("pole", "nouv") and mk in ("none", "up", "tilted") and rng.random() < 0.3:
            # one of two materials, also one of them a blend itself
            n2 = rng.choice([None, "t", "t", "t"])
            parts = [(sh["m"], maps[0])]
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.2:
                    parts.append((material(rng, None), {"t": [0, 0, 1], "td": 1, "tol": 2, "must": True}))
                else:
                    t2, td2 = rng.choice(TILTS)
                    parts.append((material(rng, [(x / td2 + 1) / 2 for x in t2]), {"t": t2, "td": td2, "tol": 3, "must": True}))
            rng.shuffle(parts)
            m, ms = parts[0][0], [dict(parts[0][1])]
            for pm, pmap in parts[1:]:
                fa = rng.choice([0, 1, 0.5, 0.4, 0.6])
                m = {"k": "blend", "a": m, "b": pm, "f": fa}
                ms = (ms if fa < 1 else []) + ([dict(pmap)] if fa > 0 else [])
            sh["m"], maps, looks, mk = m, ms, 60, "blend"
        if rng.random() < 0.15:
            away = {"k": "sphere", "c": add(o, mul(-50 * S / length(d), d)), "r": S, "m": lamb((0, 0, 0))}
            sh = {"k": "bvh", "items": [sh, away]}
        out.append({"cmd": "tilt", "shape": sh, "o": o, "d": mul(10 ** rng.uniform(-2, 1.5) * far / length(d), d), "T": T, "B": B, "N": N, "nd": nd, "maps": maps, "looks": looks,
                    "_k": "%s %s%s" % (kind, mk, " back" if back else "")})
    return out


def run(c):
    exe = c.build()
    c.enumerate("MC_Texture", c.n("MC_Texture.cfg", "MC_Texture_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.judge("T_Texture", evs, cases, lambda e: cases[e["case"]]["_k"],
            ["%s %s%s" % (k, m, b) for k in ("quad", "tri", "sphere") for m in ("none", "up", "tilted", "image", "blend") for b in ("", " back")] +
            ["%s %s%s" % (k, m, b) for k in ("pole", "nouv") for m in ("none", "up") for b in ("", " back")])
    if not c.violations:
        neg = []
        for e in evs[::5]:
            i = c.rng.randrange(3)
            first = e["normals"][0]
            neg.append((dict(e, normals=[[x + (10000 if j == i else 0) for j, x in enumerate(first)]] + e["normals"][1:]), "shading-normal"))
            if len(e["maps"]) > 1:
                if len({str(m["t"]) + str(m["td"]) for m in e["maps"]}) == len(e["maps"]) == len(e["normals"]):
                    neg.append((dict(e, normals=[first]), "normal-never-chosen"))
                    s = [sum(n[j] for n in e["normals"]) // len(e["normals"]) for j in range(3)]
                    neg.append((dict(e, normals=e["normals"] + [s]), "shading-normal"))
                continue
            m = e["maps"][0]
            if m["t"] != [0, 0, 1] and m["tol"] < 100:
                if m["t"][0] and m["t"][1]:
                    neg.append((dict(e, maps=[dict(m, t=[m["t"][1], -m["t"][0], m["t"][2]])]), "shading-normal"))
                if m["t"][0]:
                    neg.append((dict(e, T=mul(-1, e["T"])), "shading-normal"))
        c.negatives("T_Texture", neg)
    c.assumptions += ["maps made of bytes are only approximately unit vectors and judged within 0.7 %"]
    return c.finish("quads, triangles (also mirrored and without texture coordinates) and spheres (also at their poles) of many sizes in rational frames, from both sides, with straight, tilted and textured normal maps")
