"""Random and systematic inputs shared by the checks."""
import math


def vec(rng, lo, hi):
    return [rng.uniform(lo, hi) for _ in range(3)]


def lat(rng, lo, hi):
    return [rng.randint(lo, hi) for _ in range(3)]


def nonzero(rng, f):
    while True:
        v = f()
        if any(abs(x) > 1e-9 for x in v):
            return v


def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def mul(k, a): return [k * x for x in a]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def length(a): return math.sqrt(dot(a, a))


LAMB = {"k": "lamb", "c": [0.5, 0.5, 0.5]}


def light(c=(1, 1, 1), half=None):
    return {"k": "light", "c": list(c), "half": half}


def lamb(c):
    return {"k": "lamb", "c": list(c)}


def shape(rng, span=4.0, size=1.5, mat=None, lattice=False):
    """A random sphere, quad or triangle; on the lattice all coordinates are integers."""
    m = mat or lamb([rng.randint(0, 8) / 8 for _ in range(3)])
    P = (lambda: lat(rng, -int(span), int(span))) if lattice else (lambda: vec(rng, -span, span))
    E = (lambda: lat(rng, -2, 2)) if lattice else (lambda: vec(rng, -size, size))
    k = rng.random()
    if k < 0.34:
        return {"k": "sphere", "c": P(), "r": rng.randint(1, 2) if lattice else rng.uniform(0.05, size), "m": m}
    while True:
        u, v = E(), E()
        if length(cross(u, v)) > 0.05:
            break
    q = P()
    if k < 0.67:
        return {"k": "quad", "q": q, "u": u, "v": v, "m": m}
    return {"k": "tri", "a": q, "b": add(q, u), "c": add(q, v), "m": m}


def box_faces(a, b, m, tr=None):
    return {"k": "box", "a": a, "b": b, "m": m, "tr": tr}


# ------------------------------------------------------------------ lattice geometry in poses
FAR = 2000000000


def mat_mul(A, B): return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def mat_vec(A, v): return [sum(A[i][k] * v[k] for k in range(3)) for i in range(3)]
IDENT = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def rotation(rng):
    """a random rotation, from a random unit quaternion"""
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 0.1:
            break
    w, x, y, z = [a / n for a in q]
    return [[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]]


def lattice_shape(rng, kinds=("sphere", "quad", "tri", "box")):
    k = rng.choice(kinds)
    if k == "sphere":
        return {"k": k, "c": lat(rng, -3, 3), "r": rng.randint(1, 4)}
    if k == "box":
        while True:
            a, b = lat(rng, -3, 3), lat(rng, -3, 3)
            if all(x != y for x, y in zip(a, b)):
                return {"k": k, "a": a, "b": b}
    while True:
        u, v = lat(rng, -3, 3), lat(rng, -3, 3)
        n = cross(u, v)
        if any(n) and max(abs(x) for x in n) <= 9:
            break
    q = lat(rng, -3, 3)
    if k == "quad":
        return {"k": k, "q": q, "u": u, "v": v}
    return {"k": k, "a": q, "b": add(q, u), "c": add(q, v), "uv": [[rng.randint(-4, 8), rng.randint(-4, 8)] for _ in range(3)]}


def place(s, P):
    """the shape under x -> M x + T, as the recorder builds it"""
    M, T, sc = P
    pt = lambda p: add(mat_vec(M, p), T)
    o = {"k": s["k"]}
    if s["k"] == "sphere":
        o.update(c=pt(s["c"]), r=s["r"] * sc)
    elif s["k"] == "quad":
        o.update(q=pt(s["q"]), u=mat_vec(M, s["u"]), v=mat_vec(M, s["v"]))
    elif s["k"] == "tri":
        o.update(a=pt(s["a"]), b=pt(s["b"]), c=pt(s["c"]), uv=[[x / 4 for x in w] for w in s["uv"]])
    else:
        o.update(a=s["a"], b=s["b"])
    return o


def lattice_ray(rng, s):
    """a lattice ray, mostly aimed at the shape"""
    while True:
        o = lat(rng, -6, 6)
        k = rng.random()
        if k < 0.2:
            d = [0, 0, 0]
            d[rng.randrange(3)] = rng.choice([1, -1, 2, -3])
        elif k < 0.85:
            c = {"sphere": lambda: add(s["c"], lat(rng, -1, 1)), "quad": lambda: add(s["q"], rng.choice([s["u"], s["v"], [0, 0, 0], add(s["u"], s["v"])])),
                 "tri": lambda: rng.choice([s["a"], s["b"], s["c"]]), "box": lambda: [rng.randint(min(x, y), max(x, y)) for x, y in zip(s["a"], s["b"])]}[s["k"]]()
            d = add(sub(c, o), lat(rng, -1, 1))
            m = max(abs(x) for x in d)
            if m > 3:                     # back off along the ray
                d = [max(-3, min(3, round(x * 3 / m))) for x in d]
                o = sub(c, mul(rng.choice([0, 1, 2]), d))
                if max(abs(x) for x in o) > 9:
                    continue
        else:
            d = lat(rng, -3, 3)
        if any(d):
            return o, d


def lattice_interval(rng):
    k = rng.random()
    h = lambda x: x * 500000
    if k < 0.5:
        return 1000, FAR, [0.001, "inf"]
    if k < 0.6:
        return -FAR, FAR, ["-inf", "inf"]
    a, b = sorted([rng.randint(-9, 15), rng.randint(-9, 15)])
    if k < 0.75:
        return h(a), FAR, [a / 2, "inf"]
    if k < 0.85:
        return -FAR, h(b), ["-inf", b / 2]
    return h(a), h(b), [a / 2, b / 2]


def hits_case(rng, s, P, nrays, shape=None, ds=None, uvok=True):
    M, T, sc = P
    ds = ds or rng.choice([1, 1, 2, 0.5, 0.03, 41.0])
    rays = []
    for _ in range(nrays):
        o, d = lattice_ray(rng, s)
        a, b, iv = lattice_interval(rng)
        iv = [x if isinstance(x, str) else x / ds for x in iv]
        rays.append({"o": add(mat_vec(M, o), T), "d": mul(ds, mat_vec(M, d)), "iv": iv, "lo": o, "ld": d, "a": a, "b": b})
    return {"cmd": "hits", "shape": shape or place(s, P), "s": s, "M": [x for r in M for x in r], "T": T, "scale": sc, "ds": ds,
            "rays": rays, "uvok": uvok}
