"""G04: exactly the emitting objects are collected as lights."""
import copy
from gen import *

EMIT = [lambda r: light((1, 2, 3)), lambda r: light((0.5, 0, 0), 3), lambda r: {"k": "light3", "c": [1, 1, 1]}, lambda r: light((0, 0, 0))]
DARK = [lambda r: lamb([1, 1, 1]), lambda r: {"k": "metal", "c": [1, 1, 1], "fuzz": 0}, lambda r: {"k": "glass", "c": [1, 1, 1], "ior": 1.5},
        lambda r: {"k": "blend", "a": lamb([1, 0, 0]), "b": {"k": "metal", "c": [1, 1, 1], "fuzz": 0.1}, "f": 0.5}]


def build(t, rng, place):
    """the world as the recorder builds it; object number id lies at x = 10 id"""
    if t["k"] == "group":
        return {"k": "bvh", "items": [build(x, rng, place) for x in t["items"]]}
    if t["k"] == "fog":
        return {"k": "fog", "b": build(t["b"], rng, place), "d": 1, "c": [1, 1, 1]}
    m = rng.choice(EMIT if t["em"] else DARK)(rng)
    x, y, z = 10 * t["id"], place[1] * t["id"], place[2] * (t["id"] % 7)
    if t["s"] == "sphere":
        return {"k": "sphere", "c": [x, y, z], "r": rng.choice([0.01, 1, 3]), "m": m}
    if t["s"] == "quad":
        return {"k": "quad", "q": [x - 1, y - 1, z], "u": [2, 0, rng.choice([0, 1])], "v": [0, 2, 0], "m": m}
    return {"k": "tri", "a": [x - 1, y - 1, z], "b": [x + 1, y - 1, z], "c": [x, y + 1, z], "m": m}


def random_tree(rng, ids, depth):
    def leaf():
        ids[0] += 1
        return {"k": "leaf", "s": rng.choice(["sphere", "quad", "tri"]), "em": rng.random() < ids[1], "id": ids[0] if rng.random() < ids[2] else 1}
    k = rng.random()
    if depth == 0 or k < 0.6:
        return leaf()
    if k < 0.68:
        return {"k": "fog", "b": random_tree(rng, ids, 0)}
    return {"k": "group", "items": [random_tree(rng, ids, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]}


def gen(c, worlds):
    rng, out = c.rng, []
    trees = [w["tree"] for w in worlds]
    for _ in range(c.n(500, 6000)):
        ids = [0, rng.choice([0, 0.1, 0.5, 0.9, 1]), rng.choice([1, 1, 1, 0.7])]
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 30, 100] + ([300, 800] if rng.random() < 0.1 else []))
        t = {"k": "group", "items": [random_tree(rng, ids, rng.randint(0, 5)) for _ in range(n)]}
        if ids[0] < 1500:
            trees.append(t)
    for t in trees:
        out.append({"cmd": "lights", "tree": t, "obj": build(t, rng, [0, rng.choice([0, 0, 3, -40]), rng.choice([0, 5])])})
    return out


def run(c):
    exe = c.build()
    for b in ("fog", "right", "twice"):
        c.model("MC_Lights", "MC_Lights_%s.cfg" % b, violated="Conserved")
    worlds = c.enumerate("MC_Lights", c.n("MC_Lights.cfg", "MC_Lights_thorough.cfg"))
    cases = gen(c, worlds)
    evs = c.record(cases, exe)
    cls = lambda e: ("no light" if not e["world"] else "few lights" if len(e["world"]) < 4 else "many lights") if e["ev"] == "lights" else e["ev"]
    c.judge("T_Lights", evs, cases, cls, ["no light", "few lights", "many lights"])
    if not c.violations:
        neg = []
        for i, e in enumerate(evs):
            if i % 7:
                continue
            for k, cl in (("world", "lights-of-the-world"), ("copy", "lights-of-the-copy"), ("renderer", "lights-of-the-renderer")):
                if e[k]:
                    neg.append((dict(e, **{k: e[k][1:]}), cl))
                    neg.append((dict(e, **{k: e[k] + e[k][:1]}), cl))
                    neg.append((dict(e, **{k: [[e[k][0][0], e[k][0][1] + 1]] + e[k][1:]}), cl))
            neg.append((dict(e, accepted=not e["accepted"]), "accepted-by-renderer"))
        c.negatives("T_Lights", neg[:1200])
    c.assumptions += ["a blend with an emitter among its parts is not used as a material: the statement leaves open whether it emits"]
    return c.finish("all worlds of the enumerated shape and random ones of up to 1500 objects, nested up to six deep")
