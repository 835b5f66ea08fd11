"""Whole renders played against the Session specification: R01, R03, R04, R05."""
import copy

SIZES = [[1, 1], [1, 4], [4, 1], [2, 3], [5, 2], [3, 7], [8, 8]]


def base(rng, n, strat="final", **kw):
    w, h = rng.choice(SIZES)
    c = {"cmd": "session", "w": w, "h": h, "n": n, "strat": strat, "world": "light", "lights": True,
         "threads": rng.choice([1, 1, 2, 3, 4, 8, 16]), "chain": [], "outcomes": [], "risky": True, "limit_ms": 40000}
    c.update(kw)
    return c


def chain(rng, c):
    """a chain of post processors that succeed"""
    k = rng.choice([0, 0, 1, 2, 3])
    c["chain"] = [rng.choice(["nop", {"k": 0.2, "thr": 0.3}, {"k": 0, "thr": 10}]) for _ in range(k)]
    c["outcomes"] = ["ok"] * k
    return c


def moment(c, when, m, act):
    """places an action of the caller at a moment of the session"""
    if when == "before":
        c["before"] = [act]
    elif when == "report":
        c["onreport"] = [[m, act]]
    else:
        c["at"] = c.get("at", []) + [[m, {"first": 1, "middle": 0, "last": -1}[when], act]]
    return c


def while_processing(rng, k, act):
    """something happens while an image is post processed"""
    out = []
    for _ in range(k):
        n = rng.randint(1, 5)
        x = base(rng, n, rng.choice(["every", "every", "final", {"interval": 0}]), chain=["nop"] * rng.choice([0, 0, 1]) + ["oidn"], slow=rng.choice([0, 500, 3000]))
        x["outcomes"] = ["ok"] * len(x["chain"])
        x["ondenoise"] = [[1 if x["strat"] == "final" else rng.randint(1, n), act]]
        out.append(x)
    return out


def mutate(s, f):
    x = copy.deepcopy(s)
    f(x["log"], x)
    return x


def reports(log):
    return [i for i, e in enumerate(log) if e["a"] == "report"]


def renumber(log):
    n = 0
    for e in log:
        if e["a"] == "report":
            n += 1
            e["nr"] = n
