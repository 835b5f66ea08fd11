"""R03: which reports carry an image."""
from checks.sessions import *


def gen(c):
    rng, out = c.rng, []
    for n in list(range(1, 9)) * c.n(3, 20):
        for strat in ("every", "final"):
            out.append(chain(rng, base(rng, n, strat)))
        # durations that are over at once or never
        out.append(chain(rng, base(rng, n, {"interval": rng.choice([0, 10**9 * 3600])})))
    # samples that take longer and shorter than the duration, in any order
    for _ in range(c.n(40, 300)):
        n = rng.randint(2, 9)
        d = rng.choice([8000, 15000, 30000])
        s = base(rng, n, {"interval": d}, lazy=rng.random() < 0.2)
        s["at"] = [[m, rng.choice([1, 0, -1]), {"sleep": int(d * rng.choice([0.02, 0.3, 0.45, 0.45, 1.3, 2.2]))}] for m in range(1, n + 1)]
        out.append(s)
    # a configuration with nothing but defaults
    out.append(dict(base(rng, 50, "final", defaults=True), w=300, h=200, threads=8))
    return out


def slow_chains(c):
    """post processing that takes about as long as the interval"""
    rng, out = c.rng, []
    for _ in range(c.n(24, 200)):
        n = rng.randint(3, 9)
        d = rng.choice([8000, 15000])
        s = base(rng, n, {"interval": d}, lazy=rng.random() < 0.2, chain=["oidn"], outcomes=["ok"], slow=int(d * rng.choice([0.3, 0.7, 1.5])))
        if rng.random() < 0.5:
            s["chain"], s["outcomes"] = ["nop"] + s["chain"], ["ok", "ok"]
        s["at"] = [[m, rng.choice([1, 0, -1]), {"sleep": int(d * rng.choice([0.02, 0.3, 0.45, 0.45, 1.3]))}] for m in range(1, n + 1)]
        out.append(s)
    for strat in ("every", "final"):
        for n in (1, 2, 4):
            out.append(base(rng, n, strat, chain=["oidn"], outcomes=["ok"], slow=3000))
    return out


def decisions(c):
    rng, out = c.rng, []
    units = [1, 1000, 10**6, 10**9, 86400 * 10**9]
    for unit in units:
        for strat in ("every", "final", "interval"):
            for _ in range(c.n(60, 600)):
                n = rng.choice([1, 2, 3, 10, 2**31 - 1])
                k = rng.choice([1, n, max(1, n - 1), rng.randint(1, n)])
                last = rng.randint(-1000, 1000)
                d = rng.choice([0, 1, 2, 17, 500, 10**6, 1999999999])
                now = last + rng.choice([d, d + 1, d - 1, 0, -1, -d - 1, rng.randint(-1500, 1500)])
                out.append({"cmd": "decision", "unit": unit, "base": 1700000000, "strat": strat, "k": k, "n": n,
                            "now": now, "last": last, "d": d})
    # the first image of a render: nothing is older than 1970
    for d in (1, 1000, 15000):
        for k in (1, 2, 7):
            out.append({"cmd": "decision", "unit": 86400 * 10**9, "base": 0, "strat": "interval", "k": k, "n": 9,
                        "now": 20000, "last": 0, "d": d})
    return out


def corrupt(evs):
    out = []
    for e in evs:
        r = reports(e["log"])
        if len(r) < 2 or len(out) > 60:
            continue
        if e["strat"] != "interval" or e["d"] in (0, 10**9 * 3600):
            for i in ([r[0], r[-1]] if e["strat"] != "final" else [r[0], r[len(r) // 2], r[-1]]):
                def flip(log, x): log[i]["image"] = not log[i]["image"]
                out.append(mutate(e, flip))
            def dim(log, x): log[r[-1]]["dim"] = False
            out.append(mutate(e, dim))
        else:
            def none(log, x): log[r[0]]["image"] = False
            def last(log, x): log[r[-1]]["image"] = False
            def dlong(log, x): x["d"] = 2000000000
            def dshort(log, x): x["d"] = -1
            out += [mutate(e, none), mutate(e, last)]
            if sum(log_i["image"] for log_i in e["log"] if log_i["a"] == "report") > 2:
                out.append(mutate(e, dlong))
            if sum(log_i["image"] for log_i in e["log"] if log_i["a"] == "report") < len(r):
                out.append(mutate(e, dshort))
    return out


def classes(e, case):
    yield e["strat"]
    if case.get("defaults"):
        yield "defaults"
    if e["strat"] == "interval" and 0 < e["d"] < 10**9:
        im = [x["image"] for x in e["log"] if x["a"] == "report"]
        yield "interval, all" if all(im) else "interval, some between" if any(im[1:-1]) else "interval, none between"


def run(c):
    exe, exo = c.build(), c.build(oidn=True)
    c.model("MC_Session", c.n("MC_Session.cfg", "MC_Session_thorough.cfg"))
    dec = decisions(c)
    evs = c.record(dec, exe)
    c.judge("T_Strategy", evs, dec, lambda e: e["ev"] if e["ev"] != "decision" else "decision:%s:%s" % (e["strat"], e["got"]),
            ("decision:every:True", "decision:final:True", "decision:final:False", "decision:interval:True", "decision:interval:False"))
    if not c.violations:
        far = [e for e in evs if e["strat"] != "interval" or abs(max(e["now"] - e["last"], 0) - e["d"]) > 0]
        c.negatives("T_Strategy", [(dict(e, got=not e["got"]), None) for e in far[::25]])
    cases = gen(c)
    evs = c.record(cases, exe)
    c.sessions("T_Session", "T_Session_R03.cfg", evs, cases, classes,
               ("defaults", "every", "final", "interval", "interval, some between", "interval, none between"))
    scases = slow_chains(c)
    sevs = c.record(scases, exo)
    c.sessions("T_Session", "T_Session_R03.cfg", sevs, scases, lambda e, case: ["slow post processing"], ("slow post processing",))
    if not c.violations:
        c.session_negatives("T_Session", "T_Session_R03.cfg", corrupt(evs))
    c.assumptions += ["an interval decision is judged only where the observed times determine it (it falls between the sample's last draw and the next visible event)"]
    return c.finish("each recorded render has to be a behaviour of Session.tla in which the strategy decides at the observed times; "
                    "the strategy's decision function is replayed on constructed clocks")
