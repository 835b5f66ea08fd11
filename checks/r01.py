"""R01: the progress stream."""
from checks.sessions import *


def gen(c):
    rng, out = c.rng, []
    for n in list(range(0, 13)) * c.n(4, 40):
        s = chain(rng, base(rng, n, rng.choice(["every", "final", {"interval": rng.choice([0, 500, 3000, 10**7])}])))
        k = rng.random()
        if k < 0.25:
            s["before"] = ["hangup"]           # nobody can abort any more
        elif k < 0.45 and n:
            moment(s, rng.choice(["first", "middle", "last", "report"]), rng.randint(1, n), "hangup")
        s["lazy"] = rng.random() < 0.25
        out.append(s)
    for n in (40, 100, 255, 256, 257, 400):
        out.append(base(rng, n, "final", w=1, h=rng.choice([1, 2]), world="light", limit_ms=60000))
    # slow samples: the figures have to be right
    for _ in range(c.n(12, 60)):
        n = rng.randint(2, 5)
        s = base(rng, n, rng.choice(["every", "final"]))
        s["at"] = [[m, rng.choice([1, 0, -1]), {"sleep": rng.choice([5000, 20000, 60000])}] for m in range(1, n + 1) if rng.random() < 0.8]
        out.append(s)
    return out


def corrupt(evs):
    out = []
    for e in evs:
        r = reports(e["log"])
        if len(r) < 3 or len(out) > 60:
            continue

        def drop(log, x): del log[r[1]]; renumber(log)
        def dup(log, x): log.insert(r[1], dict(log[r[1]])); renumber(log)
        def swap(log, x): log[r[0]]["p"], log[r[1]]["p"] = log[r[1]]["p"], log[r[0]]["p"]
        def err(log, x):
            for y in log:
                if y["a"] == "return": y["r"] = "err"
        def noimg(log, x): log[r[-1]]["image"] = False
        def undone(log, x): log[r[-1]]["done"] = False
        def left(log, x): log[r[-1]]["left"] = 5
        def off(log, x): log[r[1]]["p"] += 1000
        def speed(log, x): log[r[0]]["e1"] = 2 * log[r[0]]["e1"] + 1000000
        def eta(log, x): log[r[0]]["e2"] += 1000000
        def more(log, x): x["n"] -= 1
        def fewer(log, x): x["n"] += 1
        out += [mutate(e, f) for f in (drop, dup, swap, err, noimg, undone, left, off, speed, eta, more, fewer)]
    return out


def classes(e, case):
    n = e["n"]
    yield "n=0" if n == 0 else "n=1" if n == 1 else "n<40" if n < 40 else "long"
    yield "threads=%s" % ("1" if case["threads"] == 1 else "many")
    if "hangup" in str(case.get("before")) + str(case.get("at")) + str(case.get("onreport")):
        yield "abort channel closed"
    if case.get("lazy"):
        yield "lazy consumer"
    if "sleep" in str(case.get("at")):
        yield "slow samples"
    if e["log"][-1]["a"] == "return" or any(x["a"] == "return" for x in e["log"]):
        yield "returned"


def run(c):
    exe = c.build()
    c.model("MC_Session", c.n("MC_Session.cfg", "MC_Session_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.sessions("T_Session", "T_Session_R01.cfg", evs, cases, classes,
               ("n=0", "n=1", "long", "abort channel closed", "lazy consumer", "slow samples", "threads=1", "threads=many"))
    # more samples than eight, sixteen, ... bits count
    lcases = [dict(base(c.rng, n, strat, threads=2), cmd="long", w=1, h=1, limit_ms=200000)
              for n, strat in [(1000, "every"), (65536, "final"), (70000, c.rng.choice(["every", {"interval": 3600 * 10**9}, "final"]))] + c.n([], [(300000, "final"), (2**24 + 3, "final")])]
    levs = c.record(lcases, exe)
    c.judge("T_Strategy", levs, lcases, lambda e: "very long" if e["ev"] == "long" and e["n"] > 65535 else e["ev"], ("long", "very long"))
    if not c.violations:
        c.negatives("T_Strategy", [(dict(e, **x), None) for e in levs for x in
                    (dict(reports=e["n"] - 1), dict(wrong=[7]), dict(p=999999), dict(left=1), dict(final=0), dict(r="err"), dict(shown=0), dict(shown=2, first=2))])
    if not c.violations:
        c.session_negatives("T_Session", "T_Session_R01.cfg", corrupt(evs))
    return c.finish("each recorded render (draws, reports, outcome) has to be a behaviour of Session.tla; "
                    "renders of up to 70000 samples are summarised; progress and time figures are judged against the observed times")
