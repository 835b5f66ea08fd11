"""R04: abort."""
from checks.sessions import *


def gen(c):
    rng, out = c.rng, []
    scen = c.enumerate("Scen_Session", "Scen_Session_abort.cfg")
    for s in scen:
        for rep in range(c.n(1, 6)):
            strat = {"interval": rng.choice([0, 1000, 10**8])} if s["strat"] == "interval" else s["strat"]
            x = chain(rng, base(rng, s["n"], strat))
            x["lazy"] = rng.random() < 0.15 and s["when"] != "report"
            moment(x, s["when"], s["m"], rng.choice(["abort", "abort", "abort-false"]))
            if rng.random() < 0.15:      # twice
                moment(x, s["when"], min(s["m"] + 1, s["n"]), "abort")
            out.append(x)
    # aborts at any other moment: between samples, while post processing
    for _ in range(c.n(60, 600)):
        n = rng.randint(5, 60)
        x = chain(rng, base(rng, n, rng.choice(["every", "final", {"interval": 500}])))
        if rng.random() < 0.5:
            x["w"], x["h"] = 12, 12
            x["chain"], x["outcomes"] = [{"k": 0.5, "thr": 0.1}] * 3, ["ok"] * 3
        x["timed"] = [[rng.randint(0, 4000), "abort"]]
        out.append(x)
    # a long render has to end soon: the remaining samples must not be computed
    for _ in range(c.n(6, 30)):
        m = rng.randint(1, 30)
        x = base(rng, 4000000, rng.choice(["every", "final"]), limit_ms=60000)
        out.append(moment(x, rng.choice(["first", "last", "report"]), m, "abort"))
    # an aborting side that goes away without a message does not abort
    for _ in range(c.n(8, 40)):
        n = rng.randint(1, 6)
        x = base(rng, n, "every")
        out.append(moment(x, rng.choice(["before", "first", "last"]), rng.randint(1, n), "hangup"))
    return out


def corrupt(evs):
    out = []
    for e in evs:
        log = e["log"]
        ab = [i for i, x in enumerate(log) if x["a"] == "abort"]
        if not ab or len(out) > 80 or e["n"] > 1000:
            continue
        a = ab[0]
        after = [x["a"] for x in log[a:]]
        started = [x["m"] for x in log[:a] if x["a"] == "started"]
        inside = started and not any(x["a"] == "report" and x["nr"] == started[-1] for x in log[:a])
        ret = [i for i, x in enumerate(log) if x["a"] == "return"][0]

        def err(l, x): l[ret]["r"] = "err"
        def panic(l, x): l[ret]["r"] = "panic"
        if "started" not in after:
            out += [mutate(e, err), mutate(e, panic)]
            done = len(started)
            if done < e["n"]:
                def one_more(l, x):
                    l[ret:ret] = [{"a": "started", "m": done + 1, "t": 0}, {"a": "drawn", "m": done + 1, "t": 0}]
                def two_more(l, x):
                    l[ret:ret] = [{"a": y, "m": done + i, "t": 0} for i in (1, 2) for y in ("started", "drawn")]
                if inside or a < 1:      # (between samples the next one may just have begun)
                    out.append(mutate(e, one_more))
                if done + 1 < e["n"]:
                    out.append(mutate(e, two_more))
        reps = [i for i, x in enumerate(log) if x["a"] == "report" and i > a]
        if inside and reps and not log[reps[-1]]["image"] and log[reps[-1]]["nr"] == started[-1]:
            def image(l, x): l[reps[-1]]["image"] = True
            out.append(mutate(e, image))
    return out


def classes(e, case):
    log = e["log"]
    ab = [i for i, x in enumerate(log) if x["a"] == "abort"]
    if not ab:
        yield "no abort"
        return
    a = ab[0]
    started = [x["m"] for x in log[:a] if x["a"] == "started"]
    if not started:
        yield "abort before the first sample"
    elif any(x["a"] == "report" and x["nr"] == started[-1] for x in log[:a]):
        yield "abort after a report"
    elif any(x["a"] == "return" for x in log[:a]):
        yield "abort after the end"
    else:
        yield "abort during a sample"
    if case.get("timed"):
        yield "abort at any time"
    if e["n"] > 1000:
        yield "long"
    if any(x["a"] == "report" for x in log[a:]):
        yield "report of the running sample"


def run(c):
    exe, exo = c.build(), c.build(oidn=True)
    c.model("MC_Session", c.n("MC_Session.cfg", "MC_Session_thorough.cfg"))
    cases = gen(c)
    evs = c.record(cases, exe)
    c.sessions("T_Session", "T_Session_R04.cfg", evs, cases, classes,
               ("abort before the first sample", "abort after a report", "abort during a sample", "abort at any time", "long",
                "report of the running sample", "no abort"))
    pcases = while_processing(c.rng, c.n(20, 150), "abort")
    pevs = c.record(pcases, exo)
    c.sessions("T_Session", "T_Session_R04.cfg", pevs, pcases, lambda e, case: ["abort while post processing"] if any(x["a"] == "abort" for x in e["log"]) else [], ("abort while post processing",))
    if not c.violations:
        c.session_negatives("T_Session", "T_Session_R04.cfg", corrupt(evs))
    return c.finish("TLC enumerates the moments of the abort; each is played against the real renderer (the abort is sent from within "
                    "the random draw that marks the moment); the recorded render has to be a behaviour of Session.tla")
