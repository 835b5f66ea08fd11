"""R05: unusable input, lost consumers, failing post processors."""
from checks.sessions import *


def gen(c):
    rng, out = c.rng, []
    # the consumer goes away, at every moment
    for s in c.enumerate("Scen_Session", "Scen_Session_drop.cfg"):
        for rep in range(c.n(1, 6)):
            strat = {"interval": rng.choice([0, 1000, 10**8])} if s["strat"] == "interval" else s["strat"]
            x = chain(rng, base(rng, s["n"], strat))
            x["lazy"] = rng.random() < 0.15 and s["when"] != "report"
            out.append(moment(x, s["when"], s["m"], "drop"))
    for _ in range(c.n(40, 400)):
        x = chain(rng, base(rng, rng.randint(5, 60), rng.choice(["every", "final", {"interval": 500}])))
        x["timed"] = [[rng.randint(0, 4000), "drop"]]
        out.append(x)
    for _ in range(c.n(5, 25)):      # a long render ends, too
        x = base(rng, 4000000, rng.choice(["every", "final"]), limit_ms=60000)
        out.append(moment(x, rng.choice(["first", "last", "report"]), rng.randint(1, 20), "drop"))
    out += while_processing(rng, c.n(20, 150), "drop")
    # no light
    for w in ("dark", "empty", "fog"):
        for n in (0, 1, 2, 5):
            for strat in ("every", "final"):
                x = base(rng, n, strat, world=w, lights=False)
                out.append(x)
                if rng.random() < 0.5:
                    out.append(moment(dict(x), "before", 0, rng.choice(["abort", "drop", "hangup"])))
    # failing post processors, at every place of the chain
    for k in range(1, 5):
        for bad in range(k):
            for strat in ("every", "final", {"interval": 10**8}):
                for n in (1, 2, 4):
                    x = base(rng, n, strat)
                    ch, oc = [rng.choice(["nop", {"k": 0.2, "thr": 0.3}]) for _ in range(k)], ["ok"] * k
                    if bad < k - 1:   # the denoiser cannot be an intermediate step
                        ch[bad], oc[bad] = "oidn", "fail"
                    else:
                        ch[bad], oc[bad] = "oidn", "fail"
                        x["denoiser"] = rng.choice([1, 2])
                        x["expect_msg"] = "stand-in device error" if x["denoiser"] == 1 else ""
                    x["chain"], x["outcomes"] = ch, oc
                    out.append(x)
    for n in (1, 3):                  # a denoiser that works
        x = base(rng, n, "every")
        x["chain"], x["outcomes"] = ["nop", "oidn"], ["ok", "ok"]
        out.append(x)
    return out


def blooms(c):
    rng = c.rng
    ks = [0, 0.5, -0.0, 0.25, 1e-300, 0.5 - 1e-16, 0.5 + 1e-9, 0.5000001, -1e-300, -1e-9, -0.1, 0.51, 1, 2, -1, 1e300, -1e300, "inf", "-inf", "nan", "-0", "max"]
    ks += [rng.uniform(-1, 2) for _ in range(c.n(100, 2000))]
    for i, k in enumerate(ks):
        v = 2 if k in ("nan",) else 0 if isinstance(k, (int, float)) and 0 <= k <= 0.5 or k == "-0" else 1
        yield {"cmd": "bloomnew", "k": k, "thr": rng.choice([None, 1.5, "nan"]), "max": rng.choice([None, 3, "inf"]), "valid": v == 0}


def corrupt(evs):
    out = []
    for e in evs:
        log = e["log"]
        ret = [i for i, x in enumerate(log) if x["a"] == "return"][0]
        dr = [i for i, x in enumerate(log) if x["a"] == "drop"]
        if len(out) > 100 or e["n"] > 1000:
            continue

        def flip(l, x): l[ret]["r"] = "ok" if l[ret]["r"] == "err" else "err"
        def panic(l, x): l[ret]["r"] = "panic"
        def hang(l, x): del l[ret]
        def wrong(l, x): l[ret]["msgok"] = False
        def on(l, x):
            d = sum(y["a"] == "started" for y in l)
            l[ret:ret] = [{"a": y, "m": d + i, "t": 0} for i in (1, 2) for y in ("started", "drawn")]
        early = dr and not any(x["a"] == "return" for x in log[:dr[0]])
        ab = any(x["a"] == "abort" for x in log)
        if not e["lights"]:
            def works(l, x): l[ret:ret] = [{"a": "started", "m": 1, "t": 0}]
            out += [mutate(e, f) for f in (flip, panic, hang, works)]
        elif "fail" in e["chain"] and not ab and not dr:
            out += [mutate(e, f) for f in (flip, panic, hang, wrong)]
        elif early and log[ret]["r"] == "err" and log[dr[0] - 1]["a"] in ("started", "drawn"):
            out += [mutate(e, f) for f in (flip, panic, hang)]
            if sum(y["a"] == "started" for y in log) + 2 <= e["n"]:
                out.append(mutate(e, on))
    return out


def classes(e, case):
    log = e["log"]
    dr = [i for i, x in enumerate(log) if x["a"] == "drop"]
    if not e["lights"]:
        yield "no light"
    if "fail" in e["chain"]:
        yield "failing " + ("last" if e["chain"][-1] == "fail" else "intermediate") + " post processor"
    if dr:
        if any(x["a"] == "denoise" for x in log[:dr[0]]):
            yield "consumer lost while post processing"
        yield "consumer lost" if any(x["a"] == "started" for x in log[:dr[0]]) else "consumer lost before the start"
        if e["n"] > 1000:
            yield "long"


def run(c):
    exe = c.build(oidn=True)
    c.model("MC_Session", c.n("MC_Session.cfg", "MC_Session_thorough.cfg"))
    bl = list(blooms(c))
    evs = c.record(bl, exe)
    c.judge("T_Construct", evs, bl, lambda e: e["ev"] if e["ev"] != "bloomnew" else "bloom %s" % ("accepted" if e["ok"] else "refused"),
            ("bloom accepted", "bloom refused"))
    if not c.violations:
        c.negatives("T_Construct", [(dict(e, ok=not e["ok"]), None) for e in evs[::5]])
    cases = gen(c)
    evs = c.record(cases, exe)
    c.sessions("T_Session", "T_Session_R05.cfg", evs, cases, classes,
               ("no light", "consumer lost while post processing", "failing last post processor", "failing intermediate post processor", "consumer lost", "long",
                "consumer lost before the start"))
    if not c.violations:
        c.session_negatives("T_Session", "T_Session_R05.cfg", corrupt(evs))
    c.assumptions += ["post processors fail through a stand-in of the denoiser library (the only one that can fail)"]
    return c.finish("TLC enumerates the moments at which the consumer goes away; these, scenes without light and failing post "
                    "processors are played against the real renderer and validated against Session.tla")
