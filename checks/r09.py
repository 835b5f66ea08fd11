"""R09: renders in one process do not influence each other."""
import copy, json, re
from checks.r02 import level, colour
from checks import r06

STRAT = {"every": "every", "final": "final", "rarely": {"interval": 2000000000}}


def mean(rng, n):
    """a pixel of two cells or a row of pixels of one"""
    w, S = rng.choice([(1, 2), (1, 3), (2, 1), (3, 1), (5, 1)])
    gain = [rng.choice([1, 2, 3, 5]) for _ in range(S)]
    cols = [[gain[s] * colour(p, s, S, k) for k in (1, 2, 3)] for p in range(w) for s in range(S)]
    return {"kind": "mean", "w": w, "h": 1, "n": n, "S": S, "dir": "u", "colors": cols, "gain": gain, "chain": [], "links": [],
            "subs": [rng.randrange(S) for _ in range(n)] if S > 1 else None, "bg": [0, 0, 0]}


def chain(rng, n):
    w = rng.choice([3, 4, 5, 7])
    links = [["bloom", rng.choice([500, 20000, 40000]), rng.choice([5000, 65536]), rng.randint(1, (w - 1) // 2)]]
    if rng.random() < 0.5:
        links.insert(0, r06.link(rng))
    x = r06.case(rng, w, 1, n, 1, links)
    x["miss"] = [i for i in range(w) if rng.random() < 0.5]
    return x


def config(rng, cfg):
    x = (chain if rng.random() < 0.3 else mean)(rng, cfg["n"])
    x["strat"], x["policy"] = STRAT[cfg["strat"]], cfg["strat"]
    return x


def case(rng, cfgs, sched, serial):
    rs = []
    for i, k in enumerate(cfgs):
        # the renderer of an earlier render that is to do the same
        of = [j for j in range(i) if cfgs[j] == k and rs[j]["of"] == j + 1]
        if of and rng.random() < 0.7:
            x = copy.deepcopy(rs[rng.choice(of)])
        else:
            x = config(rng, k)
            x["of"] = i + 1
        rs.append(x)
    return {"cmd": "pair", "renders": rs, "sched": sched, "serial": serial, "threads": rng.choice([1, 2, 3]) if serial else rng.choice([2, 3, 4]),
            "risky": True, "limit_ms": 60000}


def schedules(c):
    out = []
    for cfg in ["Scen_Pair.cfg"] + (["Scen_Pair_thorough.cfg"] if c.thorough else []):
        txt = c.model("MC_Pair", cfg)
        for m in re.findall(r'^"SCHED (.*)"$', txt, re.M):
            x = json.loads(m.replace('\\"', '"'))
            out.append((x["c"], x["h"]))
    out.sort(key=lambda x: json.dumps(x))
    c.log("%d schedules enumerated by TLC" % len(out))
    c.explored["schedules_enumerated"] = len(out)
    return out


def consecutive(h):
    rs = [r for r, _ in h]
    return rs == sorted(rs)


def gen(c):
    rng = c.rng
    all_ = schedules(c)
    serial = [x for x in all_ if consecutive(x[1])]
    rng.shuffle(all_)
    # configurations that are alike can share a renderer
    alike = [x for x in all_ if x[0][0] == x[0][-1]]
    unlike = [x for x in all_ if x[0][0] != x[0][-1]]
    out = []
    pure = [x for x in all_ if all(a == "go" for _, a in x[1])]
    for cfgs, h in pure[:c.n(500, len(all_))] + alike[:c.n(500, len(all_))] + unlike[:c.n(600, len(all_))]:
        out.append(case(rng, cfgs, h, False))
    for cfgs, h in serial * c.n(1, 4):
        out.append(case(rng, cfgs, h, True))
    # longer series on one thread
    for _ in range(c.n(60, 600)):
        kinds = [{"n": rng.choice([0, 1, 2, 3, 5]), "strat": rng.choice(["every", "final", "rarely"])} for _ in range(rng.choice([2, 3]))]
        cfgs = [rng.choice(kinds) for _ in range(rng.randint(3, 6))]
        h = []
        for i, k in enumerate(cfgs):
            a = ["go"] * (2 * k["n"] + 1)
            if rng.random() < 0.5:
                a.insert(rng.randrange(len(a)), rng.choice(["abort", "drop"]))
            h += [[i + 1, x] for x in a]
        out.append(case(rng, cfgs, h, True))
    c.explored["schedules_replayed"] = len(out)
    return out


def corrupt(evs):
    out = []
    for e in evs:
        if e["ev"] != "renders" or len(out) > 150:
            continue
        for i, r in enumerate(e["renders"]):
            def put(**kw):
                x = copy.deepcopy(e)
                x["renders"][i].update(copy.deepcopy(kw))
                return x
            out.append((put(res={"ok": "err", "err": "ok"}.get(r["res"], "ok")), "outcome"))
            if r["reps"]:
                out.append((put(reps=r["reps"][:-1]), "reports"))
                out.append((put(reps=r["reps"] + r["reps"][-1:]), "reports"))
            for j, p in enumerate(r["reps"]):
                lit = [k for k, v in enumerate(p["img"]["px"]) if 8 < v < 250] if p["image"] else []
                if lit:
                    px = list(p["img"]["px"])
                    px[lit[0]] += 6
                    out.append((put(reps=r["reps"][:j] + [dict(p, img=dict(p["img"], px=px))] + r["reps"][j + 1:]), None))
                    # another render of this schedule is shown
                    other = [q["img"] for k, o in enumerate(e["renders"]) if o["of"] != r["of"] for q in o["reps"] if q["image"]]
                    if other and len(other[0]["px"]) != len(p["img"]["px"]):
                        o = other[0]
                        out.append((put(reps=r["reps"][:j] + [dict(p, img=dict(p["img"], px=o["px"], iw=o["iw"]))] + r["reps"][j + 1:]), "wrong-size"))
    return out


def classes(e):
    if e["ev"] != "renders":
        return e["ev"]
    shared = len({r["of"] for r in e["renders"]}) < len(e["renders"])
    acts = {a for _, a in e["sched"]} - {"go"}
    how = "one after the other" if e["serial"] else "in sequence on threads" if consecutive(e["sched"]) else "interleaved"
    return "%s, %s%s" % ("one renderer" if shared else "several renderers", how, ", " + "+".join(sorted(acts)) if acts and not e["serial"] else "")


def run(c):
    exe = c.build()
    c.model("MC_Pair", c.n("MC_Pair.cfg", "MC_Pair_thorough.cfg"))
    for v in ("sums", "stale", "row", "abort", "shown"):
        c.model("MC_Pair", "MC_Pair_%s.cfg" % v, violated="Independent")
    cases = gen(c)
    evs = c.record(cases, exe)
    need = ["%s, %s" % (a, b) for a in ("one renderer", "several renderers")
            for b in ("one after the other", "interleaved", "interleaved, abort", "interleaved, drop")]
    c.judge("T_Pair", evs, cases, classes, need)
    if not c.violations:
        c.negatives("T_Pair", corrupt(evs))
    c.assumptions += ["renders are interleaved at their random draws (two stops per sample), images are one row high"]
    return c.finish("interleavings of two and three renders, of one renderer or several, enumerated by TLC and replayed at the draws of the "
                    "real renders; every report, image and outcome is compared with what the render delivers on its own")
