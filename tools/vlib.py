"""Common machinery of the checks: build the recorder from /repo's working tree, run TLC on
design specifications, record executions of the real code, have TLC validate the traces."""
import json, os, random, re, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkws

# tools/mutate.py: recorded behaviour only, without the design models and the corrupted events
FAST = bool(os.environ.get("VERIF_FAST"))


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.validated = self.corrupted = 0
        self.models = []
        self.samples = []
        self.classes = {}
        self.violations = []      # (what, replay object)
        self.known = []
        self.assumptions = []
        self.nfiles = 0
        self._depth = 0
        self.explored = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ building
    def build(self, oidn=False):
        mkws.main()
        td = os.path.join(BUILD, "target-oidn" if oidn else "target")
        cmd = ["cargo", "build", "--offline", "--release", "-q"] + (["--features", "oidn"] if oidn else [])
        env = {"CARGO_TARGET_DIR": td, "RUSTFLAGS": "-Awarnings", "CARGO_TERM_COLOR": "never"}
        r = sh(cmd, 800, env, os.path.join(VERIF, "harness"))
        if r.returncode != 0:
            raise ToolError("building the recorder failed:\n" + r.stdout[-4000:])
        self.log("recorder built" + (" (denoiser feature)" if oidn else ""))
        return os.path.join(td, "release", "harness")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=800, workers=8, extra=()):
        meta = os.path.join(self.dir, "tlc-%s-%d" % (module, self.nfiles))
        self.nfiles += 1
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            # recursive operators go as deep as the recorded lists are long
            r = sh(cmd, timeout, dict(env or {}, JDK_JAVA_OPTIONS="-Xss256m"), SPECS)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s (%s)" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(x for x in r.stdout.splitlines() if not x.startswith(("NOTE: Picked up", "Parsing file", "Semantic proc", "Linting of")))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out, gen, dist

    def model(self, module, cfg=None, timeout=800, env=None, violated=None, extra=()):
        """Checks a design specification; `violated`: the property a deliberately broken variant
        has to be found to violate (a check that the property is not vacuous)."""
        cfg = cfg or module + ".cfg"
        if FAST and (violated is not None or module.startswith("MC_") and not cfg.startswith("Scen_")) and not (env and "VERIF_OUT" in env):
            return ""
        rc, out, gen, dist = self.tlc(module, cfg, env, timeout, extra=extra)
        if violated is None:
            if rc != 0 or gen == 0:
                raise ToolError("design specification %s (%s) does not check:\n%s" % (module, cfg, out[-3000:]))
        elif rc == 0 or violated not in out:
            raise ToolError("broken variant %s (%s) is not found to violate %s:\n%s" % (module, cfg, violated, out[-2000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "states": dist, "transitions": gen,
                            **({"expected_violation": violated} if violated else {})})
        self.log("TLC %s %s: %d states, %d transitions%s" % (module, cfg, dist, gen, " (violates %s, as it must)" % violated if violated else ""))
        return out

    def enumerate(self, module, cfg=None, timeout=600, env=None):
        """Cases enumerated by TLC: the specification writes them to the file VERIF_OUT."""
        path = os.path.join(self.dir, "enum-%s-%d.ndjson" % (module, self.nfiles))
        e = {"VERIF_OUT": path}
        e.update(env or {})
        self.model(module, cfg, timeout, e)
        cases = [json.loads(x) for x in open(path)]
        self.log("%d cases enumerated by TLC from %s" % (len(cases), module))
        return cases

    # ------------------------------------------------------------------ recording
    def record(self, cases, exe, limit_ms=60000, timeout=700, env=None):
        """Runs the cases in the real code; returns the events.  A crash or hang of the process
        becomes an event of the case in progress, and recording resumes after it."""
        events, base = [], 0
        todo = list(cases)
        crashes = 0
        t_end = time.time() + timeout
        while todo:
            inp = os.path.join(self.dir, "cases-%d.ndjson" % self.nfiles)
            outp = os.path.join(self.dir, "events-%d.ndjson" % self.nfiles)
            self.nfiles += 1
            with open(inp, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            try:
                r = sh([exe, inp, outp, str(limit_ms)], max(10, t_end - time.time()), env, self.dir)
            except subprocess.TimeoutExpired:
                if crashes:
                    break
                raise ToolError("the recorder did not finish in time")
            evs = [json.loads(x) for x in open(outp) if x.endswith("\n")] if os.path.exists(outp) else []
            if r.returncode == 0:
                events += self._place(evs, base)
                break
            if r.returncode == 3:
                raise ToolError("recorder failed:\n" + r.stdout[-3000:])
            if r.returncode == 97:
                bad = json.loads(open(outp + ".hang").read())
                k = bad["case"]
                del bad["case"]
            elif r.returncode < 0 or r.returncode in (101, 134, 139):
                # find the culprit: rerun one by one from the last known progress
                k0 = int(open(outp + ".progress").read()) if os.path.exists(outp + ".progress") else 0
                k = self._culprit(todo, k0, exe, limit_ms, env)
                if k is None:
                    raise ToolError("recorder died (%d) and the case cannot be isolated:\n%s" % (r.returncode, r.stdout[-2000:]))
                bad = {"ev": "crash", "rc": r.returncode}
            else:
                raise ToolError("recorder failed (%d):\n%s" % (r.returncode, r.stdout[-3000:]))
            crashes += 1
            # rerun the cases before the culprit, to have all of their events
            if k > 0:
                evs = self.record(todo[:k], exe, limit_ms, max(10, t_end - time.time()), env)
                for e in evs:
                    e["case"] += base
                events += evs
            events.append(dict(bad, case=base + k))
            todo = todo[k + 1:]
            base += k + 1
            if crashes >= 3:
                # these are violations in any case; the rest need not be waited for
                self.log("%d crashes or hangs, %d cases not recorded" % (crashes, len(todo)))
                break
        return events

    @staticmethod
    def _place(evs, base):
        for e in evs:
            e["case"] += base
        return evs

    def _culprit(self, todo, k0, exe, limit_ms, env):
        for k in range(k0, min(len(todo), k0 + 64)):
            inp, outp = os.path.join(self.dir, "one.ndjson"), os.path.join(self.dir, "one.out")
            open(inp, "w").write(json.dumps(todo[k]) + "\n")
            r = sh([exe, inp, outp, str(limit_ms)], 120, env, self.dir)
            if r.returncode not in (0, 3):
                return k
        return None

    # ------------------------------------------------------------------ validating
    def _validate(self, module, events, timeout=800, cfg=None):
        if not events:
            return {}
        path = os.path.join(self.dir, "trace-%d.ndjson" % self.nfiles)
        self.nfiles += 1
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist = self.tlc(module, cfg, {"VERIF_TRACE": path}, timeout)
        broken = None
        if rc != 0 or dist < len(events):
            # values so far off that the specification cannot even be evaluated for them
            m = re.search(r"(.*)Error: The error occurred when TLC was evaluating", out, re.S)
            at = re.findall(r"/\\ l = (\d+)", m.group(1)) if m else []
            if not at or not re.search("overflow|Overflow|attempted|Attempted|domain|evaluat", out):
                raise ToolError("trace validation with %s broke down:\n%s" % (module, out[-3000:]))
            broken = int(at[-1]) - 1
            self.log("TLC %s: event %d cannot be evaluated" % (module, broken))
        self.states += dist
        self.transitions += gen
        rej = {}
        for i, cl in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
            rej[int(i) - 1] = sorted(set(re.findall(r'"([^"]*)"', cl)))
        if out.count('"REJECT"') < len(rej):
            raise ToolError("cannot read TLC's verdicts")
        if broken is not None:
            rej[broken] = ["beyond-the-specification"]
            if self._depth < 3:
                self._depth += 1
                rest = [i for i in range(len(events)) if i not in rej]
                sub = self._validate(module, [events[i] for i in rest], timeout, cfg)
                self._depth -= 1
                for k, v in sub.items():
                    rej[rest[k]] = v
        return rej

    def judge(self, module, events, cases, cls=None, need=(), timeout=800, cfg=None):
        """TLC validates recorded events; every rejected one is a violation.  `cls` names the
        class of an event; the classes in `need` must have occurred (vacuity)."""
        rej = self._validate(module, events, timeout, cfg)
        self.validated += len(events)
        here = {}
        for e in events:
            k = cls(e) if cls else e["ev"]
            if k is not None:
                here[k] = here.get(k, 0) + 1
        for k, v in here.items():
            self.classes[k] = self.classes.get(k, 0) + v
        if not rej:
            for k in need:
                if here.get(k, 0) == 0:
                    raise ToolError("no event of class %s was recorded (vacuous)" % k)
        for i, cl in sorted(rej.items()):
            e = events[i]
            self.violation("%s: %s" % (module, ", ".join(cl)), cl, e, cases[e["case"]] if 0 <= e.get("case", -1) < len(cases) else None)
        if events and len(self.samples) < 6:
            ok = [i for i in range(len(events)) if i not in rej]
            for i in ok[:1] + ok[-1:]:
                self.samples.append({"module": module, "event": clip(events[i])})
        self.log("TLC %s: %d events validated, %d rejected %s" % (module, len(events), len(rej), json.dumps(here, sort_keys=True)))
        return rej

    def negatives(self, module, corrupted, timeout=600, cfg=None):
        """Corrupted events must all be rejected: (event, expected clause or None)."""
        if not corrupted:
            raise ToolError("no corrupted events for %s" % module)
        if FAST:
            return
        rej = self._validate(module, [e for e, _ in corrupted], timeout, cfg)
        for i, (e, want) in enumerate(corrupted):
            if i not in rej or (want is not None and want not in rej[i] and rej[i] != ["beyond-the-specification"]):
                raise ToolError("the trace specification %s accepts a corrupted event (%s): %s" % (module, want, json.dumps(e)[:600]))
        self.corrupted += len(corrupted)
        self.log("TLC %s: %d corrupted events, all rejected" % (module, len(corrupted)))

    def _sessions(self, module, cfg, sess, timeout):
        path = os.path.join(self.dir, "sessions-%d.ndjson" % self.nfiles)
        self.nfiles += 1
        with open(path, "w") as f:
            for s in sess:
                f.write(json.dumps(s) + "\n")
        rc, out, gen, dist = self.tlc(module, cfg, {"VERIF_TRACE": path}, timeout)
        if rc != 0 or dist < len(sess):
            raise ToolError("trace validation with %s broke down:\n%s" % (module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        acc = {int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
        at = {}
        for s, l in re.findall(r'<<"AT", (\d+), (\d+)>>', out):
            at[int(s) - 1] = max(at.get(int(s) - 1, 0), int(l))
        return acc, at

    def sessions(self, module, cfg, events, cases, cls=None, need=(), timeout=800):
        """TLC validates recorded sessions: each has to be a behaviour of the specification."""
        sess, idx = [], []
        for e in events:
            if e["ev"] == "session":
                sess.append(e)
                idx.append(e)
            else:
                self.violation("%s: %s" % (module, e["ev"]), [e["ev"]], e, cases[e["case"]])
        acc, at = self._sessions(module, cfg, sess, timeout) if sess else (set(), {})
        self.validated += len(sess)
        here = {}
        for e in sess:
            for k in (cls(e, cases[e["case"]]) if cls else ["session"]):
                here[k] = here.get(k, 0) + 1
        for k, v in here.items():
            self.classes[k] = self.classes.get(k, 0) + v
        bad = [i for i in range(len(sess)) if i not in acc]
        if not bad and not self.violations:
            for k in need:
                if here.get(k, 0) == 0:
                    raise ToolError("no session of class %s was recorded (vacuous)" % k)
        for i in bad:
            l = at.get(i, 0)
            log = sess[i]["log"]
            what = "after line %d: %s" % (l, json.dumps(log[l]) if l < len(log) else "end of log")
            self.violation("%s: no behaviour of the specification, %s" % (module, what), ["not-a-behaviour"], sess[i], cases[sess[i]["case"]])
        ok = [e for i, e in enumerate(sess) if i in acc]
        for e in ok[:1] + ok[-1:]:
            self.samples.append({"module": module, "event": clip(e)})
        self.log("TLC %s %s: %d sessions validated, %d rejected %s" % (module, cfg, len(sess), len(bad), json.dumps(here, sort_keys=True)))
        return bad

    def session_negatives(self, module, cfg, corrupted, timeout=600):
        """Corrupted sessions must all be rejected."""
        if not corrupted:
            raise ToolError("no corrupted sessions")
        if FAST:
            return
        acc, _ = self._sessions(module, cfg, corrupted, timeout)
        if acc:
            raise ToolError("%s accepts a corrupted session: %s" % (module, json.dumps(corrupted[min(acc)])[:1500]))
        self.corrupted += len(corrupted)
        self.log("TLC %s %s: %d corrupted sessions, all rejected" % (module, cfg, len(corrupted)))

    # ------------------------------------------------------------------ verdict
    def violation(self, what, clauses, event, case):
        label = (case or {}).get("label")
        for k in known_findings(self.id):
            if label is not None and label == k["label"] and set(clauses) <= set(k["clauses"]):
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((what, {"property": self.id, "what": what, "clauses": clauses, "event": event, "case": case}))

    def finish(self, note="", exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "corrupted_events_rejected": self.corrupted,
               "models": self.models, "event_classes": self.classes,
               "samples": self.samples[:6] or [{"note": "no accepted event"}]}
        cov.update(self.explored)
        if note:
            cov["rule"] = note
        ev = {"property": self.id, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        if self.violations:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.id)
            with open(path, "w") as f:
                json.dump([v for _, v in self.violations[:50]], f, indent=1)
            for w, v in self.violations[:5]:
                print("violated: %s  event: %s" % (w, json.dumps(v["event"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        self.log("done: %d violations" % len(self.violations))
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def clip(e):
    s = json.dumps(e)
    return e if len(s) < 1500 else s[:1500] + "..."


def known_findings(pid):
    """known_findings.txt: 'finding: property=<id> label=<case label> clauses=<a,b> <what>' lines
    are suppressed for exactly that case; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) label=(\S+) clauses=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"label": m.group(2), "clauses": m.group(3).split(","), "what": m.group(4)})
    return out


def main(pid, fn):
    c = Check(pid)
    try:
        rc = fn(c)
    except ToolError as e:
        if c.violations:   # what was found before the breakdown stands
            c.log("tool error after violations were found: %s" % e)
            rc = c.finish()
        else:
            print("ERROR of the check %s: %s" % (pid, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(rc)
