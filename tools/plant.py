#!/usr/bin/env python3
"""Tries planted bugs (seeded/<id>) in scratch copies, never in /repo.

  plant.py [--slot N] [--no-tests] [--no-demo] [--no-check] [--checks R01,G02] ID...

For each: applies the patch to a scratch copy of /repo, runs the repository's tests there (all stable ones
must pass), runs demo.sh there without (0 wanted) and with (nonzero wanted) the patch, and runs the
check of its property from a scratch copy of /verif against the patched tree."""
import argparse, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0", VERIF_SEED="1", VERIF_TIER="quick")


def sh(cmd, cwd, timeout=1200, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)


def fresh(slot):
    repo = slot + "/repo"
    sh("rm -rf %s && mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q" % (repo, repo, repo, repo), "/tmp")
    os.makedirs(repo + "/tests/output", exist_ok=True)
    return repo


def tests(slot, repo):
    """The repository's tests on a copy of the tree with the manifest /opt/vp/mkws.py would make."""
    ws = slot + "/ws"
    sh("mkdir -p %s && rsync -a --checksum --delete --exclude .git --exclude target %s/ %s/ || (rm -rf %s/src; cp -r %s/. %s/)" % (ws, repo, ws, ws, repo, ws), "/tmp")
    t = open(repo + "/Cargo.toml").read()
    t = re.sub(r"(?m)^oidn\s*=\s*\{[^}\n]*\bgit\b[^}\n]*\}[ \t]*\n?", "", t)
    t = re.sub(r'"dep:oidn"\s*,?\s*', "", t)
    open(ws + "/Cargo.toml", "w").write(t)
    log = slot + "/test.log"
    env = dict(ENV, CARGO_TARGET_DIR=slot + "/target")
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s 2>&1" % log, ws, env=env)
    sh("python3 /opt/vp/results.py %s/t.json cargo:%s" % (slot, log), ws)
    r = json.load(open(slot + "/t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(r["passed"]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--slot", default="0")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-demo", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--checks")
    ap.add_argument("ids", nargs="+")
    a = ap.parse_args()
    slot = "/tmp/plant" + a.slot
    os.makedirs(slot, exist_ok=True)
    ENV["DEMO_TARGET"] = slot + "/demo-target"  # keeps the dependencies built
    if not a.no_check:
        sh("mkdir -p %s/verif && cd /verif && for d in check.py checks harness specs stubs tools known_findings.txt properties.jsonl; do rm -rf %s/verif/$d; cp -r $d %s/verif/; done" % (slot, slot, slot), "/tmp")
    for pid in a.ids:
        d = os.path.join(VERIF, "seeded", pid)
        meta = json.load(open(d + "/meta.json"))
        repo = fresh(slot)
        say = lambda *x: print("%-28s" % pid, *x, flush=True)
        if not a.no_demo:
            t = time.time(); rc, out = sh("bash %s/demo.sh" % d, repo, 400)
            say("demo clean  ", "ok" if rc == 0 else "WRONG rc=%d" % rc, "%.0fs" % (time.time() - t))
            if rc: print(out[-1500:])
        rc, out = sh("git apply %s/patch.diff" % d, repo)
        if rc:
            say("PATCH DOES NOT APPLY", out); continue
        if not a.no_demo:
            t = time.time(); rc, out = sh("bash %s/demo.sh" % d, repo, 400)
            say("demo patched", "WRONG rc=0" if rc == 0 else "ok rc=%d" % rc, "%.0fs" % (time.time() - t), out.strip().splitlines()[-1:] )
            if rc == 101 and "error" in out and "could not compile" in out: print(out[-3000:])
        if not a.no_tests:
            lost = tests(slot, repo)
            say("tests       ", "ok" if not lost else "LOST %d: %s" % (len(lost), lost[:3]))
        if not a.no_check:
            for c in (a.checks.split(",") if a.checks else [meta["property"]]):
                t = time.time()
                env = dict(ENV, VERIF_REPO=repo)
                rc, out = sh("./check.py " + c, slot + "/verif", 900, env)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                say("check", c, "    ", "CAUGHT" if rc == 1 and v else "MISSED" if rc == 0 else "NO ANSWER rc=%d %s" % (rc, out[-500:]),
                    "%.0fs" % (time.time() - t))


if __name__ == "__main__":
    main()
