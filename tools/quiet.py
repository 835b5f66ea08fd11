#!/usr/bin/env python3
"""Tries refactorings (refactors/<name>.diff, which keep the behaviour) in scratch copies: the tests must pass and
the checks must stay quiet.

  quiet.py [--slot N] [--no-tests] [--checks R01,G02] NAME..."""
import argparse, json, os, sys, time
import plant
from plant import sh, fresh, tests, ENV, VERIF

ap = argparse.ArgumentParser()
ap.add_argument("--slot", default="q")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--checks")
ap.add_argument("names", nargs="+")
a = ap.parse_args()
slot = "/tmp/plant" + a.slot
os.makedirs(slot, exist_ok=True)
sh("mkdir -p %s/verif && cd /verif && for d in check.py checks harness specs stubs tools known_findings.txt properties.jsonl; do rm -rf %s/verif/$d; cp -r $d %s/verif/; done" % (slot, slot, slot), "/tmp")
allc = a.checks.split(",") if a.checks else [c["property"] if "property" in c else c["id"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
for name in a.names:
    repo = fresh(slot)
    rc, out = sh("git apply %s/refactors/%s.diff" % (VERIF, name), repo)
    if rc:
        print(name, "PATCH DOES NOT APPLY", out); continue
    if not a.no_tests:
        lost = tests(slot, repo)
        print(name, "tests", "ok" if not lost else "LOST %d: %s" % (len(lost), lost[:3]), flush=True)
    for c in allc:
        t = time.time()
        rc, out = sh("./check.py " + c, slot + "/verif", 900, dict(ENV, VERIF_REPO=repo))
        print(name, c, "quiet" if rc == 0 else "ALARM rc=%d %s" % (rc, out[-700:]), "%.0fs" % (time.time() - t), flush=True)
