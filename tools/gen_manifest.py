"""Writes MANIFEST.json: one check for every property that has a module in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts TLC, the recorder, and (where named in the evidence) its tolerances; the specification is model checked within the bounds given in its cfg."
NOTE = {
    "R01": "Session.tla model checked for all configurations up to N=3 (thorough 4); real renders recorded and validated as behaviours of it by TLC.",
    "R02": "Render.tla (workers, locks, buffers) model checked; all row finishing orders up to 5 rows and 4 workers enumerated by TLC and replayed on the real renderer; every byte of every image recomputed by TLC.",
    "R03": "Session.tla model checked; recorded renders with chosen sample durations validated against it; decisions on constructed clocks.",
    "R04": "Session.tla model checked; every abort moment enumerated by TLC up to N=4, replayed on the real renderer, recorded renders validated.",
    "R05": "Session.tla model checked; every moment of losing the consumer enumerated by TLC up to N=4 and replayed; failing post processors through a stand-in denoiser.",
    "R09": "Pair.tla (renders side by side on shared or own memory) model checked; all interleavings of two and three short renders with an abort or loss enumerated by TLC, replayed on the real renderers and judged by TLC.",
    "R06": "Render.tla model checked with post processor chains; every image recomputed by TLC from the sums; auxiliary buffers recorded by a stand-in denoiser.",
}
NA = {"Q01": "a statement about a limit: no finite set of recorded behaviours can contradict or confirm it, and the reference solution is not computable by a finite-state specification; its finite ingredients are R02, R07, M01-M04"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % i,
                       "technique": "TLA+ specification checked with TLC; traces of the real code validated against it by TLC",
                       "level": "model_checking", "level_note": NOTE.get(i, "") + (" " if i in NOTE else "") + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/mkws.py", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; no hooks in /repo: the observation points are the public API, stand-ins of two dependencies (stubs/) and the random draws"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
