#!/usr/bin/env python3
"""Systematic small changes (operators, constants, conditions, dropped statements) of the library, one at a
time in a scratch copy: which of them no check reports although the repository's tests pass too.

  mutate.py [--slot N] [--seed S] [--count K] [--files a.rs,b.rs] [--list] [--only FILE:LINE:COL,..] [--out FILE]

A mutant that compiles is run against the checks of its file (without the design models and the corrupted
events: VERIF_FAST) until one reports it; if none does, the repository's tests are run.  A line is printed per mutant:
caught <check> / tests / SURVIVED / build (does not compile)."""
import argparse, json, os, random, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

CHECKS = {
    "camera.rs": "C01 R02", "pdf.rs": "M01 M04 M05 R07", "random.rs": "M05 M01 R02", "geo/mod.rs": "G02 G06 G01 G03 M04",
    "geo/transformation.rs": "G05 G02 M02", "geo/vec3.rs": "G06 M05 M03 G03 M04", "hittable/bvh.rs": "G01 G02 G04",
    "hittable/constant_medium.rs": "M02 G04", "hittable/mod.rs": "G04 G01 M02", "hittable/quad.rs": "G03 M01 G02 T03",
    "hittable/sphere.rs": "G03 M01 G02 T03", "hittable/triangle.rs": "G03 M01 G02 T03 L01", "loader/mod.rs": "L01 L02",
    "loader/obj.rs": "L01 L02", "material/mod.rs": "M03 M04 T03 R07 M02 L01", "material/texture.rs": "T01 T02 T03 L02",
    "post/bloom.rs": "P02 R06 R05", "post/mod.rs": "P01 R06 R05", "post/nop.rs": "P01 R06", "post/oidn.rs": "R06 R05",
    "renderer/mod.rs": "R02 R01 R06 R04 R03 R05 R09 R07", "renderer/shader.rs": "R07 R08 M04 R06",
    "util/gaussian.rs": "P02", "util/height_map.rs": "T02", "util/interval.rs": "G06 G02 G01", "util/mod.rs": "P02 T02", "util/rgb_color.rs": "P01 T01", "lib.rs": "R01",
}
# random numbers decide visibly, so order matters
SWAPS = [(r"(?<![<\-=])<=", ["<"]), (r"(?<![<>=\-&|+*/!])>=", [">"]), (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]),
         (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]),
         (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]),
         (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.sin\(", [".cos("]), (r"\.cos\(", [".sin("]), (r"\.floor\(", [".ceil("]), (r"\.abs\(\)", [""]), (r"\.neg\(\)", [""]), (r"\.unit\(\)", [""]), (r"\.sqrt\(\)", [""]),
         (r"(?<![\w.])0\.(?![\w.])", ["1.", "0.001"]), (r"(?<![\w.])1\.(?![\w.])", ["0.", "1.001", "2."]), (r"(?<![\w.])2\.(?![\w.])", ["1.", "3."]), (r"(?<![\w.])0\.5(?!\w)", ["0.49", "1."]),
         (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
         (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.z\b", [".x"]), (r"\bmin\b(?=[,;)\s])", ["max"]), (r"\bmax\b(?=[,;)\s])", ["min"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=if )(?=[a-z!(])", ["!"]), (r"(?<=[ (])!(?=[a-z(])", [""]), (r"(?<=[(\s,=])-(?=[a-z0-9(])", [""]),
         (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=\w)", ["..="]), (r"\bu\b", ["v"]), (r"\bv\b", ["u"]), (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]), (r"\bas f32\b", ["as i32 as f32"]),
         (r"\bINFINITY\b", ["MAX"]), (r"\bfirst\b", ["last"]), (r"\bfront_face\b", ["!front_face"]), (r"\btangent\b", ["bi_tangent"]), (r"\bis_empty\(\)", ["is_empty() == false"]),
         (r"(?m)^( {8,})([a-z_.\[\]\*]+ (=|\+=|-=) [^;\n]*;)$", [r"\1"]), (r"(?m)^( {8,})([a-z_]+\.[a-z_]+\([^;\n]*\);)$", [r"\1"])]


def masked(text):
    """the text with comments, strings, attributes and test modules blanked"""
    blank = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    i = text.find("#[cfg(test)]\nmod")
    if i >= 0:
        text = text[:i] + re.sub(r"[^\n]", " ", text[i:])
    text = re.sub(r"//[^\n]*", blank, text)
    text = re.sub(r'"(?:[^"\\\n]|\\.)*"', blank, text)
    text = re.sub(r"#\[[^\]]*\]", blank, text)
    text = re.sub(r"(?m)^(use|pub use|extern)\b[^;]*;", blank, text)
    return text


def mutants(repo, files):
    out = []
    for f in files:
        t = open(os.path.join(repo, "src", f)).read()
        m = masked(t)
        for pat, news in SWAPS:
            for x in re.finditer(pat, m):
                for n in news:
                    new = x.expand(n) if "\\1" in n else n
                    line = t.count("\n", 0, x.start()) + 1
                    out.append((f, x.start(), x.end(), new, line, t.splitlines()[line - 1].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--slot", default="m0")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--count", type=int, default=10)
    ap.add_argument("--files")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--part", default="0/1")
    ap.add_argument("--done", default="")
    a = ap.parse_args()
    slot = "/tmp/plant" + a.slot
    os.makedirs(slot, exist_ok=True)
    sh = plant.sh
    files = a.files.split(",") if a.files else sorted(CHECKS)
    repo = plant.fresh(slot)
    ms = mutants(repo, files)
    # as many from each file in proportion to the root of its size
    rng = random.Random(a.seed)
    rng.shuffle(ms)
    seen, order = {}, []
    for m in ms:
        seen[m[0]] = seen.get(m[0], 0) + 1
        order.append((seen[m[0]] ** 2 / sum(1 for x in ms if x[0] == m[0]), m))
    ms = [m for _, m in sorted(order)]
    done = set()
    for p in a.done.split(","):
        if p and os.path.exists(p):
            done |= {json.loads(l.split("\t")[1])[0] + str(json.loads(l.split("\t")[1])[1:]) for l in open(p) if l.startswith("M\t")}
    ms = [m for m in ms if m[0] + str([m[1], m[3]]) not in done][:a.count]
    i, k = (int(x) for x in a.part.split("/"))
    ms = ms[i::k]
    if a.list:
        print(len(ms))
        for m in ms:
            print(m[0], m[4], repr(m[3]), m[5])
        return
    sh("mkdir -p %s/verif && cd /verif && for d in check.py checks harness specs stubs tools known_findings.txt properties.jsonl; do rm -rf %s/verif/$d; cp -r $d %s/verif/; done" % (slot, slot, slot), "/tmp")
    for f, s, e, new, line, txt in ms:
        p = os.path.join(repo, "src", f)
        orig = open(p).read()
        t0 = time.time()
        what = ""
        try:
            open(p, "w").write(orig[:s] + new + orig[e:])
            verdict, tried = None, []
            for c in CHECKS[f].split():
                env = dict(plant.ENV, VERIF_REPO=repo, VERIF_FAST="1")
                rc, out = sh("./check.py " + c, slot + "/verif", 600, env)
                if rc == 1:
                    verdict = "caught " + c
                    break
                if rc == 2 and "building the recorder failed" in out:
                    verdict = "build"
                    break
                tried.append(c if rc == 0 else "%s(rc=%d)" % (c, rc))
                if rc:
                    what = out[-300:]
            if verdict is None:
                lost = plant.tests(slot, repo)
                verdict = "tests" if lost else "SURVIVED"
                what += " " + " ".join(tried)
        finally:
            open(p, "w").write(orig)
        ln = orig.rfind("\n", 0, s) + 1
        shown = (orig[ln:s] + "[[" + orig[s:e] + "=>" + new + "]]" + orig[e:orig.find("\n", e)]).strip()
        print("M\t%s\t%s\t%s:%d\t%s\t%s\t%.0fs" % (json.dumps([f, s, new]), verdict, f, line, shown[:200], what.replace("\n", " ")[:300], time.time() - t0), flush=True)


if __name__ == "__main__":
    main()
