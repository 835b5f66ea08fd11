#!/usr/bin/env python3
"""Generates build/ws: a cargo package with the sources of /repo (content-compared copies) and a
manifest in which the git dependency "oidn" (which cannot be fetched offline, and which cargo
insists on resolving) is the recording stand-in /verif/stubs/oidn.  Nothing in /repo is touched."""
import filecmp, os, re, shutil, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(VERIF, "build", "ws")


def sync(src, dst):
    """Makes dst equal to src, rewriting only what differs (so cargo's mtimes follow content)."""
    os.makedirs(dst, exist_ok=True)
    want = set(os.listdir(src))
    for name in os.listdir(dst):
        if name not in want:
            p = os.path.join(dst, name)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for name in want:
        s, d = os.path.join(src, name), os.path.join(dst, name)
        if os.path.isdir(s):
            if os.path.isfile(d):
                os.unlink(d)
            sync(s, d)
        elif not (os.path.isfile(d) and filecmp.cmp(s, d, shallow=False)):
            if os.path.isdir(d):
                shutil.rmtree(d)
            shutil.copyfile(s, d)


def manifest():
    text = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    stub = os.path.join(VERIF, "stubs", "oidn")
    text = re.sub(r"(?m)^oidn\s*=\s*\{[^}\n]*\bgit\b[^}\n]*\}",
                  'oidn = { path = "%s", optional = true }' % stub, text)
    # only the image formats the checks use (the others pull in whole video codecs)
    text = re.sub(r'(?m)^image\s*=\s*"([^"]*)"\s*$',
                  r'image = { version = "\1", default-features = false, features = ["png", "jpeg", "bmp", "pnm", "gif", "tga", "rayon"] }', text)
    # drop dev-dependencies, benches and profiles: a dependency's are not used
    out, skip = [], False
    for line in text.splitlines():
        m = re.match(r"\s*\[+\s*([^\]]+?)\s*\]+", line)
        if m:
            skip = m.group(1).startswith(("dev-dependencies", "bench", "profile", "test", "bin", "example"))
        if not skip:
            out.append(line)
    text = "\n".join(out) + "\n"
    text = text.replace("[package]", "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false", 1)
    return text


def main():
    os.makedirs(WS, exist_ok=True)
    sync(os.path.join(REPO, "src"), os.path.join(WS, "src"))
    for name in ("README.md", "build.rs", "resources"):
        s, d = os.path.join(REPO, name), os.path.join(WS, name)
        if os.path.islink(d):
            os.unlink(d)
        if os.path.exists(s):
            os.symlink(s, d)
    m, t = os.path.join(WS, "Cargo.toml"), manifest()
    if not os.path.exists(m) or open(m, encoding="utf-8").read() != t:
        open(m, "w", encoding="utf-8").write(t)


if __name__ == "__main__":
    main()
