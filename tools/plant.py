"""Plant bugs: validate each one described in a bugs file and store it under /verif/seeded/<id>/.

usage: plant.py BUGS.py [id ...]
BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo)].
The change is made in /repo, tested, demonstrated, and undone again.
"""
import importlib.util, json, os, subprocess, sys

REPO = "/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))
SEEDED = "/verif/seeded"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    for k in ("passed", "stable", "tests", "stable_tests"):
        if isinstance(BASE, dict) and k in BASE:
            v = BASE[k]
            return set(v)
    return set(BASE)


def tests_ok():
    sh("bash", "/opt/vp/build.sh", cwd=REPO)
    sh("bash", "/opt/vp/test.sh", "/tmp/plant_out.json", cwd=REPO)
    r = json.load(open("/tmp/plant_out.json"))
    miss = stable() - set(r["passed"])
    return sorted(miss)


def edit(f, old, new):
    p = os.path.join(REPO, f)
    s = open(p, newline="").read()
    if old not in s and "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    n = s.count(old)
    if n != 1:
        raise SystemExit("%s: %d matches of %r" % (f, n, old[:80]))
    open(p, "w", newline="").write(s.replace(old, new))


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    assert not sh("git", "-C", REPO, "status", "--porcelain", "--untracked-files=no").stdout.strip()
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexport OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec timeout %d /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % b.get("timeout", 250))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        clean = sh("bash", d + "/demo.sh", cwd=REPO)
        try:
            for e in b["edits"]:
                edit(*e)
            open(d + "/patch.diff", "w", newline="").write(
                subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout.decode())
            miss = tests_ok()
            bad = sh("bash", d + "/demo.sh", cwd=REPO)
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        app = sh("git", "-C", REPO, "apply", "--check", d + "/patch.diff")
        ok = clean.returncode == 0 and bad.returncode != 0 and not miss and app.returncode == 0
        print(b["id"], "OK" if ok else "REJECT", "clean=%d bad=%d failing=%d apply=%d" % (
            clean.returncode, bad.returncode, len(miss), app.returncode), flush=True)
        if clean.returncode:
            print(clean.stdout[-600:])
        if miss:
            print("   ", miss[:3])
        if not ok:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)


main()
