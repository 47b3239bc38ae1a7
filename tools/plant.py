#!/usr/bin/env python3
"""Authoring and confirming planted bugs.

plant.py verify ID...   confirm in a scratch copy: applies, builds, stable tests pass, demo passes/fails, check verdict
plant.py checks ID...   only the verdict of the property's own check (scratch copy, VERIF_REPO)
As a module: new(id, prop, edits, needs, breaks, demo) writes seeded/<id>/.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, errors="replace")

def new(id, prop, edits, needs, breaks, demo):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        out = ""
        files = []
        for f, old, new_, *nth in edits:           # nth: which occurrence, from 0
            src = open(os.path.join("/repo", f)).read() if f not in files else open(os.path.join(tmp, "b", f)).read()
            if src.count(old) <= nth[0] if nth else src.count(old) != 1:
                raise SystemExit("%s: %s: old text occurs %d times" % (id, f, src.count(old)))
            at = -1
            for _ in range(nth[0] + 1 if nth else 1):
                at = src.index(old, at + 1)
            for side in ("a", "b"):
                os.makedirs(os.path.dirname(os.path.join(tmp, side, f)), exist_ok=True)
            if f not in files:
                open(os.path.join(tmp, "a", f), "w").write(src)
                files.append(f)
            open(os.path.join(tmp, "b", f), "w").write(src[:at] + new_ + src[at + len(old):])
        for f in files:
            out += sh(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=tmp).stdout
        open(os.path.join(d, "patch.diff"), "w").write(out)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8\n'
            'exec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(tmp)

def copy(id):
    wt = "/tmp/wt.%s" % id
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    r = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=wt)
    if r.returncode:
        shutil.rmtree(wt)
        raise SystemExit("%s: patch does not apply\n%s" % (id, r.stdout))
    return wt

def verdict(id, wt, seed="1"):
    prop = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
    r = sh(["python3-vt", "run.py", prop, "--tier", "quick"], cwd=ROOT,
           env={"VERIF_REPO": wt, "VERIF_SEED": seed, "VERIF_TIER": "quick"})
    line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + prop)]
    return r.returncode, bool(line), r.stdout

def verify(id, tests=True):
    d = os.path.join(SEEDED, id)
    wt = copy(id)
    try:
        res = []
        demo = os.path.join(d, "demo.sh")
        c = sh(["bash", demo], cwd="/repo", timeout=300)
        b = sh(["bash", demo], cwd=wt, timeout=300)
        res.append("demo clean=%d bug=%d" % (c.returncode, b.returncode))
        if c.returncode:
            res.append(c.stdout[-600:])
        if tests:
            with open("/tmp/plant.lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                for s in ("build", "test"):
                    t = open("/opt/vp/%s.sh" % s).read().replace("/repo", wt)
                    open(wt + ".%s.sh" % s, "w").write(t)
                bb = sh(["bash", wt + ".build.sh"], cwd=wt)
                sh(["bash", wt + ".test.sh", wt + ".json"], cwd=wt)
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            got = set(json.load(open(wt + ".json"))["passed"])
            miss = [t for t in base if t not in got]
            res.append("build=%d tests_broken=%s" % (bb.returncode, miss[:4]))
        rc, v, out = verdict(id, wt)
        res.append("CAUGHT" if rc == 1 and v else "*** MISSED (rc=%d)" % rc)
        print(id, json.load(open(os.path.join(d, "meta.json")))["property"], "|", " | ".join(res), flush=True)
    finally:
        shutil.rmtree(wt)
        for s in (".build.sh", ".test.sh", ".json"):
            if os.path.exists(wt + s):
                os.unlink(wt + s)

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        verify(i, sys.argv[1] == "verify")
