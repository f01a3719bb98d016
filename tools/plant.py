#!/usr/bin/env python3
"""plant.py [ids...]: (re)build seeded/<id> from bugs.py definitions and confirm each one in a scratch copy.
Scratch copies live under /tmp and are removed.  Nothing under /repo is changed, except while the
stable tests run (test.sh works on /repo): the patch is applied and undone straight afterwards."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
VERIF = os.path.dirname(HERE)


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def stable(repo):
    out = tempfile.mktemp(suffix=".json")
    sh(f"bash /opt/vp/test.sh {out}")
    d = json.load(open(out))
    os.unlink(out)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(d.get("passed") or [k for k, v in d.items() if v == "passed"])
    return [t for t in base if t not in ok]


def build(bug):
    bid, prop, edits, needs, breaks, demo = (bug[k] for k in ("id", "property", "edits", "needs", "breaks", "demo"))
    dst = os.path.join(VERIF, "seeded", bid)
    os.makedirs(dst, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        w = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {w}")
        for path, old, new in edits:
            p = os.path.join(w, path)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit does not apply exactly once ({s.count(old)}): {path}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(HERE, "mini", "mini.py"), os.path.join(dst, "mini.py"))
        open(os.path.join(dst, "demo.py"), "w").write(
            "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom mini import *\n" + demo)
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        a = sh(f"bash {dst}/demo.sh", cwd="/repo")
        if a.returncode != 0:
            return "demo fails on the clean tree:\n" + a.stdout[-800:] + a.stderr[-1500:]
        b = sh(f"bash {dst}/demo.sh", cwd=w)
        if b.returncode == 0:
            return "demo passes with the patch"
        env = dict(os.environ, VERIF_REPO=w)
        c = sh(f"python3 check.py {prop}", cwd=VERIF, env=env)
        caught = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
        if "--tests" in sys.argv:
            if sh("git status --porcelain -uno", cwd="/repo").stdout.strip():
                return "/repo not clean"
            try:
                sh(f"git -C /repo apply {dst}/patch.diff")
                miss = stable("/repo")
            finally:
                sh("git -C /repo checkout -- .")
            if miss:
                return f"stable tests fail: {miss}"
        err = (b.stderr.strip().splitlines() or [""])[-1]
        return ("CAUGHT" if caught else f"MISSED (rc {c.returncode})") + f"   demo: {err[:110]}"
    finally:
        shutil.rmtree(tmp, True)


ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for b in BUGS:
    if ids and b["id"] not in ids and b["property"] not in ids:
        continue
    print(f"{b['id']:28s} {b['property']} {build(b)}", flush=True)
