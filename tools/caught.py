"""Runs, for every seeded change, the check of its property on a scratch copy with the change; writes tools/caught.json."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    s = os.path.join(V, "seeded", b)
    prop = json.load(open(os.path.join(s, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="caught")
    try:
        shutil.copytree("/repo/brel", d + "/brel", ignore=shutil.ignore_patterns("__pycache__"))
        for f in os.listdir("/repo"):
            if os.path.isfile("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.join(s, "patch.diff")], cwd="/", capture_output=True, text=True)
        if a.returncode:
            return b, prop, "DOES NOT APPLY " + a.stderr[:100]
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), prop], env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
        rules = sorted(set(re.findall(r"^  \[([^\]]+)\]", r.stdout, re.M)))
        return b, prop, ", ".join(rules) if r.returncode == 1 else f"missed (rc {r.returncode})"
    finally:
        shutil.rmtree(d)


names = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
p = os.path.join(V, "tools", "caught.json")
out = json.load(open(p)) if os.path.exists(p) and sys.argv[1:] else {}
with ThreadPoolExecutor(5) as ex:
    for b, prop, what in ex.map(one, names):
        out[b] = [prop, what]
        if what.startswith(("missed", "DOES")):
            print(b, prop, what, flush=True)
json.dump(dict(sorted(out.items())), open(p, "w"), indent=1)
print(len(out))
