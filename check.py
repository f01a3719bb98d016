#!/usr/bin/env python3
"""python3 check.py <property id>... : decide properties from the current /repo sources."""
import importlib, os, sys
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import mypy.build  # noqa: F401
except ImportError:
    if os.path.exists(PY) and os.environ.get("_VERIF_REEXEC") != "1":
        os.environ["_VERIF_REEXEC"] = "1"
        os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.common import run_check  # noqa: E402


def selfcheck():
    import ast, mypy.version
    from sa.project import get_project
    p = get_project()
    print(f"python {sys.version.split()[0]}, mypy {mypy.version.__version__}, {len(p.modules)} modules parsed")
    return 0


def main():
    if sys.argv[1:] == ["--selfcheck"]:
        return selfcheck()
    tier = os.environ.get("VERIF_TIER", "quick")
    args = []
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
        else:
            args.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args == ["all"]:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa", "rules")
        args = sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("c") and f[1:3].isdigit())
    rc = 0
    if len(args) > 1:        # each check in a process of its own
        import subprocess
        for prop in args:
            rc = max(rc, subprocess.run([sys.executable, os.path.abspath(__file__), prop, f"--tier={tier}"]).returncode)
        return rc
    for prop in args:
        mod = importlib.import_module("sa.rules." + prop.lower())
        rc = max(rc, run_check(prop, mod.check, tier))
    return rc


sys.exit(main())
