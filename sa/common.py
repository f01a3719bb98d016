"""Findings, evidence, known findings and the command line shared by all rules."""
from __future__ import annotations
import json, os, sys, time, traceback
from .project import AnalysisError, get_project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, key, msg, loc=""):
        self.rule, self.key, self.msg, self.loc = rule, key, msg, loc


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.obligations = {}     # rule -> list of (instance, ok)
        self.analysed = {}        # what -> set/list
        self.rules = {}           # rule -> text
        self.assumptions = []
        self.floors = []
        self.stats = {}

    def rule(self, rid, text, floor=0):
        self.rules[rid] = text
        self.obligations.setdefault(rid, [])
        if floor:
            self.floors.append((rid, floor))

    def ob(self, rid, instance, ok=True, msg="", loc="", key=None):
        """one discharged or violated obligation"""
        self.obligations.setdefault(rid, []).append((str(instance), bool(ok)))
        if not ok:
            self.findings.append(Finding(rid, key or f"{rid}:{instance}", msg or str(instance), loc))
        return ok

    def saw(self, what, item):
        self.analysed.setdefault(what, set()).add(str(item))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def load_known():
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <what fails>' / 'fixed: property=<id> <commit> <what>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN "):
                head, _, what = line.partition(" :: ")
                prop = head.split("property=")[1].split()[0]
                key = head.split("key=", 1)[1].strip()
                out[(prop, key)] = what
    return out


def run_check(prop, fn, tier):
    t0 = time.time()
    rep = Report(prop)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        project = get_project()
        fn(project, rep, tier)
        viol_rules = {f.rule for f in rep.findings}
        for rid, floor in rep.floors:
            n = len(rep.obligations.get(rid, ()))
            if n < floor and not rep.findings:
                raise AnalysisError(f"rule {rid}: only {n} instances found, at least {floor} expected (anchor vanished?)")
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop}: internal error")
        return 2
    known = load_known()
    new, old = [], []
    seen = set()
    for f in rep.findings:
        if (f.rule, f.key) in seen:
            continue
        seen.add((f.rule, f.key))
        (old if (prop, f.key) in known else new).append(f)
    nob = sum(len(v) for v in rep.obligations.values())
    nok = sum(1 for v in rep.obligations.values() for _, ok in v if ok)
    wall = time.time() - t0
    cov = {
        "explanation": "static analysis of the current /repo/brel sources; every obligation is one rule applied to one construct found in the tree",
        "rules": {r: {"text": rep.rules.get(r, ""), "instances": len(v), "discharged": sum(1 for _, ok in v if ok),
                      "samples": [i for i, _ in v[:8]]} for r, v in sorted(rep.obligations.items())},
        "obligations": nob, "discharged": nok,
        "analysed": {k: (sorted(v) if len(v) <= 40 else {"count": len(v), "first": sorted(v)[:20]}) for k, v in rep.analysed.items()},
        "modules_parsed": len(project.modules), "functions_indexed": len(project.functions), "classes_indexed": len(project.classes),
        "source_digest": project.digest,
        "exhaustive": True,
    }
    cov.update(rep.stats)
    json.dump({
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(wall, 2),
        "violations": len(new), "known_findings": [f.key for f in old],
    }, open(os.path.join(ev, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print(f"{prop}: {nob} obligations, {nok} discharged, {len(old)} known findings, {len(new)} violations ({wall:.1f}s)")
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, f.key)]}")
    if new:
        path = os.path.join(ev, prop + ".violations.txt")
        with open(path, "w") as o:
            for f in new:
                o.write(f"[{f.rule}] {f.loc}\n  key: {f.key}\n  {f.msg}\n  rule: {rep.rules.get(f.rule, '')}\n")
        for f in new:
            print(f"  [{f.rule}] {f.loc}: {f.msg}  (key {f.key})")
        print(f"VIOLATION property={prop} replay=evidence/{prop}.violations.txt")
        return 1
    return 0
