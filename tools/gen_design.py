"""Writes /verif/DESIGN.md from its hand-written parts (tools/design_head.md, tools/design_methods.py, tools/design_tail.md),
the texts of the rules (sa/rules), the properties, the last evidence files and tools/caught.json."""
import json, os, re, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda *a: open(os.path.join(V, *a)).read()
exec(rd("tools", "design_methods.py"))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
tech = json.loads(rd("tools", "techniques.json"))
na = tech.pop("_not_applicable")
caught = json.loads(rd("tools", "caught.json"))
known = [l for l in rd("known_findings.txt").splitlines() if l.strip()]
out = [rd("tools", "design_head.md").rstrip(), "", "## The properties, and how each is decided", ""]
for d in props:
    i = d["id"]
    if i in na:
        continue
    t, (what, oracle, bounds) = tech[i], HOW[i]
    out += [f"### {i} — {d['title']}", "", f"*Technique*: {t['technique']}.", "", f"*Analysed*: {what}", "", f"*Oracle*: {oracle}", "",
            f"*Bounds and assumptions*: {t['note'].rstrip('.')}." + (f" {bounds}" if bounds != "-" else ""), "", f"*Why beyond the tests*: {d['why_tests_cant']}", "", "*Rules*:", ""]
    src = rd("sa", "rules", i.lower() + ".py")
    for m in re.finditer(r'rep\.rule\("([^"]+)",\s*((?:f?"(?:[^"\\]|\\.)*"\s*)+)', src):
        out.append(f"- `{m.group(1)}`: " + "".join(re.findall(r'f?"((?:[^"\\]|\\.)*)"', m.group(2))))
    try:
        e = json.loads(rd("evidence", i + ".json"))
        n = sum(r.get("instances", 0) for r in e["coverage"]["rules"].values())
        out += ["", f"*Size and cost*: about {n} obligations, about {max(1, round(e['wall_s']))} s."]
    except (OSError, KeyError, ValueError):
        pass
    b = [f"{k} ({w})" for k, (p, w) in caught.items() if p == i]
    if b:
        out += ["", "*Planted bugs (rule that reports them)*: " + "; ".join(b) + "."]
    f = [l for l in known if f"property={i} " in l]
    kf = [l for l in f if l.startswith("KNOWN")]
    if kf:
        out += ["", "*Known finding*: " + " / ".join(l.split("::", 1)[1].strip() for l in kf)]
    fx = [l for l in f if l.startswith("fixed")]
    if fx:
        out += ["", f"*Repaired in /repo*: {len(fx)} defect(s), see known_findings.txt (" + ", ".join(l.split()[2] for l in fx) + ")."]
    out.append("")
out += ["## Not applicable to static analysis", ""]
for d in props:
    if d["id"] in na:
        out.append(f"- **{d['id']} {d['title']}**: {na[d['id']]}")
missed = {k: w for k, (p, w) in caught.items() if w.startswith(("missed", "DOES"))}
out += ["", "## Planted bugs", "", f"{len(caught)} changes are kept under `seeded/`; {len(caught) - len(missed)} are reported by the check of their own property "
        "(`tools/caught.py` runs each on a scratch copy; the rule that reports each is named above)." + (" Not reported: " + ", ".join(missed) + "." if missed else ""), "",
        rd("tools", "design_tail.md").rstrip()]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
