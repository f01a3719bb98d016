"""C18: captions exist, stand beside the value they name, and package files are found from anywhere."""
from __future__ import annotations
import ast
import csv
import fnmatch
import io
import os
import re
from ..project import AnalysisError, dotted
from .. import strings
from ..strings import texts, Hole
from ..consts import bindings

CLOSED = {"boolean": {"true", "false"}, "period-type": {"instant", "duration"}, "balance-type": {"credit", "debit"}}
HEADER = ["namespace", "localname", "language", "locale", "value"]


def ob(rep, rule, ok, loc, key, detail):
    rep.ob(rule, key, ok, detail, loc, key)


def service(p):
    cs = [c for c in p.classes.values() if c.name == "TranslationService"]
    if len(cs) != 1:
        raise AnalysisError(f"{len(cs)} classes named TranslationService")
    get = cs[0].lookup("get")
    if get is None:
        raise AnalysisError("TranslationService.get is gone")
    base = None
    a = get.node.args
    for arg, d in list(zip(reversed(a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if arg.arg == "base" and d is not None:
            t = texts(p, get, d)
            if len(t) == 1 and len(t[0]) == 1 and isinstance(t[0][0], str):
                base = t[0][0]
    return cs[0], get, base


def is_service(p, f, e):
    d = dotted(e) or ""
    if "translation" in d.split(".")[-1].lower():
        return True
    try:
        return any(n.split(".")[-1] == "TranslationService" for n in p.type_names(f.module, e))
    except Exception:
        return False


def key_of(c):
    if c.args:
        return c.args[0]
    return next((k.value for k in c.keywords if k.arg == "qname"), None)


def lookups(p):
    svc, get, base = service(p)
    for f in p.all_functions():
        if f.cls is svc:
            continue
        for c in p.calls_in(f):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("get", "get_single") and is_service(p, f, c.func.value):
                k = key_of(c)
                if k is not None:
                    yield f, c, k


def table(p):
    root = os.path.dirname(next(iter(p.modules.values())).path)
    d = p.root
    found = []
    for dp, dn, fn in os.walk(os.path.join(d, "brel")):
        for x in fn:
            if x.endswith(".csv"):
                with open(os.path.join(dp, x), encoding="utf-8-sig", newline="") as fh:
                    rows = list(csv.reader(fh))
                if rows and rows[0][:5] == HEADER:
                    found.append((os.path.join(dp, x), rows))
    if len(found) != 1:
        raise AnalysisError(f"{len(found)} translation tables with the columns {HEADER}")
    return found[0]


def check(p, rep, tier):
    rep.rule("caption", "Every caption key the code looks up is in the translation table.", floor=25)
    rep.rule("row", "Every caption of the table has a text in every language the table knows, and no two different texts for one language.", floor=300)
    rep.rule("columns", "The table's columns are read as what their header says.", floor=1)
    rep.rule("beside", "A caption in a translated listing stands beside the value its plain listing gives that name.", floor=15)
    rep.rule("located", "A data file of the package is located relative to the package.", floor=3)
    rep.rule("packaged", "A data file the library reads at run time is part of the installed package.", floor=1)
    svc, get, base = service(p)
    path, rows = table(p)
    rel = os.path.relpath(path, p.root)
    have = rows_rule(p, rep, rel, rows)
    captions(p, rep, have, base)
    columns(p, rep, svc)
    beside(p, rep)
    located(p, rep)


def rows_rule(p, rep, rel, rows):
    langs = set()
    have = {}
    for i, r in enumerate(rows[1:], 2):
        if not r:
            continue
        if len(r) < 5:
            ob(rep, "row", False, f"{rel}:{i}", key=f"C18-row:short:{','.join(r)[:80]}", detail=f"{rel} line {i} has {len(r)} columns")
            continue
        langs.add((r[2], r[3]))
        d = have.setdefault((r[0], r[1]), {})
        if (r[2], r[3]) in d and d[(r[2], r[3])] != r[4]:
            ob(rep, "row", False, f"{rel}:{i}", key=f"C18-row:twice:{r[0]}:{r[1]}:{r[2]}", detail=f"{rel} line {i}: {r[1]} has two texts in {r[2]}-{r[3]}")
        d[(r[2], r[3])] = r[4]
    for (ns, ln), d in sorted(have.items()):
        miss = sorted(l for l in langs if not d.get(l, "").strip())
        ob(rep, "row", not miss, rel, key=f"C18-row:{ns.rsplit('/', 1)[-1]}:{ln}",
                       detail=f"the caption {ns.rsplit('/', 1)[-1]}:{ln} has no text in {', '.join('-'.join(m) for m in miss)}")
    return have


def captions(p, rep, have, base):
    nss = {}
    for ns, ln in have:
        nss.setdefault(ns, set()).add(ln)
    if base is None:
        # the prefix is put in front elsewhere
        common = os.path.commonprefix(sorted(nss))
        base = common[:common.rfind("/") + 1]
    n = 0
    for f, c, k in lookups(p):
        b = next((x.value for x in c.keywords if x.arg == "base"), None) or (c.args[2] if len(c.args) > 2 else None)
        pre = base
        if b is not None:
            t = texts(p, f, b)
            if len(t) != 1 or len(t[0]) != 1 or not isinstance(t[0][0], str):
                continue
            pre = t[0][0]
        for t in texts(p, f, k):
            if not t or not isinstance(t[0], str) or ":" not in t[0]:
                # a qualified name, or something not understood
                continue
            n += 1
            kind, _, rest = t[0].partition(":")
            known = nss.get(pre + kind)
            shown = "".join(x if isinstance(x, str) else "…" for x in t)
            ok, why = True, ""
            if known is None:
                ok, why = False, f"the table has no captions {pre + kind}"
            elif len(t) == 1 and kind != "unit" and kind != "data-type":
                ok, why = rest in known, f"the table has no caption {shown!r}: the raw key would be printed in every language"
            elif len(t) > 1 and kind in CLOSED:
                h = next(x for x in t if isinstance(x, Hole))
                if strings.boolish(p, h.f, h.e) and not {"True", "False"} <= known:
                    ok, why = False, f"{shown!r} asks for 'True' or 'False'; the table has {', '.join(sorted(known))}"
                elif not CLOSED[kind] <= known:
                    ok, why = False, f"the table lacks {', '.join(sorted(CLOSED[kind] - known))} among the {kind} captions"
            ob(rep, "caption", ok, f.loc(c), key=f"C18-caption:{f.qualname}:{shown}", detail=f"{f.qualname}: {why}")
    return n


def columns(p, rep, svc):
    """what becomes of line[i]"""
    f = svc.lookup("load_from_csv")
    if f is None:
        raise AnalysisError("TranslationService.load_from_csv is gone")
    col = {}
    line = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            line = n.target.id
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 5:
            for i, t in enumerate(n.target.elts):
                if isinstance(t, ast.Name):
                    col[t.id] = i
    def index(e):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            v = e.slice.value
            if isinstance(v, int):
                return v
            if v in HEADER:
                return HEADER.index(v)
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(t, ast.Tuple) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                for a, b in zip(t.elts, v.elts):
                    if isinstance(a, ast.Name) and index(b) is not None:
                        col[a.id] = index(b)
            elif isinstance(t, ast.Tuple) and isinstance(v, (ast.Name, ast.Subscript)) and index(v) is None:
                for i, a in enumerate(t.elts):
                    if isinstance(a, ast.Name):
                        col[a.id] = i
            elif isinstance(t, ast.Name) and index(v) is not None:
                col[t.id] = index(v)

    def cols(e, d=0):
        out = []
        if isinstance(e, ast.Subscript) and index(e) is not None:
            return [index(e)]
        if isinstance(e, ast.Name):
            if e.id in col:
                return [col[e.id]]
            if d < 3:
                return [x for b in bindings(p, f, e.id) for x in cols(b, d + 1)]
            return []
        for c in ast.iter_child_nodes(e):
            if isinstance(e, ast.Call) and c is e.func:
                continue
            out += cols(c, d)
        return out
    n = 0
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
            keys = []
            t = s.targets[0]
            while isinstance(t, ast.Subscript):
                keys.insert(0, cols(t.slice))
                t = t.value
            flat = [x for k in keys for x in k]
            v = cols(s.value)
            if len(keys) == 2 and flat and v:
                n += 1
                ok = set(keys[0]) == {0, 1} and keys[1] == [2, 3] and v == [4] and keys[0] == [0, 1]
                ob(rep, "columns", ok, f.loc(s), key=f"C18-columns:{f.qualname}",
                               detail=f"the text in column {v} is filed under columns {keys}; the header is {', '.join(HEADER)}")
    if not n:
        ob(rep, "columns", True, f.loc(), key="C18-columns:other-form", detail="")


# ---------------------------------------------------------------- listings
def beside(p, rep):
    svc, _, _ = service(p)
    for f in p.all_functions():
        if f.cls is None:
            continue
        plain, spoken, unclear = entries(p, f)
        if not plain or not spoken:
            continue
        norm = lambda k: k.replace("_", "-")
        plain = {norm(k): v for k, v in plain.items()}
        for k, vs in sorted(spoken.items()):
            if k not in plain:
                ob(rep, "beside", False, f.loc(vs[0]), key=f"C18-beside:{f.qualname}:{k}:extra",
                               detail=f"{f.qualname}: the translated listing has a caption {k!r}, the plain one does not")
                continue
            a = set().union(*[sources(p, f, v) for v in plain[k]])
            b = set().union(*[sources(p, f, v) for v in vs])
            ok = a == b or not known(a) or not known(b)
            if ok and len(a) == 1:
                x, y = [set().union(*[polarity(p, f, v) for v in z]) for z in (plain[k], vs)]
                if len(x) == len(y) == 1 and x != y:
                    ob(rep, "beside", False, f.loc(vs[0]), key=f"C18-beside:{f.qualname}:{k}:polarity",
                       detail=f"{f.qualname}: beside the caption {k!r} the translated listing says yes where the plain one says no")
            ob(rep, "beside", ok, f.loc(vs[0]), key=f"C18-beside:{f.qualname}:{k}",
                           detail=f"{f.qualname}: beside the caption {k!r} the translated listing puts {', '.join(sorted(b)) or 'nothing of the object'}, the plain one {', '.join(sorted(a)) or 'nothing of the object'}")
        for k, vs in sorted(spoken.items()):
            if k not in plain:
                continue
            said = [r for v in vs for r in asked(p, f, v)]
            kinds = {r[0] for r in said} & OWN
            ob(rep, "beside", k not in OWN or not kinds or kinds == {k}, f.loc(vs[0]), key=f"C18-beside:{f.qualname}:{k}:kind",
               detail=f"{f.qualname}: beside the caption {k!r} stands a text from the captions of {', '.join(sorted(kinds - {k}))}")
            want = {letters(v.value) for v in plain[k] if isinstance(v, ast.Constant) and isinstance(v.value, str)}
            got = {letters(r[1]) for r in said if r[1] is not None}
            if len(want) == 1 and len(plain[k]) == 1 and got and len(got) == len(said):
                ob(rep, "beside", want == got, f.loc(vs[0]), key=f"C18-beside:{f.qualname}:{k}:text",
                   detail=f"{f.qualname}: beside the caption {k!r} the translated listing says {', '.join(sorted(got))}, the plain one {', '.join(sorted(want))}")
        for k in sorted(set(plain) - set(spoken)) if not unclear else ():
            ob(rep, "beside", False, f.loc(plain[k][0]), key=f"C18-beside:{f.qualname}:{k}:missing",
                           detail=f"{f.qualname}: the plain listing has {k!r}, the translated one does not")


OWN = {"period-type", "balance-type", "data-type"}


def letters(s):
    return re.sub(r"[^a-z]", "", s.lower()).rstrip("s")


def asked(p, f, e, depth=0):
    """(kind, name or None) of the captions an expression looks up"""
    out = []
    if depth > 4:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and is_service(p, f, n.func.value) and key_of(n) is not None:
            for t in texts(p, f, key_of(n)):
                if isinstance(t[0], str) and ":" in t[0]:
                    kind, _, rest = t[0].partition(":")
                    out.append((kind, rest if len(t) == 1 else None))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not any(q[0] == n.id for q in f.params):
            for b in bindings(p, f, n.id):
                out += asked(p, f, b, depth + 1)
    return out


def known(s):
    return "?" not in s


def entries(p, f):
    plain, spoken, unclear = {}, {}, False
    for n in ast.walk(f.node):
        pairs = []
        if isinstance(n, ast.Dict):
            pairs = [(k, v) for k, v in zip(n.keys, n.values) if k is not None]
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            pairs = [(n.targets[0].slice, n.value)]
        for k, v in pairs:
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                plain.setdefault(k.value, []).append(v)
            else:
                cs = captioned(p, f, k)
                if len(cs) == 1:
                    spoken.setdefault(cs[0], []).append(v)
                else:
                    unclear = True
    return plain, spoken, unclear


def captioned(p, f, k, depth=0):
    """the literal captions a key expression looks up"""
    if depth > 4:
        return []
    if isinstance(k, ast.Name):
        return [x for b in bindings(p, f, k.id) for x in captioned(p, f, b, depth + 1)]
    if isinstance(k, ast.Call):
        if isinstance(k.func, ast.Attribute) and k.func.attr == "get" and is_service(p, f, k.func.value):
            e = key_of(k)
            ts = texts(p, f, e) if e is not None else []
        elif k.args and isinstance(k.args[0], ast.Constant) and isinstance(k.args[0].value, str):
            v = k.args[0].value
            # a local helper: caption("name") or caption("literal:name")
            return [v.split(":")[-1]] if v.startswith("literal:") or ":" not in v and helper(p, f, k) else []
        else:
            return []
        return [t[0][8:] for t in ts if len(t) == 1 and isinstance(t[0], str) and t[0].startswith("literal:")]
    return []


def helper(p, f, c):
    """a function of its own that asks for a literal"""
    nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else ""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            name = getattr(n, "name", None)
            if name == nm and "literal:" in ast.unparse(n):
                return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets) and "literal:" in ast.unparse(n.value):
            return True
    for g in p.all_functions():
        if g.name == nm and "literal:" in ast.unparse(g.node):
            return True
    return False


def sources(p, f, e, depth=0, seen=None):
    """what of the object an expression is made from"""
    seen = seen if seen is not None else set()
    out = set()
    if depth > 6:
        return {"?"}
    skip = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            out |= member(p, f.cls, n.attr, depth, seen)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and (f.qualname, n.id) not in seen and n.id != "self":
            if any(q[0] == n.id for q in f.params):
                continue
            bs = [b for b in bindings(p, f, n.id)]
            if bs:
                seen.add((f.qualname, n.id))
                if any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                    for b in bs:
                        out |= sources(p, f, b, depth + 1, seen)
                seen.discard((f.qualname, n.id))
    return out


def polarity(p, f, e, depth=0):
    """for a yes-or-no made from one comparison with None: whether 'yes' means present"""
    out = set()
    if depth > 3:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            pos = isinstance(n.ops[0], ast.IsNot)
            for i in ast.walk(e):
                if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.Not) and any(x is n for x in ast.walk(i)):
                    pos = not pos
                if isinstance(i, ast.IfExp) and any(x is n for x in ast.walk(i.test)):
                    yes, no = [getattr(x, "value", x) for x in (i.body, i.orelse)]
                    if (yes, no) in ((False, True), ("false", "true"), ("boolean:false", "boolean:true")):
                        pos = not pos
                    elif (yes, no) not in ((True, False), ("true", "false"), ("boolean:true", "boolean:false")):
                        return set()
            out.add(pos)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not any(q[0] == n.id for q in f.params):
            for b in bindings(p, f, n.id):
                out |= polarity(p, f, b, depth + 1)
    return out


def member(p, cls, attr, depth, seen):
    g = cls.lookup(attr)
    if g is None or (g.qualname, "") in seen:
        return {attr.lstrip("_")} if g is None else set()
    seen.add((g.qualname, ""))
    out = set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            out |= member(p, cls, n.attr, depth + 1, seen)
    seen.discard((g.qualname, ""))
    return out or {attr.lstrip("_")}


# ---------------------------------------------------------------- files
READS = {"open", "read_csv", "read_json", "Path", "PurePath", "read_text", "isfile", "exists", "getmtime", "abspath", "realpath"}
ANCHORS = ("__file__", "files(", "resources", "pkgutil", "get_data", "__path__", "expanduser", "home(", "tempfile", "gettempdir", "mkdtemp", "__spec__")


def data_files(p):
    out = {}
    for dp, dn, fn in os.walk(os.path.join(p.root, "brel")):
        dn[:] = [d for d in dn if d != "__pycache__"]
        for x in fn:
            if not x.endswith((".py", ".pyc", ".pyi", ".md")) and x not in ("VERSION", "py.typed"):
                out.setdefault(x, []).append(os.path.join(dp, x))
    return out


def located(p, rep):
    data = data_files(p)
    used = {}
    for m in p.modules.values():
        docs = {s.value for s in ast.walk(m.tree) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)}
        parent = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parent[c] = n
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Constant) and isinstance(n.value, str)) or n in docs:
                continue
            v = n.value
            base = re.split(r"[/\\]", v)[-1]
            if base not in data or not re.search(r"\.[a-z]+$", base):
                continue
            if not used.get(base):
                used[base] = (m, n)
            f = p.enclosing_function(n) if hasattr(p, "enclosing_function") else None
            # the largest expression around the name, and what the names in it stand for
            top = n
            while isinstance(parent.get(top), ast.expr) or isinstance(parent.get(top), (ast.keyword,)):
                top = parent[top]
            ok = os.path.isabs(v) is False and anchored(p, m, top, f)
            where = f"{m.relpath}:{n.lineno}"
            q = f.qualname if f is not None else m.name
            ob(rep, "located", ok, where, key=f"C18-located:{q}:{base}",
                           detail=f"{q}: the package's file {base} is named {v!r}, which is looked up in the directory the program was started in")
    # and any other file opened under a relative name
    for f in p.all_functions():
        for c in p.calls_in(f):
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
            if nm != "open" or not c.args or isinstance(c.func, ast.Attribute) and dotted(c.func.value) not in ("io", "codecs", "os"):
                continue
            for t in texts(p, f, c.args[0]):
                if len(t) == 1 and isinstance(t[0], str) and not os.path.isabs(t[0]) and not t[0].startswith("~"):
                    base = re.split(r"[/\\]", t[0])[-1]
                    if base in data:
                        continue
                    ob(rep, "located", False, f.loc(c), key=f"C18-located:{f.qualname}:{t[0]}",
                                   detail=f"{f.qualname} opens {t[0]!r}, relative to the directory the program was started in")
    packaged(p, rep, data, used)


def anchored(p, m, e, f, depth=0):
    s = ast.unparse(e)
    if any(a in s for a in ANCHORS):
        return True
    if depth > 4:
        return False
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            from ..consts import module_value
            bs = bindings(p, f, n.id) if f is not None else [v for v in [module_value(p, m, n.id)] if v is not None]
            if any(anchored(p, m, b, f, depth + 1) for b in bs):
                return True
        if isinstance(n, ast.Call):
            g = strings.callee(p, f, n) if f is not None else None
            if g is not None and any(a in ast.unparse(g.node) for a in ANCHORS):
                return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and f is not None:
            from ..consts import attr_bindings
            if any(anchored(p, m, b, f, depth + 1) for b in attr_bindings(p, f, n)):
                return True
    # the name is kept and joined to the package's directory elsewhere
    tgt = named(m, e)
    if tgt is not None:
        for g in p.all_functions():
            if g.module is m or True:
                for c in p.calls_in(g):
                    if any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) == tgt or getattr(x, "attr", None) == tgt) for x in ast.walk(c)) and any(a in ast.unparse(g.node) for a in ANCHORS):
                        return True
        for s in m.tree.body:
            src = ast.unparse(s)
            if re.search(rf"\b{re.escape(tgt)}\b", src) and any(a in src for a in ANCHORS):
                return True
    return False


def named(m, e):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and n.value is e and isinstance(n.targets[0], ast.Name):
            return n.targets[0].id
        if isinstance(n, ast.AnnAssign) and n.value is e and isinstance(n.target, ast.Name):
            return n.target.id
    return None


def packaged(p, rep, data, used):
    pats = package_patterns(p.root)
    if pats is None:
        return
    for base, (m, n) in sorted(used.items()):
        paths = [os.path.relpath(x, p.root) for x in data[base]]
        ok = any(fnmatch.fnmatch(os.path.basename(x), pat) or fnmatch.fnmatch(x, pat) or fnmatch.fnmatch(x, "brel/" + pat) for x in paths for pat in pats)
        ob(rep, "packaged", ok, f"{m.relpath}:{n.lineno}", key=f"C18-packaged:{base}",
                       detail=f"{m.name} reads {base}, which the build leaves out of the installed package (it packages {', '.join(pats)})")


def package_patterns(root):
    """what setup.py packages beside modules; None when everything is"""
    sp = os.path.join(root, "setup.py")
    if not os.path.isfile(sp):
        return None
    tree = ast.parse(open(sp, encoding="utf-8").read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "setup":
            kw = {k.arg: k.value for k in n.keywords}
            if "include_package_data" in kw and getattr(kw["include_package_data"], "value", False):
                return None
            if "package_data" in kw:
                try:
                    d = ast.literal_eval(kw["package_data"])
                except ValueError:
                    return None
                return [x for k, v in d.items() for x in v]
    return []
