"""C27: every documented kind of filing source is recognised by all stages."""
from __future__ import annotations
import ast
import re
from ..project import AnalysisError, dotted
from .. import objs
from ..consts import consts

EXT = re.compile(r"\*?\.?(xml|xsd|xhtml|html?|zip)$", re.I)
SUFFIX = re.compile(r"\*?\.?[A-Za-z][A-Za-z0-9]{1,6}$")
DOCUMENTED = (".xml", ".xhtml", ".htm", ".html")
CONTENTS = (".xml", ".xsd", ".xhtml", ".htm", ".html")


def reach(p, fs, within):
    """the functions and, beside them, module-level expressions that decide what `fs` accept"""
    todo, seen = list(fs), []
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        for c in p.calls_in(f):
            r = p.resolve_expr(f.module, c.func, f)
            if r is not None and r[0] in ("func", "function") and within(r[1]):
                todo.append(r[1])
            elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls") and f.cls is not None:
                g = f.cls.lookup(c.func.attr)
                if g is not None:
                    todo.append(g)
        for n in ast.walk(f.node):
            # a function handed on (filter, any, map)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = p.resolve_expr(f.module, n, f)
                if r is not None and r[0] in ("func", "function") and within(r[1]):
                    todo.append(r[1])
    return seen


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            out.add(n.value)
    return out


def suffixes(p, fs):
    """(accepted, excluded): suffix -> (function, node) of the tests on names in the functions"""
    acc, exc = {}, {}
    for f in fs:
        doc = docstrings(f.node)
        for n in ast.walk(f.node):
            cs = []
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("endswith", "removesuffix", "fnmatch", "glob", "rglob", "match") and n.args:
                cs = consts(p, f, n.args[0]) + (consts(p, f, n.args[1]) if len(n.args) > 1 and n.func.attr == "fnmatch" else [])
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                cs = consts(p, f, n.left) + consts(p, f, n.comparators[0])
                if isinstance(n.ops[0], (ast.NotEq, ast.NotIn)):
                    for v, c in cs:
                        if EXT.match(v) and negative(f, n):
                            acc.setdefault(v.lstrip("*"), (f, n))
                        elif EXT.match(v):
                            exc.setdefault(v.lstrip("*"), (f, n))
                    continue
            elif isinstance(n, ast.Dict):
                cs = [(k.value, k) for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)]
                for v, c in cs:
                    if EXT.match(v):
                        acc.setdefault(v, (f, n))
                continue
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in doc and re.search(r"\\\.", n.value):
                # a pattern: every alternative that can end a name
                for x in re.findall(r"(xml|xsd|xhtml|html|htm|zip)", n.value):
                    acc.setdefault("." + x, (f, n))
                if re.search(r"html\?", n.value):
                    acc.setdefault(".htm", (f, n))
                if re.search(r"x\?html", n.value):
                    acc.setdefault(".xhtml", (f, n))
                continue
            ends = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "endswith"
            for v, c in cs:
                if EXT.match(v) or ends and SUFFIX.match(v):
                    (exc if negative(f, n) else acc).setdefault(v.lstrip("*"), (f, n))
    return acc, exc


def negative(f, test):
    """the test keeps a name out: `not` of it filters, or names passing it are skipped"""
    par = {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
    n, flip = test, False
    while n in par:
        q = par[n]
        if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not):
            flip = not flip
        elif isinstance(q, ast.If) and n is q.test:
            last = q.body[-1]
            skips = isinstance(last, (ast.Continue, ast.Raise)) or isinstance(last, ast.Return) and (last.value is None or isinstance(last.value, ast.Constant) and not last.value.value)
            return flip != skips
        elif isinstance(q, ast.IfExp) and n is q.test:
            return flip
        elif isinstance(q, ast.stmt):
            return flip
        n = q
    return flip


def implied(s, table):
    return any(s.lower() == s and s.endswith(t) for t in table)


def check(p, rep, tier):
    rep.rule("R1-readable", "a name accepted by a locating stage ends in a suffix that the reading stage has a parser for", 10)
    rep.rule("R2-dispatched", "a name accepted by a locating stage ends in a suffix for which a filing parser is chosen", 10)
    rep.rule("R3-documented", "the documented kinds of sources are each accepted by a registered loader", 6)
    rep.rule("R4-contents", "folders and archives yield every kind of document that can be read", 8)
    rep.rule("R5-members", "archive members are made readable before their names are handed on", 1)
    rep.rule("R6-agree", "the chosen filing parser agrees with the document parser for each suffix", 5)
    rep.rule("R7-registered", "every loader is registered, and opening a filing goes through loader, parser choice and parsing", 4)

    cls = {c.name: c for c in p.classes.values()}
    for need in ("FilingParserFactory", "XMLFileParserResolver", "Filing", "PathLoader"):
        if need not in cls:
            raise AnalysisError(f"class {need} not found")
    inside = lambda f: f.module.relpath.startswith("brel/parsers/path_loaders") or f.name.startswith("_") or "util" in f.module.relpath or "file" in f.name or "suffix" in f.name or "ext" in f.name

    rc = cls["XMLFileParserResolver"]
    groups = resolver_table(p, rc)
    if len(groups) < 2:
        raise AnalysisError("the table of document parsers was not found")
    readable = set(groups)
    fac = cls["FilingParserFactory"]
    cp = fac.lookup("create_parser")
    if cp is None:
        raise AnalysisError("FilingParserFactory.create_parser not found")
    chosen, _ = suffixes(p, reach(p, [cp], inside))
    if not chosen:
        raise AnalysisError("no suffix is tested when the filing parser is chosen")

    for s, (f, n) in chosen.items():
        rep.ob("R1-readable", f"create_parser {s}", implied(s, readable), f"names ending in {s!r} are given a filing parser, but no document parser is registered for them", f.loc(n), key=f"R1:create_parser:{s}")

    loaders = [c for c in objs.concrete_subclasses(p, "PathLoader")]
    if len(loaders) < 3:
        raise AnalysisError(f"only {len(loaders)} loaders found")
    single, containers, zips = {}, [], []
    for c in sorted(loaders, key=lambda c: c.name):
        rep.saw("loaders", c.fullname)
        isl, ld = c.lookup("is_loader_for"), c.lookup("load")
        ri, rl = reach(p, [isl], inside), reach(p, [ld], inside)
        si, xi = suffixes(p, ri)
        sl, xl = suffixes(p, rl)
        if lists_files(p, rl):
            for q in nested_loaders(p, rl, loaders):
                if q is not c:
                    rq = reach(p, [q.lookup("load")], inside)
                    a, b = suffixes(p, rq)
                    sl = {**a, **sl}
                    xl = {**b, **xl}
            containers.append((c, ld, {k: v for k, v in sl.items() if k != ".zip"}, xl))
            yielded = {k: v for k, v in sl.items() if k != ".zip"}
            if uses_zip(p, rl):
                zips.append((c, ld, rl, si))
        else:
            yielded = si
            single[c.name] = (c, isl, si, xi, ri)
        for s, (f, n) in yielded.items():
            rep.ob("R1-readable", f"{c.name} {s}", implied(s, readable), f"{c.name} accepts names ending in {s!r}, but no document parser is registered for them", f.loc(n), key=f"R1:{c.name}:{s}")
            rep.ob("R2-dispatched", f"{c.name} {s}", implied(s, chosen), f"{c.name} accepts names ending in {s!r}, but no filing parser is chosen for them", f.loc(n), key=f"R2:{c.name}:{s}")

    if not single or not containers:
        raise AnalysisError("loaders of single documents and of containers were not told apart")
    for s in DOCUMENTED:
        ok = any(implied(s, si) and s not in xi for c, f, si, xi, ri in single.values())
        c, f, *_ = next(iter(single.values()))
        rep.ob("R3-documented", f"document {s}", ok, f"a single document whose name ends in {s!r} is accepted by no loader", f.loc(), key=f"R3:{s}")
        rep.ob("R2-dispatched", f"document {s}", implied(s, chosen), f"no filing parser is chosen for documents whose names end in {s!r}", cp.loc(), key=f"R2:{s}")
    web = any(v.startswith(("http", "ftp")) or "://" in v for c, f, si, xi, ri in single.values() for g in ri for v, _ in literal_strings(p, g))
    c, f, *_ = next(iter(single.values()))
    rep.ob("R3-documented", "remote address", web, "remote addresses are accepted by no loader", f.loc(), key="R3:remote")
    for scheme in ("http://", "https://"):
        ok = any(scheme.startswith(v) and v.startswith("http") for c_, f_, si, xi, ri in single.values() for g in ri for v, _ in literal_strings(p, g)) or not web
        rep.ob("R3-documented", scheme, ok, f"addresses starting with {scheme} are accepted by no loader", f.loc(), key=f"R3:{scheme}")
    dirs = [c for c, ld, sl, xl in containers if any(dotted(k.func) and dotted(k.func).split(".")[-1] in ("isdir", "is_dir") for g in reach(p, [c.lookup("is_loader_for")], inside) for k in p.calls_in(g))]
    rep.ob("R3-documented", "folder", bool(dirs), "folders are accepted by no loader", containers[0][1].loc(), key="R3:folder")
    rep.ob("R3-documented", "zip archive", any(".zip" in si or uses_zip(p, reach(p, [c.lookup("is_loader_for")], inside)) for c, ld, rl, si in zips), "zip archives are accepted by no loader", containers[-1][1].loc(), key="R3:zip")

    for c, ld, sl, xl in containers:
        if not sl and not xl:
            continue   # names are not filtered: everything is handed on
        for s in CONTENTS:
            ok = (implied(s, sl) if sl else True) and s not in xl
            rep.ob("R4-contents", f"{c.name} {s}", ok, f"{c.name} leaves out documents whose names end in {s!r}", ld.loc(), key=f"R4:{c.name}:{s}")

    for c, ld, rl, si in zips:
        bad = bare_members(p, rl)
        rep.ob("R5-members", c.name, bad is None, f"{c.name} hands on the names of archive members, which name no file that the next stage could open", bad[0].loc(bad[1]) if bad else "", key=f"R5:{c.name}")

    agreement(p, rep, cp, groups, inside)
    registration(p, rep, cls, loaders, cp)
    rep.stats["readable"] = sorted(readable)
    rep.stats["dispatched"] = sorted(chosen)
    rep.assume("names are matched as written; upper case suffixes are accepted by no stage")


def literal_strings(p, f):
    out = []
    doc = docstrings(f.node)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in doc:
            out.append((n.value, n))
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            out += consts(p, f, n)
    return out


def resolver_table(p, c):
    """suffix -> text of the parser it is mapped to, in order"""
    out = {}
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    ks = [x for x, _ in consts(p, f, k)] if k is not None else []
                    for x in ks:
                        if EXT.match(x):
                            out.setdefault(x, ast.unparse(v))
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                for x, _ in consts(p, f, n.targets[0].slice):
                    if EXT.match(x):
                        out[x] = ast.unparse(n.value)
            elif isinstance(n, ast.DictComp):
                for x, _ in consts(p, f, n.generators[0].iter):
                    if EXT.match(x):
                        out.setdefault(x, ast.unparse(n.value))
    if len(out) < 2:
        # a chain of tests, each followed by the parser it selects
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.If) and n.body and isinstance(n.body[-1], ast.Return) and n.body[-1].value is not None:
                    for k in ast.walk(n.test):
                        if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "endswith":
                            for x, _ in consts(p, f, k.args[0]):
                                if EXT.match(x):
                                    out.setdefault(x, ast.unparse(n.body[-1].value))
    return out


def lists_files(p, fs):
    for f in fs:
        for k in p.calls_in(f):
            d = (dotted(k.func) or "").split(".")[-1]
            if d in ("listdir", "walk", "scandir", "namelist", "infolist", "glob", "rglob", "iterdir", "iglob", "extractall", "unpack_archive"):
                return True
            if isinstance(k.func, ast.Attribute) and k.func.attr in ("namelist", "infolist", "iterdir", "glob", "rglob", "extractall"):
                return True
    return False


def uses_zip(p, fs):
    return any((dotted(k.func) or "").split(".")[-1] in ("ZipFile", "unpack_archive", "is_zipfile") for f in fs for k in p.calls_in(f))


def nested_loaders(p, fs, loaders):
    out = []
    for f in fs:
        for k in p.calls_in(f):
            r = p.resolve_expr(f.module, k.func, f)
            if r is not None and r[0] == "class" and r[1] in loaders:
                out.append(r[1])
    return out


def bare_members(p, fs):
    """a returned value that is a list of member names as the archive gives them"""
    for f in fs:
        tainted = set()

        def raw(e):
            if isinstance(e, ast.Call):
                d = (dotted(e.func) or "").split(".")[-1] if dotted(e.func) else getattr(e.func, "attr", "")
                if d in ("namelist", "infolist"):
                    return True
                if d in ("list", "sorted", "tuple", "filter", "set", "reversed", "iter"):
                    return any(raw(a) for a in e.args)
                return False
            if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                src = [g.target.id for g in e.generators if isinstance(g.target, ast.Name) and raw(g.iter)]
                x = e.elt
                if isinstance(x, ast.Attribute) and x.attr == "filename":
                    x = x.value
                return isinstance(x, ast.Name) and x.id in src
            if isinstance(e, ast.Name):
                return e.id in tainted
            if isinstance(e, ast.Attribute) and e.attr == "filename":
                return raw(e.value)
            if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
                return any(raw(x) for x in e.elts)
            if isinstance(e, ast.Starred):
                return raw(e.value)
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                return raw(e.left) and raw(e.right)
            if isinstance(e, ast.IfExp):
                return raw(e.body) or raw(e.orelse)
            return False
        for _ in range(4):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and raw(n.value):
                    tainted |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                elif isinstance(n, ast.For) and raw(n.iter) and isinstance(n.target, ast.Name):
                    tainted.add(n.target.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add") and n.args and raw(n.args[0]) and isinstance(n.func.value, ast.Name):
                    tainted.add(n.func.value.id)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and raw(n.value):
                return f, n
    return None


def agreement(p, rep, cp, groups, inside):
    """each test that leads to a filing parser: its suffixes map to document parsers that this filing parser expects"""
    kinds = {}
    for s, v in groups.items():
        kinds.setdefault(v, set()).add(s)
    names = list(groups)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            clash = b.endswith(a) and groups[a] != groups[b]
            rep.ob("R6-agree", f"{a} before {b}", not clash, f"{b!r} names are matched by {a!r} first and get its parser", next(iter(rc_functions(p))).loc(), key=f"R6:order:{a}:{b}")
    plain = next((v for s, v in groups.items() if s == ".xsd"), None)
    rep.ob("R6-agree", "xml", groups.get(".xml") == plain, "instances and schemas get different document parsers", cp.loc(), key="R6:xml")
    for s in (".xhtml", ".htm", ".html"):
        if s in groups:
            rep.ob("R6-agree", s, groups[s] != plain, f"documents whose names end in {s!r} get the parser for plain XML documents", cp.loc(), key=f"R6:{s}")
    # the filing parser for plain instances is chosen only by the suffixes of plain documents
    first = [n for n in ast.walk(cp.node) if isinstance(n, ast.If)]
    for n in first:
        made = set()
        for s in n.body:
            for k in ast.walk(s):
                if isinstance(k, ast.Call):
                    made.add((dotted(k.func) or "").split(".")[-1])
        if not any("xml" in m and "xhtml" not in m for m in made) or any("xhtml" in m for m in made):
            continue
        neg = any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) for x in ast.walk(n.test))
        fs = [g for k in ast.walk(n.test) if isinstance(k, (ast.Name, ast.Attribute)) for g in named(p, cp, k, inside)]
        found = set()
        for k in ast.walk(n.test):
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "endswith":
                found |= {v for v, _ in consts(p, cp, k.args[0]) if EXT.match(v)}
        if fs:
            found |= set(suffixes(p, fs)[0])
        if neg or not found:
            continue
        wrong = sorted(s for s in found if groups.get(s, plain) != plain)
        rep.ob("R6-agree", "plain filing parser", not wrong, f"the parser for plain instances is chosen for names ending in {', '.join(wrong)}", cp.loc(n), key="R6:plain")
        anyq = any(isinstance(x, ast.Call) and dotted(x.func) == "any" for x in ast.walk(n.test))
        rep.ob("R6-agree", "all documents are plain", not anyq, "the parser for plain instances is chosen although only some documents are plain", cp.loc(n), key="R6:any")


def rc_functions(p):
    c = next(c for c in p.classes.values() if c.name == "XMLFileParserResolver")
    return c.methods.values()


def named(p, f, e, inside):
    r = p.resolve_expr(f.module, e, f)
    if r is not None and r[0] in ("func", "function"):
        return reach(p, [r[1]], inside)
    return []


def registration(p, rep, cls, loaders, cp):
    made = {}
    for f in p.all_functions():
        for k in p.calls_in(f):
            r = p.resolve_expr(f.module, k.func, f)
            if r is not None and r[0] == "class" and r[1] in loaders:
                made.setdefault(r[1], f)
    for m in p.modules.values():
        skip = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                skip |= {id(x) for b in n.bases for x in ast.walk(b)}
            elif isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None:
                skip |= {id(x) for x in ast.walk(n.annotation)}
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
                skip |= {id(x) for x in ast.walk(n.returns)}
            elif isinstance(n, ast.Call) and dotted(n.func) in ("isinstance", "issubclass", "cast"):
                skip |= {id(x) for a in n.args for x in ast.walk(a)}
        for n in ast.walk(m.tree):
            # mentioned as a value: called, or kept in a collection of classes
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in skip:
                r = p.resolve_expr(m, n, p.enclosing_function(n))
                if r is not None and r[0] == "class" and r[1] in loaders:
                    made.setdefault(r[1], None)
    for c in sorted(loaders, key=lambda c: c.name):
        rep.ob("R7-registered", c.name, c in made, f"{c.name} is never registered as a loader", f"{c.module.relpath}:{c.node.lineno}", key=f"R7:{c.name}")
    op = cls["Filing"].lookup("open")
    if op is None:
        raise AnalysisError("Filing.open not found")
    names = {getattr(k.func, "attr", None) or getattr(k.func, "id", None) for g in reach(p, [op], lambda f: True) for k in p.calls_in(g)}
    for need in ("get_path_loader", "load", "create_parser", "parse"):
        rep.ob("R7-registered", f"open:{need}", need in names, f"Filing.open does not reach {need}", op.loc(), key=f"R7:open:{need}")
