"""C37: a document means the same whatever prefixes it declares and however XML lets it be written.

Names that brel itself spells with a prefix (in paths, attribute names, comparisons with names of elements and formats) may be
given their namespace by a constant of brel only, never by the declarations of the document at hand."""
from __future__ import annotations
import ast
import re
from ..formats import Unknown, data, module_assigns

KNOWN = {
    "ix": {"http://www.xbrl.org/2013/inlineXBRL"},
    "link": {"http://www.xbrl.org/2003/linkbase"},
    "xlink": {"http://www.w3.org/1999/xlink"},
    "xbrli": {"http://www.xbrl.org/2003/instance"},
    "xbrldt": {"http://xbrl.org/2005/xbrldt"},
    "xbrldi": {"http://xbrl.org/2006/xbrldi"},
    "xsi": {"http://www.w3.org/2001/XMLSchema-instance"},
    "xs": {"http://www.w3.org/2001/XMLSchema"},
    "xsd": {"http://www.w3.org/2001/XMLSchema"},
    "xml": {"http://www.w3.org/XML/1998/namespace"},
    "xhtml": {"http://www.w3.org/1999/xhtml"},
}
FORMATS = "http://www.xbrl.org/inlineXBRL/transformation"
URIS = {u for v in KNOWN.values() for u in v}
BOOLEANS = {"abstract", "nillable", "nil", "xsi:nil", "escape", "closed", "usable", "cyclesAllowed"}
QUERIES = {"find", "findall", "iterfind", "findtext", "xpath", "XPath", "ETXPath"}
TRUE, FALSE = ("true", "1"), ("false", "0")


def dead(f):
    return "table_linkbase" in f.module.relpath


def functions(p):
    return [f for f in p.all_functions() if not dead(f)]


def const(p, f, e):
    try:
        return data(p, f.module, e, f)
    except Unknown:
        return None


def callee_name(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)


def argument(g, call, name):
    """the expression given to the parameter of that name of g"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    pos = [n for n, k, a, d in g.params if k == "pos"]
    if name not in pos:
        return None
    i = pos.index(name)
    if g.cls is not None and pos and pos[0] in ("self", "cls") and isinstance(call.func, ast.Attribute) and not g.is_static:
        i -= 1
    if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args):
        return call.args[i]
    return None


def mentioned_tables(p, f):
    """the constant prefix -> namespace tables a function mentions: [{prefix: uri}]"""
    out = []
    for n in ast.walk(f.node):
        e = None
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            if isinstance(n, ast.Attribute):
                v = None
                for m in p.modules.values():
                    a = module_assigns(m)
                    if n.attr in a:
                        v = (m, a[n.attr])
                for c in p.classes.values() if hasattr(p, "classes") and isinstance(p.classes, dict) else ():
                    for s in c.node.body:
                        if isinstance(s, (ast.Assign, ast.AnnAssign)):
                            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                            if isinstance(t, ast.Name) and t.id == n.attr and s.value is not None:
                                v = (c.module, s.value)
                if v is None:
                    continue
                try:
                    t = data(p, v[0], v[1])
                except Unknown:
                    continue
            else:
                t = const(p, f, n)
        elif isinstance(n, ast.Dict):
            t = const(p, f, n)
        else:
            continue
        if isinstance(t, dict) and t and all(isinstance(k, str) and isinstance(v, str) for k, v in t.items()) and any(k in KNOWN for k in t):
            out.append(t)
    return out


def is_element(p, f, e, strict=False):
    """the expression is an element of a document (or its attributes); lxml is not typed, so what is not known may be one"""
    if isinstance(e, ast.Attribute) and e.attr == "attrib":
        return True
    names = p.type_names(f.module, e)
    if any("_Element" in t or "_Attrib" in t for t in names):
        return True
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            for n, k, a, d in g.params:
                if n == e.id and a is not None:
                    return "_Element" in ast.unparse(a)
            g = g.parent
    return not strict and not any(t.split(".")[-1] not in ("Any", "object", "_Element") for t in names)


class Facts:
    def __init__(self, p):
        self.p = p
        self._tables = {}
        self._reach = {}
        self.resolvers = set()

    def tables(self, f):
        if f not in self._tables:
            self._tables[f] = mentioned_tables(self.p, f)
        return self._tables[f]

    def reach(self, f, depth=4):
        """the function and what it calls, down to some depth"""
        k = (f, depth)
        if k not in self._reach:
            out = [f]
            self._reach[k] = out
            if depth:
                for c in self.p.calls_in(f):
                    for g in self.p.callees(f, c):
                        if g is not None and hasattr(g, "node"):
                            out += [h for h in self.reach(g, depth - 1) if h not in out]
        return self._reach[k]

    def knows(self, f, prefix, depth=4):
        """a constant of the function (or of what it calls) says what the prefix stands for"""
        if prefix == "ixt":
            return any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith(FORMATS) for g in self.reach(f, depth) for n in self.constants(g))
        return any(prefix in t for g in self.reach(f, depth) for t in self.tables(g))

    def names_by(self, f, prefix):
        """a constant of the function (or of what it calls, except to find out what a prefix stands for) gives the prefix"""
        return any(prefix in t for g in self.reach(f) if g not in self.resolvers for t in self.tables(g))

    def constants(self, f):
        yield from (n for n in ast.walk(f.node) if isinstance(n, ast.Constant))
        names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        for k, v in module_assigns(f.module).items():
            if k in names:
                yield from (n for n in ast.walk(v) if isinstance(n, ast.Constant))

    def asks_document(self, f, depth=4):
        """the function (or what it calls) looks at the prefixes the document declares"""
        return any(isinstance(n, ast.Attribute) and n.attr in ("nsmap", "prefix") for g in self.reach(f, depth) for n in ast.walk(g.node))


def prefixes(path):
    """the prefixes of a path expression"""
    path = re.sub(r"'[^']*'|\"[^\"]*\"|\{[^}]*\}", "", path)
    path = re.sub(r"[\w-]+::", "", path)
    return sorted(set(re.findall(r"([A-Za-z_][\w.-]*):(?=[\w*])", path)))


def strings_of(p, f, e, seen=()):
    """the constant texts an expression may be, or None for what is not known"""
    if isinstance(e, ast.IfExp):
        return strings_of(p, f, e.body, seen) + strings_of(p, f, e.orelse, seen)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in strings_of(p, f, v, seen)]
    v = const(p, f, e)
    if isinstance(v, str):
        return [v]
    if isinstance(v, (list, tuple, set, frozenset)) and all(isinstance(x, str) or x is None for x in v):
        return [x for x in v if isinstance(x, str)]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return [x for v in e.elts for x in strings_of(p, f, v, seen)]
    if isinstance(e, ast.Call):
        # a function that only joins its arguments
        for g in p.callees(f, e):
            if g is None or not hasattr(g, "node") or g in seen:
                continue
            rets = [n.value for n in p.own_nodes(g) if isinstance(n, ast.Return) and n.value is not None]
            if len(rets) == 1 and isinstance(rets[0], ast.JoinedStr):
                out = ""
                for part in rets[0].values:
                    if isinstance(part, ast.Constant):
                        out += part.value
                    elif isinstance(part.value, ast.Name):
                        a = argument(g, e, part.value.id)
                        s = strings_of(p, f, a, seen + (g,)) if a is not None else []
                        if len(s) != 1:
                            return []
                        out += s[0]
                    else:
                        return []
                return [out]
    return []


def assigned(p, f, name):
    return [n.value for n in p.own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)] + \
           [n.value for n in p.own_nodes(f) if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None]


def check(p, rep, tier):
    rep.rule("path", "a path brel spells with prefixes is evaluated with constants that say what these prefixes stand for", floor=4)
    rep.rule("attribute", "an attribute or name brel spells with a prefix is resolved with a constant that says what the prefix stands for", floor=10)
    rep.rule("tag", "a name is compared with one that brel spells with a prefix only after it was given the prefix brel uses", floor=6)
    rep.rule("format", "the name of a format is looked up and compared only after its prefix was replaced by the one brel uses", floor=1)
    rep.rule("boolean", "a boolean attribute can be written as a word and as a digit", floor=4)
    rep.rule("comments", "comments and processing instructions are left out when a document is parsed", floor=1)
    rep.rule("uri", "the constants that say what a prefix stands for are right", floor=10)
    X = Facts(p)
    fs = functions(p)
    paths(p, rep, X, fs)
    attributes(p, rep, X, fs)
    tags(p, rep, X, fs)
    formats(p, rep, X, fs)
    booleans(p, rep, X, fs)
    comments(p, rep, fs)
    uris(p, rep)
    rep.assume("namespaces of XBRL 2.1, dimensions 1.0 and inline XBRL 1.1 as published; the table linkbase parser, which nothing calls, is left out")


# ---- paths ----

def from_document(p, f, e, depth=0):
    """the namespace is the one the document declares for some prefix"""
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and x.attr == "nsmap":
            return True
        if isinstance(x, ast.Name) and depth < 4 and any(from_document(p, f, v, depth + 1) for v in assigned(p, f, x.id) if v is not e and not any(y is e for y in ast.walk(v))):
            return True
    return False


def grows(p, f, name):
    """the local table is filled after it was made"""
    for n in p.own_nodes(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault", "pop") and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return True
    return False


def mapping_prefixes(p, X, f, e, depth=0):
    """(prefixes for which a constant is used, whether only the document says the rest) of a namespace mapping; None: not known"""
    if depth > 6 or e is None:
        return None
    t = const(p, f, e) if not (isinstance(e, ast.Name) and grows(p, f, e.id)) else None
    if isinstance(t, dict) and all(isinstance(v, str) for v in t.values()):
        return {k for k in t if isinstance(k, str)}, True
    if isinstance(e, ast.Constant) and e.value is None:
        return set(), True
    if isinstance(e, ast.Attribute) and e.attr == "nsmap":
        return set(), True
    if isinstance(e, ast.Dict):
        got, only = set(), True
        for k, v in zip(e.keys, e.values):
            if k is None:
                r = mapping_prefixes(p, X, f, v, depth + 1)
                if r is None:
                    return None
                got |= r[0]
                only &= r[1]
            else:
                s = const(p, f, k)
                if not isinstance(s, str):
                    return None
                if not from_document(p, f, v):
                    got.add(s)
        return got, only
    if isinstance(e, ast.DictComp) or isinstance(e, ast.Call) and callee_name(e) == "dict" and len(e.args) == 1:
        src = e.generators[0].iter if isinstance(e, ast.DictComp) else e.args[0]
        while True:
            if isinstance(src, ast.Call) and callee_name(src) == "items" and isinstance(src.func, ast.Attribute):
                src = src.func.value
            elif isinstance(src, ast.GeneratorExp):
                src = src.generators[0].iter
            else:
                break
        r = mapping_prefixes(p, X, f, src, depth + 1)
        if r is None:
            return None
        if isinstance(e, ast.Call):
            for k in e.keywords:
                if k.arg is None:
                    q = mapping_prefixes(p, X, f, k.value, depth + 1)
                    if q is None:
                        return None
                    r = (r[0] | q[0], r[1])
                else:
                    r = (r[0] | {k.arg}, r[1])
        return r
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = (mapping_prefixes(p, X, f, x, depth + 1) for x in (e.left, e.right))
        return None if a is None or b is None else (a[0] | b[0], a[1] and b[1])
    if isinstance(e, ast.BoolOp):
        rs = [mapping_prefixes(p, X, f, x, depth + 1) for x in e.values]
        rs = [r for r in rs if r is None or r[0] or len(rs) == 1 or True]
        if any(r is None for r in rs):
            return None
        return set.intersection(*[r[0] for r in rs[1:]]) if len(rs) > 1 else rs[0][0], True
    if isinstance(e, ast.Name):
        if any(e.id == n for n, k, a, d in f.params):
            got = assigned(p, f, e.id)
            if not got:
                return None
        else:
            got = assigned(p, f, e.id)
        if not got:
            return None
        rs = [mapping_prefixes(p, X, f, x, depth + 1) for x in got]
        if any(r is None for r in rs):
            return None
        out = set.intersection(*[r[0] for r in rs])
        for n in p.own_nodes(f):
            # what is added afterwards
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                for a in n.args:
                    r = mapping_prefixes(p, X, f, a, depth + 1)
                    if r is None:
                        return None
                    out = out | r[0]
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == e.id:
                s = const(p, f, n.targets[0].slice)
                if not isinstance(s, str):
                    return None
                out = out | {s}
        return out, all(r[1] for r in rs)
    if isinstance(e, ast.Call):
        gs = [g for g in p.callees(f, e) if g is not None and hasattr(g, "node")]
        if len(gs) == 1:
            rets = [n.value for n in p.own_nodes(gs[0]) if isinstance(n, ast.Return) and n.value is not None]
            rs = [mapping_prefixes(p, X, gs[0], r, depth + 1) for r in rets]
            if rs and all(r is not None for r in rs):
                return set.intersection(*[r[0] for r in rs]), all(r[1] for r in rs)
        if callee_name(e) == "cast" and len(e.args) == 2:
            return mapping_prefixes(p, X, f, e.args[1], depth + 1)
    return None


def query_parts(p, f, c):
    """(path expression, namespace mapping or None) of a call that evaluates a path"""
    nm = callee_name(c)
    if nm not in QUERIES or not c.args and not c.keywords:
        return None
    if nm == "find" and not (isinstance(c.func, ast.Attribute)):
        return None
    if any(g is not None for g in p.callees(f, c)):
        return None
    kw = {k.arg: k.value for k in c.keywords}
    q = c.args[0] if c.args else kw.get("path", kw.get("_path"))
    ns = kw.get("namespaces")
    if ns is None and len(c.args) > 1 and nm != "xpath":
        ns = c.args[1] if nm != "findtext" else (c.args[2] if len(c.args) > 2 else None)
    return q, ns


def paths(p, rep, X, fs):
    # functions that evaluate a path they are given: function -> (path parameter, mapping parameter or None, prefixes by default)
    wrappers = {}
    for _ in range(3):
        for f in fs:
            ps = [n for n, k, a, d in f.params]
            for c in p.calls_in(f):
                got = query_parts(p, f, c)
                if got is None:
                    for g in p.callees(f, c):
                        if g in wrappers and g is not f:
                            q = argument(g, c, wrappers[g][0])
                            if isinstance(q, ast.Name) and q.id in ps and wrappers[g][0]:
                                ns = argument(g, c, wrappers[g][1]) if wrappers[g][1] else None
                                if ns is None:
                                    wrappers.setdefault(f, (q.id, None, wrappers[g][2]))
                                elif isinstance(ns, ast.Name) and ns.id in ps:
                                    own = mapping_prefixes(p, X, f, ns)
                                    wrappers.setdefault(f, (q.id, ns.id, wrappers[g][2] if own is None else own[0]))
                    continue
                q, ns = got
                if isinstance(q, ast.Name) and q.id in ps:
                    mp = ns.id if isinstance(ns, ast.Name) and ns.id in ps else None
                    r = mapping_prefixes(p, X, f, ns) if ns is not None else (set(), True)
                    wrappers[f] = (q.id, mp, None if r is None else r[0])
    for f in fs:
        for c in p.calls_in(f):
            got = query_parts(p, f, c)
            default = set()
            if got is None:
                gs = [g for g in p.callees(f, c) if g in wrappers]
                if not gs:
                    continue
                g = gs[0]
                q = argument(g, c, wrappers[g][0])
                ns = argument(g, c, wrappers[g][1]) if wrappers[g][1] else None
                default = wrappers[g][2]
            else:
                q, ns = got
            if q is None:
                continue
            for s in strings_of(p, f, q):
                ps = [x for x in prefixes(s) if x != "xml"]
                if not ps:
                    continue
                if ns is not None and not (isinstance(ns, ast.Constant) and ns.value is None):
                    r = mapping_prefixes(p, X, f, ns)
                    have = None if r is None else r[0]
                else:
                    have = default
                for x in ps:
                    rep.ob("path", f"{f.qualname}: {s}: {x}", have is None or x in have, f"{f.qualname} looks for {s!r}, but what {x}: stands for is left to the document; with any other prefix nothing is found", f.loc(c), f"C37-path:{f.qualname}:{s}:{x}")


# ---- names of attributes and the like ----

def resolvers(p, X, fs):
    """function -> index/name of the parameter that is resolved as a prefixed name with the prefixes of the document"""
    out = {}
    for f in fs:
        ps = [n for n, k, a, d in f.params]
        maps = {t.id for n in p.own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == "nsmap" for x in ast.walk(n.value)) and not isinstance(n.value, (ast.DictComp,)) for t in n.targets if isinstance(t, ast.Name)}
        hit = False
        for n in p.own_nodes(f):
            base = key = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args:
                base, key = n.func.value, n.args[0]
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                base, key = n.value, n.slice
            if base is None or isinstance(key, ast.Constant):
                continue
            if isinstance(base, ast.Name) and base.id in maps or isinstance(base, ast.Attribute) and base.attr == "nsmap" or isinstance(base, ast.Call) and any(g is not None and X.asks_document(g, 1) for g in p.callees(f, base)):
                hit = hit or key
        if hit is not False:
            for q in ps:
                if derives(p, f, hit, q):
                    out[f] = q
                    break
    X.resolvers = set(out)
    for _ in range(5):
        for f in fs:
            if f in out:
                continue
            ps = [n for n, k, a, d in f.params]
            for c in p.calls_in(f):
                for g in p.callees(f, c):
                    if g in out:
                        a = argument(g, c, out[g])
                        if a is None:
                            continue
                        for q in ps:
                            if q not in ("self", "cls") and any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(a)) and isinstance(a, ast.Name):
                                out.setdefault(f, q)
    return out


def derives(p, f, e, q, depth=0):
    """the expression is computed from the parameter q"""
    if depth > 5:
        return False
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            if x.id == q:
                return True
            got = assigned(p, f, x.id)
            for n in p.own_nodes(f):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets[0].elts):
                    got.append(n.value)
            if any(v is not e and derives(p, f, v, q, depth + 1) for v in got):
                return True
    return False


def attributes(p, rep, X, fs):
    R = resolvers(p, X, fs)
    for f in fs:
        for c in p.calls_in(f):
            for g in p.callees(f, c):
                if g not in R:
                    continue
                a = argument(g, c, R[g])
                if a is None:
                    continue
                for s in strings_of(p, f, a):
                    m = re.fullmatch(r"([A-Za-z_][\w-]*):([\w-]+)", s)
                    if not m or m.group(1) not in KNOWN or m.group(1) == "xml":
                        continue
                    ok = X.knows(g, m.group(1))
                    rep.ob("attribute", f"{f.qualname}: {s}", ok, f"{f.qualname} names {s!r}, but {g.qualname} leaves what {m.group(1)}: stands for to the document; where it declares another prefix, nothing is found", f.loc(c), f"C37-attribute:{f.qualname}:{s}")
        for n in p.own_nodes(f):
            # attributes of an element asked for by prefix directly
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                m = re.fullmatch(r"(\w+):([\w-]+)", n.args[0].value)
                if m and m.group(1) in KNOWN and is_element(p, f, n.func.value, True):
                    rep.ob("attribute", f"{f.qualname}: {n.args[0].value}", False, f"{f.qualname} asks an element for {n.args[0].value!r}; an element knows its attributes by namespace, not by prefix", f.loc(n), f"C37-attribute:{f.qualname}:{n.args[0].value}")


# ---- comparisons ----

def prefixed(s):
    m = re.match(r"([A-Za-z_][\w-]*):(?!/)", s)
    return m.group(1) if m and (m.group(1) in KNOWN or m.group(1) == "ixt") else None


def raw(p, X, f, e, prefix, depth=0, seen=()):
    """how the compared name came by its prefix: 'document' (as the document wrote it), 'brel' (a constant gave it), None (not known)"""
    if depth > 5:
        return None
    if isinstance(e, ast.Name):
        for n in p.own_nodes(f):
            gens = n.generators if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) else [n] if isinstance(n, ast.For) else []
            for g in gens:
                if isinstance(g.target, ast.Name) and g.target.id == e.id:
                    return raw(p, X, f, g.iter, prefix, depth + 1, seen)
        got = assigned(p, f, e.id)
        rs = {raw(p, X, f, v, prefix, depth + 1, seen) for v in got}
        if "document" in rs:
            return "document"
        return "brel" if rs == {"brel"} else None
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        return raw(p, X, f, e.elt, prefix, depth + 1, seen)
    if isinstance(e, ast.Attribute):
        if e.attr in ("text", "tail", "prefix") and is_element(p, f, e.value):
            return "document"
        if e.attr == "tag" and is_element(p, f, e.value):
            return "document"    # {namespace}local: never written with a prefix
        return None
    if isinstance(e, ast.BoolOp):
        rs = {raw(p, X, f, v, prefix, depth + 1, seen) for v in e.values if not isinstance(v, ast.Constant)}
        return "document" if "document" in rs else "brel" if rs == {"brel"} else None
    if isinstance(e, ast.IfExp):
        rs = {raw(p, X, f, v, prefix, depth + 1, seen) for v in (e.body, e.orelse) if not isinstance(v, ast.Constant)}
        return "document" if "document" in rs else "brel" if rs == {"brel"} else None
    if isinstance(e, ast.BinOp):
        return raw_parts(p, X, f, [e.left, e.right], prefix, depth, seen)
    if isinstance(e, ast.JoinedStr):
        return raw_parts(p, X, f, [v.value for v in e.values if isinstance(v, ast.FormattedValue)], prefix, depth, seen)
    if isinstance(e, ast.Call):
        gs = [g for g in p.callees(f, e) if g is not None and hasattr(g, "node")]
        if gs:
            g = gs[0]
            if g in seen:
                return None
            if X.names_by(g, prefix):
                return "brel"
            if g.name == "prefix_local_name_notation" or X.asks_document(g):
                return "document"
            rets = [n.value for n in p.own_nodes(g) if isinstance(n, ast.Return) and n.value is not None]
            rs = {raw(p, X, g, r, prefix, depth + 1, seen + (g,)) for r in rets}
            rs2 = {r for r in rs if r}
            if attribute_read(p, g, e):
                return "document"
            return "document" if "document" in rs2 else None
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ("strip", "lower", "split", "lstrip", "rstrip", "items", "removesuffix"):
                return raw(p, X, f, e.func.value, prefix, depth + 1, seen)
            if e.func.attr in ("get",) and is_element(p, f, e.func.value, True):
                return "document"
        if callee_name(e) in ("list", "set", "tuple", "sorted", "str", "cast") and e.args:
            return raw(p, X, f, e.args[-1], prefix, depth + 1, seen)
        if callee_name(e) == "map" and len(e.args) == 2 and isinstance(e.args[0], ast.Lambda):
            return raw(p, X, f, e.args[0].body, prefix, depth + 1, seen)
        return None
    return None


def raw_parts(p, X, f, parts, prefix, depth, seen):
    rs = {raw(p, X, f, v, prefix, depth + 1, seen) for v in parts}
    return "document" if "document" in rs else None


def attribute_read(p, g, call):
    """the function returns the text of an attribute of an element"""
    for n in p.own_nodes(g):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and is_element(p, g, n.func.value, True):
            return True
    return False


def comparisons(p, f):
    """(compared expression, [texts], node) of every comparison with constant texts"""
    for n in p.own_nodes(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b, op = n.left, n.comparators[0], n.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq)):
                for x, y in ((a, b), (b, a)):
                    s = strings_of(p, f, y)
                    if s and not strings_of(p, f, x):
                        yield x, s, n
            elif isinstance(op, (ast.In, ast.NotIn)):
                s, t = strings_of(p, f, b), strings_of(p, f, a)
                if s and not t:
                    yield a, s, n
                elif t and not s:
                    yield b, t, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "startswith" and n.args:
            s = strings_of(p, f, n.args[0])
            if s:
                yield n.func.value, s, n
        elif isinstance(n, ast.Match):
            s = [x for k in n.cases for v in ast.walk(k.pattern) if isinstance(v, ast.MatchValue) for x in strings_of(p, f, v.value)]
            if s:
                yield n.subject, s, n


def tags(p, rep, X, fs):
    for f in fs:
        for e, texts, n in comparisons(p, f):
            for s in texts:
                x = prefixed(s)
                if x is None or x == "ixt" or x == "xml":
                    continue
                r = raw(p, X, f, e, x)
                rep.ob("tag", f"{f.qualname}: {s}", r != "document", f"{f.qualname} compares {ast.unparse(e)} with {s!r}, but its prefix is whichever the document declares", f.loc(n), f"C37-tag:{f.qualname}:{s}")


# ---- formats ----

def formats(p, rep, X, fs):
    canon = {g for g in fs if X.knows(g, "ixt", 0) and any(isinstance(n, ast.Return) and n.value is not None for n in p.own_nodes(g))}
    for _ in range(3):
        canon |= {g for g in fs if any(isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and any(h in canon for h in p.callees(g, n.value)) for n in p.own_nodes(g))}
    sources = []
    for f in fs:
        for n in p.own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                if any(isinstance(a, ast.Constant) and a.value == "format" for a in n.value.args) and (any(g is not None for g in p.callees(f, n.value)) or callee_name(n.value) == "get"):
                    sources.append((f, n.targets[0].id, n.lineno))
    done, work = set(), [(f, v) for f, v, _ in sources]
    while work:
        f, v = work.pop()
        if (f, v) in done or f in canon:
            continue
        done.add((f, v))
        uses = []
        walk_block(p, f, f.node.body, {v}, canon, uses)
        rep.ob("format", f"{f.qualname}({v})", True, "", f.loc(), f"C37-format:{f.qualname}:{v}:seen")
        for kind, n, what in uses:
            if kind == "call":
                for g in p.callees(f, n):
                    if g is None or not hasattr(g, "node"):
                        continue
                    for q in [a for a, k, _, _ in g.params]:
                        e = argument(g, n, q)
                        if isinstance(e, ast.Name) and e.id in what:
                            work.append((g, q))
            else:
                rep.ob("format", f"{f.qualname} {ast.unparse(n)[:60]}", False, f"{f.qualname} looks up a format under the name the document gives it ({ast.unparse(n)[:60]}); with any other prefix than ixt: it is unknown", f.loc(n), f"C37-format:{f.qualname}:{kind}")


def walk_block(p, f, body, names, canon, uses):
    """follow the names of a format that still have the prefix of the document, statement by statement"""
    for s in body:
        head = [s] if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)) else [x for x in (getattr(s, "test", None), getattr(s, "iter", None)) if x is not None]
        for h in head:
            for n in ast.walk(h):
                if isinstance(n, ast.Call):
                    args = [a for a in list(n.args) + [k.value for k in n.keywords]]
                    if any(isinstance(a, ast.Name) and a.id in names for a in args):
                        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and not any(g is not None for g in p.callees(f, n)) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in names and holds_formats(p, f, n.func.value):
                            uses.append(("lookup", n, set(names)))
                        elif not any(g in canon for g in p.callees(f, n)):
                            uses.append(("call", n, set(names)))
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "startswith" and isinstance(n.func.value, ast.Name) and n.func.value.id in names and n.args and any(t.startswith("ixt:") for t in strings_of(p, f, n.args[0])):
                        uses.append(("startswith", n, set(names)))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                        if isinstance(a, ast.Name) and a.id in names:
                            if any(t.startswith("ixt:") for t in strings_of(p, f, b)) or isinstance(n.ops[0], (ast.In, ast.NotIn)) and holds_formats(p, f, b):
                                uses.append(("comparison", n, set(names)))
                elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id in names and holds_formats(p, f, n.value):
                    uses.append(("lookup", n, set(names)))
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    v = s.value
                    same = isinstance(v, ast.Name) and v.id in names or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("strip", "lower", "replace") and isinstance(v.func.value, ast.Name) and v.func.value.id in names
                    if isinstance(v, ast.Call) and any(isinstance(a, ast.Constant) and a.value == "format" for a in v.args):
                        same = True
                    if same:
                        names.add(t.id)
                    elif t.id in names and not isinstance(v, ast.Constant):
                        names.discard(t.id)
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            outs = []
            for blk in [getattr(s, "body", []), getattr(s, "orelse", []), getattr(s, "finalbody", [])] + [h.body for h in getattr(s, "handlers", [])]:
                if blk or isinstance(s, ast.If):
                    ns = set(names)
                    walk_block(p, f, blk, ns, canon, uses)
                    outs.append(set() if blk and isinstance(blk[-1], (ast.Return, ast.Raise, ast.Continue)) else ns)
            names |= set().union(*outs) if outs else set()
            if isinstance(s, ast.If) and outs:
                names &= set().union(*outs)


def holds_formats(p, f, e):
    t = const(p, f, e)
    return isinstance(t, (dict, list, tuple, set, frozenset)) and any(isinstance(k, str) and k.startswith("ixt:") for k in t)


# ---- booleans ----

def boolean_reads(p, f):
    """(expression that reads a boolean attribute, its name)"""
    for c in p.calls_in(f):
        for a in c.args[:2]:
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                nm = a.value.split("}")[-1]
                if nm in BOOLEANS:
                    if isinstance(c.func, ast.Attribute) and c.func.attr == "get" and is_element(p, f, c.func.value):
                        yield c, nm
                    elif any(g is not None and any("_Element" in t for t in param_types(g)) for g in p.callees(f, c)):
                        yield c, nm


def param_types(g):
    return [ast.unparse(a) for _, _, a, _ in g.params if a is not None]


def booleans(p, rep, X, fs):
    for f in fs:
        for c, nm in boolean_reads(p, f):
            names = {t.id for n in p.own_nodes(f) if isinstance(n, ast.Assign) and (n.value is c or strip_of(n.value) is c) for t in n.targets if isinstance(t, ast.Name)}
            judge(p, rep, f, nm, c, names, f)
            for d in p.calls_in(f):
                for g in p.callees(f, d):
                    if g is None or not hasattr(g, "node") or dead(g):
                        continue
                    for q in [a for a, k, _, _ in g.params]:
                        e = argument(g, d, q)
                        if e is not None and (e is c or isinstance(e, ast.Name) and e.id in names):
                            judge(p, rep, g, nm, None, {q}, f)


def strip_of(e):
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("strip", "lower"):
        e = e.func.value
    if isinstance(e, ast.BoolOp):
        return strip_of(e.values[0])
    return e


def judge(p, rep, f, nm, c, names, origin):
    # the texts it is compared with, per decision (a whole if/elif chain or boolean expression is one decision)
    groups = {}
    parents = {}
    for n in ast.walk(f.node):
        for x in ast.iter_child_nodes(n):
            parents[x] = n
    for e, texts, n in comparisons(p, f):
        e = strip_of(e)
        if not (e is c or isinstance(e, ast.Name) and e.id in names):
            continue
        words = {t.lower() for t in texts}
        if not words & {"true", "false", "1", "0"}:
            continue
        top = n
        while top in parents and isinstance(parents[top], (ast.BoolOp, ast.UnaryOp, ast.IfExp)):
            top = parents[top]
        if isinstance(parents.get(top), ast.If):
            top = parents[top]
            while isinstance(parents.get(top), ast.If) and top in parents[top].orelse and len(parents[top].orelse) == 1:
                top = parents[top]
        groups.setdefault(top, [n, set()])[1].update(words)
    for i, (n, words) in enumerate(groups.values()):
        for pair in (TRUE, FALSE):
            got = words & set(pair)
            if got:
                rep.ob("boolean", f"{f.qualname} {nm}: {'/'.join(sorted(words))}", len(got) == 2, f"{f.qualname} reads the boolean {nm} as {sorted(got)[0]!r} only; it can also be written {(set(pair) - got or {''}).pop()!r}", f.loc(n), f"C37-boolean:{f.qualname}:{nm}:{pair[0]}")


# ---- comments ----

def comments(p, rep, fs):
    for f in fs:
        for c in p.calls_in(f):
            if callee_name(c) == "XMLParser" and not any(g is not None for g in p.callees(f, c)):
                kw = {k.arg: k.value for k in c.keywords}
                more = const(p, f, kw[None]) if None in kw else {}
                for k in ("remove_comments", "remove_pis"):
                    v = const(p, f, kw[k]) if k in kw else more.get(k, False) if isinstance(more, dict) else None
                    rep.ob("comments", f"{f.qualname} {k}", v is not False, f"{f.qualname} parses documents without {k}: such nodes then count as elements and split the text around them", f.loc(c), f"C37-comments:{f.qualname}:{k}")
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and callee_name(n) == "XMLParser" and p.enclosing_function(n) is None:
                kw = {k.arg: k.value for k in n.keywords}
                for k in ("remove_comments", "remove_pis"):
                    ok = None in kw or k in kw and not (isinstance(kw[k], ast.Constant) and kw[k].value is False)
                    rep.ob("comments", f"{m.name} {k}", ok, f"{m.name} parses documents without {k}", f"{m.relpath}:{n.lineno}", f"C37-comments:{m.name}:{k}")


# ---- what the prefixes stand for ----

def uris(p, rep):
    for m in p.modules.values():
        if "table_linkbase" in m.relpath:
            continue
        doc = {id(s.value) for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) for s in n.body[:1] if isinstance(s, ast.Expr)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value in KNOWN and isinstance(v, ast.Constant) and isinstance(v.value, str) and "/" in v.value:
                        rep.ob("uri", f"{m.name} {k.value}", v.value in KNOWN[k.value], f"{m.name} takes {k.value}: for {v.value}", f"{m.relpath}:{v.lineno}", f"C37-uri:{m.name}:{k.value}")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value in KNOWN and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and "/" in n.value.value:
                k = n.targets[0].slice.value
                rep.ob("uri", f"{m.name} {k}", n.value.value in KNOWN[k], f"{m.name} takes {k}: for {n.value.value}", f"{m.relpath}:{n.lineno}", f"C37-uri:{m.name}:{k}")
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc:
                u = re.match(r"\{?(https?://(?:www\.)?(?:xbrl\.org|w3\.org)/[^\s}]*)", n.value)
                if u and near_known(u.group(1)):
                    rep.ob("uri", f"{m.name} {u.group(1)}", u.group(1) in URIS, f"{m.name} names the namespace {u.group(1)}, which does not exist", f"{m.relpath}:{n.lineno}", f"C37-uri:{m.name}:{u.group(1)}")


def near_known(u):
    """a namespace of brel, or something that was meant to be one"""
    if u in URIS:
        return True
    key = lambda x: re.sub(r"https?://(www\.)?|\d{4}|[/#]$", "", x).lower()
    return key(u) in {key(k) for k in URIS}
