"""Selection of facts: which elements reach the loops that store facts, and what is lost on the way."""
import ast
from . import cfg as C
from .settle import Settle, TooMany



INLINE = "http://www.xbrl.org/2013/inlineXBRL"
FINDERS = {"find_elements", "findall", "iterfind", "xpath", "XPath", "iter", "iterdescendants", "iterchildren", "getchildren"}
PASS = {"list", "tuple", "sorted", "reversed", "set", "iter", "chain", "enumerate"}


class Slice:
    def __init__(self, p, fs):
        self.p, self.fs = p, fs
        self.seen = set()
        self.finds, self.filters, self.cuts, self.accums = [], [], [], []
        self.callers = {}
        for f in fs:
            for c in p.calls_in(f):
                for g in p.callees(f, c):
                    self.callers.setdefault(g, []).append((f, c))

    def go(self, f, e, depth=0):
        if e is None or (id(e), f) in self.seen or depth > 40:
            return
        self.seen.add((id(e), f))
        n = lambda x: self.go(f, x, depth + 1)
        if isinstance(e, ast.Name):
            self.name(f, e.id, depth)
        elif isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            for g in e.generators:
                for i in g.ifs:
                    self.filters.append((f, i, {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}))
                n(g.iter)
            # the elements: what is reached from the variables is reached from the iterables
            if not isinstance(e.elt, ast.Name):
                n(e.elt)
        elif isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice) and not (e.slice.lower is None and e.slice.upper is None and (e.slice.step is None or isinstance(e.slice.step, ast.UnaryOp))):
                self.cuts.append((f, e))
            n(e.value)
        elif isinstance(e, ast.BinOp):
            n(e.left)
            n(e.right)
        elif isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            for x in e.elts:
                n(x)
        elif isinstance(e, ast.Starred):
            n(e.value)
        elif isinstance(e, ast.IfExp):
            n(e.body)
            n(e.orelse)
        elif isinstance(e, ast.BoolOp):
            for x in e.values:
                n(x)
        elif isinstance(e, ast.Call):
            self.call(f, e, depth)

    def call(self, f, e, depth):
        n = lambda x: self.go(f, x, depth + 1)
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        if name in FINDERS and not (name == "iter" and isinstance(e.func, ast.Name)):
            self.finds.append((f, e, name))
            if isinstance(e.func, ast.Attribute):
                n(e.func.value)
            if isinstance(e.func, ast.Name) and e.args:
                n(e.args[0])
            return
        if name in PASS and isinstance(e.func, ast.Name) or name == "chain":
            for a in e.args:
                n(a)
            return
        if name == "islice":
            self.cuts.append((f, e))
            n(e.args[0] if e.args else None)
            return
        if name == "filter" and len(e.args) == 2:
            fn = e.args[0]
            if isinstance(fn, ast.Lambda):
                self.filters.append((f, fn.body, {a.arg for a in fn.args.args}))
            n(e.args[1])
            return
        if name in ("getroot", "copy") and isinstance(e.func, ast.Attribute):
            n(e.func.value)
            return
        for g in self.p.callees(f, e):
            if g.is_abstract or g not in self.fs:
                continue
            for r in ast.walk(g.node):
                if isinstance(r, ast.Return) and r.value is not None and self.owner(g, r):
                    self.go(g, r.value, depth + 1)

    def owner(self, g, node):
        return self.p.enclosing_function(node) is g

    def name(self, f, name, depth):
        if (name, f) in self.seen:
            return
        self.seen.add((name, f))
        bound = False
        for x in self.p.own_nodes(f):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    bound |= self.target(f, t, x.value, name, depth)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                bound = True
                self.go(f, x.value, depth + 1)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                self.accums.append((f, name, x))
                self.go(f, x.value, depth + 1)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name \
                    and x.func.attr in ("append", "extend", "add", "update", "insert"):
                self.accums.append((f, name, x))
                for a in x.args:
                    self.go(f, a, depth + 1)
            elif isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                self.go(f, x.iter, depth + 1)
                if isinstance(x, ast.comprehension):
                    for i in x.ifs:
                        self.filters.append((f, i, {name}))
        for i, (pn, kind, an, d) in enumerate(f.params):
            if pn == name:
                for g, c in self.callers.get(f, []):
                    off = 1 if f.cls is not None and not f.is_static else 0
                    for j, a in enumerate(c.args):
                        if j + off == i:
                            self.go(g, a, depth + 1)
                    for k in c.keywords:
                        if k.arg == name:
                            self.go(g, k.value, depth + 1)
        if f.parent is not None and name not in self.p.local_names(f):
            self.name(f.parent, name, depth + 1)

    def target(self, f, t, value, name, depth):
        if isinstance(t, ast.Name):
            if t.id == name:
                self.go(f, value, depth + 1)
                return True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name) and x.id == name:
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        self.go(f, value.elts[i], depth + 1)
                    elif isinstance(value, ast.Call):
                        for g in self.p.callees(f, value):
                            if g in self.fs and not g.is_abstract:
                                for r in ast.walk(g.node):
                                    if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts) == len(t.elts) and self.owner(g, r):
                                        self.go(g, r.value.elts[i], depth + 1)
                    return True
        return False


def suspicious(e, own):
    """does a filter look at more than what kind of element it is?"""
    def about(x):
        return any(isinstance(y, ast.Name) and y.id in own for y in ast.walk(x))
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if nm in ("get", "get_str_attribute", "get_str_attribute_optional", "has_str_attribute", "getparent", "getprevious", "getnext") and about(x):
                consts = {c.value for c in ast.walk(x) if isinstance(c, ast.Constant)}
                if "contextRef" not in consts:
                    return True
        if isinstance(x, ast.Attribute) and x.attr in ("text", "tail", "sourceline") and about(x.value):
            return True
        if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and isinstance(c, ast.Name) for o, c in zip(x.ops, x.comparators)) \
                and isinstance(x.left, ast.Name) and x.left.id in own:
            return True
        if isinstance(x, ast.Compare) and any(isinstance(c, ast.Attribute) and c.attr == "attrib" for c in x.comparators):
            if not (isinstance(x.left, ast.Constant) and x.left.value == "contextRef"):
                return True
    return False


def const(p, f, e):
    if isinstance(e, ast.Constant):
        return e.value
    r = p.resolve_expr(f.module, e, f) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r is not None and r[0] == "var":
        v = r[-1]
        if isinstance(v, ast.AST):
            return const(p, f, v)
    return None


def mapping(p, f, e):
    """a literal prefix mapping, or None"""
    if isinstance(e, ast.Dict):
        return {const(p, f, k): const(p, f, v) for k, v in zip(e.keys, e.values) if k is not None}
    if isinstance(e, ast.Name):
        for x in p.own_nodes(f):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name) and t.id == e.id and x.value is not None:
                        return mapping(p, f, x.value)
        for x in f.module.tree.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name) and t.id == e.id and x.value is not None:
                        return mapping(p, f, x.value)
    return None


def selection(p, rep, S, c, duty, fs):
    sl = Slice(p, fs)
    for f, h, kind in duty:
        if h.kind == "for" and kind == "fact":
            sl.go(f, h.ast.iter)
    names, vague = set(), False
    where = c.name
    for f, e, nm in sl.finds:
        args = list(e.args)[1:] if isinstance(e.func, ast.Name) and nm != "XPath" else list(e.args)
        loc = f.loc(e)
        pats = [const(p, f, a) for a in (args if nm.startswith("iter") else args[:1])]
        if not pats or any(not isinstance(x, str) for x in pats):
            vague = True
            continue
        deep = nm in ("iter", "iterdescendants")
        for pat in pats:
            for br in pat.split("|"):
                br = br.strip()
                if "header" in br or br.endswith(":hidden") or br.endswith("}hidden"):
                    continue
                down = deep or br.startswith((".//", "//", "descendant"))
                local = br.split("[")[0].split("/")[-1].split("}")[-1].split(":")[-1]
                pred = br[br.index("["):] if "[" in br else ""
                extra = pred.replace("[@contextRef]", "")
                if local in ("nonFraction", "nonNumeric") or (local == "*" and "contextRef" in pred):
                    names.add(local)
                elif "local-name()" in pred:
                    vague = True
                    continue
                else:
                    continue
                rep.ob("selected", f"{where}: {br}", down and not extra, f"{f.qualname}: facts are only looked for as {br}, not everywhere below the root", loc,
                       key=f"selected:{c.name}:where:{local}")
                prefix = br.split("[")[0].split("/")[-1].split("}")[-1]
                if ":" in prefix and "{" not in br:
                    pre = prefix.split(":")[0]
                    ns = next((k.value for k in e.keywords if k.arg == "namespaces"), None)
                    if ns is None and nm == "find_elements" and len(e.args) > 2:
                        ns = e.args[2]
                    m = mapping(p, f, ns) if ns is not None else None
                    ok = ns is not None and (m is None or m.get(pre) == INLINE)
                    rep.ob("selected", f"{where}: prefix of {br}", ok, f"{f.qualname}: {br} is found only in documents that declare the prefix {pre} at their root; "
                           "elsewhere the facts are silently left out", loc, key=f"selected:{c.name}:prefix:{local}")
    want = {"*"} if "XHTML" not in c.name else {"nonFraction", "nonNumeric"}
    if sl.finds and not vague:
        missing = want - names if "*" not in names else set()
        rep.ob("selected", f"{where}: kinds", not missing, f"{c.name}: no facts are looked for in {', '.join(sorted(missing))} elements", "", key=f"selected:{c.name}:kinds")
    for f, e, own in sl.filters:
        rep.ob("selected", f"{where}: filter at {f.qualname}", not suspicious(e, own), f"{f.qualname}: fact elements (or documents) are left out when not ({ast.unparse(e)[:90]})",
               f.loc(e), key=f"selected:{f.qualname}:filter")
    for f, e in sl.cuts:
        rep.ob("selected", f"{where}: all of {f.qualname}", False, f"{f.qualname}: only a part of the fact elements (or documents) is used: {ast.unparse(e)[:90]}", f.loc(e),
               key=f"selected:{f.qualname}:part")
    gathering(p, rep, S, c, sl)


def gathering(p, rep, S, c, sl):
    """loops that gather the elements of several documents"""
    stm = {id(x): (f, name) for f, name, x in sl.accums}

    def sink(f, call, g):
        if g is not None and g in S.report:
            return "report"
        if id(call) in stm:
            return [(1, frozenset("N"))]
        return None
    for f in {f for f, _, _ in sl.accums}:
        for name in {n for g, n, _ in sl.accums if g is f}:
            mine = {id(x) for g, n, x in sl.accums if g is f and n == name}
            used = {y.id for g, n, x in sl.accums if g is f and n == name for y in ast.walk(x) if isinstance(y, ast.Name)}
            A = Settle(p, lambda g, call, h, mine=mine: "report" if h is not None and h in S.report else [(1, frozenset("N"))] if id(call) in mine else None)
            A.stmt_sink = lambda g, a, mine=mine: 1 if id(a) in mine else 0
            for h in [n for n in C.cfg_of(f).nodes if n.kind in ("for", "loop")]:
                try:
                    r = A.run(f, h, cut=lambda n, lab: harmless(n, lab, f, h, used))
                except TooMany:
                    continue
                if not r["mark"]:
                    continue
                early = r["break"] + r["leave"]
                bad = [s for s, w in r["iter"] if not s[0] and not s[1]]
                rep.ob("selected", f"{c.name}: {f.qualname} gathers {name}", not early and not bad,
                       f"{f.qualname}: " + ("the loop that gathers the elements can end before the last document" if early else
                                            "a document can be passed over silently while its elements are gathered"), f.loc(h.ast),
                       key=f"selected:{f.qualname}:gather:{name}")


def harmless(n, lab, f, h, used):
    """edges taken for elements that are no fact elements (kind tests), or when there is nothing to gather"""
    from .settle import emptiness
    if emptiness(n, lab) and any(isinstance(x, ast.Name) and x.id in used for x in ast.walk(n.ast)):
        return True
    if n.kind == "cond":
        own = {x.id for x in ast.walk(h.ast.target) if isinstance(x, ast.Name)} if h.kind == "for" else set()
        txt = ast.unparse(n.ast)
        return not suspicious(n.ast, own) and ("tag" in txt or "localname" in txt or "isinstance" in txt or "contextRef" in txt)
    return False


def kept(p, rep):
    """every fact given to the store comes back from it"""
    base = p.cls("FactRepository")
    for c in [base] + list(base.all_subclasses()):
        up, ga = c.lookup("upsert"), c.lookup("get_all")
        if up is None or ga is None or up.is_abstract or ga.is_abstract:
            continue
        read = {x.attr for x in ast.walk(ga.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        param = next((n for n, k, a, d in up.params if n != "self"), None)

        def keyed_by_fact(s):
            return not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "id" for x in ast.walk(s))

        def fld(x):
            return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" else None

        A = Settle(p, lambda f, call, g: [(1, frozenset("N"))] if isinstance(call.func, ast.Attribute) and call.func.attr in ("append", "insert", "extend", "add")
                   and fld(call.func.value) in read and any(isinstance(x, ast.Name) and x.id == param for a in call.args for x in ast.walk(a)) else None)
        A.stmt_sink = lambda f, a: 1 if fld(a.target) in read else 0
        stores = [x for x in ast.walk(up.node) if isinstance(x, (ast.Assign,)) for t in x.targets if isinstance(t, ast.Subscript) and fld(t.value) in read]
        r = A.run(up)
        lost = [s for s in r["return"] if not s[0]]
        over = [x for x in stores]
        if not r["mark"] and not stores:
            rep.saw("fact stores of an unknown form", c.name)
            continue
        rep.ob("kept", c.name, not lost or not (over or r["mark"]), f"{c.name}.upsert: " + ("a fact with the id of an earlier one takes its place: the earlier fact is silently lost"
               if over else "on some path the fact is not stored"), up.loc(over[0] if over else None), key=f"kept:{c.name}")


def check(p, rep):
    kept(p, rep)
