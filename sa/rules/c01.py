"""C01: no visible order and no choice of an item comes from an unordered source."""
import ast
from ..project import AnalysisError, dotted
from ..flow import Flow, EMPTY
from ..cfg import reaching

SETS = {"builtins.set", "builtins.frozenset", "typing.AbstractSet", "typing.MutableSet", "collections.abc.Set", "_typeshed.SupportsKeysAndGetItem"}
DIRS = {"listdir", "scandir", "walk", "iterdir", "glob", "rglob", "iglob", "fwalk"}
DIRMODS = ("os", "glob", "pathlib", "os.path")
RACES = {"as_completed", "imap_unordered"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
LAZY = {"map", "filter", "reversed", "iter", "enumerate", "zip", "chain", "islice", "from_iterable"}
FREE = {"len", "set", "frozenset", "any", "all", "sum", "bool", "isinstance", "hash", "Counter", "id", "type", "callable", "hasattr"}
SETFREE = {"update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "difference_update",
           "intersection_update", "symmetric_difference_update", "add", "discard", "remove", "clear", "copy", "__contains__", "__len__"}
INJECTIVE = {"str", "repr", "hash_none"}
IDENT = {"id", "hash", "random", "uuid4", "uuid1", "time", "perf_counter", "urandom", "getrandbits", "monotonic"}


class Order(Flow):
    def __init__(self, p):
        super().__init__(p)
        self.origin = {}
        self.active = set()

    def mark(self, f, e, what):
        k = ("unordered", f.module.name, getattr(e, "lineno", 0), what)
        self.origin.setdefault(k, f"{what} at {f.module.relpath}:{getattr(e, 'lineno', 0)}")
        return frozenset({(k, 0)})

    def source(self, f, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return self.mark(f, e, "set")
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            last = e.func.attr if isinstance(e.func, ast.Attribute) else d
            r = self.p.resolve_expr(f.module, e.func, f)
            if last in ("set", "frozenset") and isinstance(e.func, ast.Name) and not self.p.callees(f, e):
                return self.mark(f, e, "set")
            if last in DIRS and not self.p.callees(f, e):
                ext = r[1] if r is not None and r[0] == "ext" else ""
                recv = self.p.type_names(f.module, e.func.value) if isinstance(e.func, ast.Attribute) else set()
                if ext.split(".")[0] in ("os", "glob") or any(x.startswith("pathlib.") for x in recv) or any(x.startswith("fs.") for x in recv) or d in DIRS or last in ("listdir", "scandir", "iterdir", "filterdir", "iglob", "rglob"):
                    return self.mark(f, e, "directory listing")
            if last in RACES and not self.p.callees(f, e):
                return self.mark(f, e, "completion order")
        if isinstance(e, (ast.Call, ast.BinOp, ast.Attribute)) and self.p.type_names(f.module, e) & SETS:
            if not isinstance(e, ast.Call) or not self.p.callees(f, e):
                return self.mark(f, e, "set")
        return EMPTY

    def _ev(self, f, e):
        if isinstance(e, ast.Name):
            r = super()._ev(f, e)
            if any(d == 0 for _, d in r) and id(e) not in self.active:
                try:
                    ds = reaching(f).get(id(e))
                except Exception:
                    ds = None
                if ds and all(n.kind == "stmt" and isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and n.ast.value is not None
                              and isinstance((n.ast.targets[0] if isinstance(n.ast, ast.Assign) else n.ast.target), ast.Name) for n in ds):
                    self.active.add(id(e))
                    ok = frozenset().union(*[self.ev(f, n.ast.value) for n in ds])
                    self.active.discard(id(e))
                    r = frozenset(x for x in r if x[1] != 0 or x in ok)
            return r
        r = super()._ev(f, e)
        z = EMPTY
        if isinstance(e, ast.GeneratorExp):
            for g in e.generators:
                z |= zero(self.ev(f, g.iter))
        elif isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else (e.func.id if isinstance(e.func, ast.Name) else "")
            if n in LAZY and not self.p.callees(f, e):
                for a in e.args:
                    z |= zero(self.ev(f, a))
            if n in SETOPS and isinstance(e.func, ast.Attribute):
                z |= zero(self.ev(f, e.func.value))
            if n == "copy" and isinstance(e.func, ast.Attribute):
                z |= zero(self.ev(f, e.func.value))
        elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            z |= zero(self.ev(f, e.left))
        return r | z


def zero(ls):
    return frozenset(x for x in ls if x[1] == 0)


def insensitive_body(flow, f, loop):
    """does running the loop body for the elements in another order give the same state?"""
    p = flow.p

    def pure(e):
        for c in ast.walk(e):
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Attribute) and c.func.attr in ("startswith", "endswith", "lower", "upper", "strip", "get", "split", "isdigit"):
                    continue
                if isinstance(c.func, ast.Name) and c.func.id in FREE | {"str", "isinstance", "int", "float"}:
                    continue
                return False
            if isinstance(c, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return False
        return True

    targets = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

    def stmt(s):
        if isinstance(s, (ast.Pass, ast.Continue)):
            return True
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, ast.Assert):
            return pure(s.test)
        if isinstance(s, ast.If):
            return pure(s.test) and all(map(stmt, s.body)) and all(map(stmt, s.orelse))
        if isinstance(s, ast.Return):
            return s.value is None or isinstance(s.value, ast.Constant)
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets):
                return True
            return all(isinstance(t, ast.Name) for t in s.targets) and pure(s.value) and all(t.id not in after(t.id) for t in s.targets)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.op, (ast.Add, ast.Sub, ast.BitOr)) and isinstance(s.target, ast.Name) and pure(s.value) and bool(
                p.type_names(f.module, s.target) & {"builtins.int", "builtins.set"}) and not p.type_names(f.module, s.target) - {"builtins.int", "builtins.set", "builtins.bool"}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("add", "discard", "update"):
            return bool(p.type_names(f.module, s.value.func.value) & SETS) and pure(ast.Tuple(elts=list(s.value.args), ctx=ast.Load()))
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        return False

    def after(name):
        """names assigned in the loop and read outside its body"""
        inside = {id(x) for b in loop.body for x in ast.walk(b)}
        return {x.id for x in p.own_nodes(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside and x.id == name}

    has_break = any(isinstance(x, ast.Break) for b in loop.body for x in ast.walk(b))
    if has_break and any(isinstance(x, ast.Name) and x.id in targets and isinstance(x.ctx, ast.Load)
                         and id(x) not in {id(y) for b in loop.body for y in ast.walk(b)} and x.lineno > loop.lineno for x in p.own_nodes(f)):
        return False
    return all(map(stmt, loop.body)) and all(map(stmt, loop.orelse))


def key_total(k):
    """a sort key under which different elements never tie"""
    if isinstance(k, ast.Constant) and k.value is None:
        return True
    if isinstance(k, ast.Name):
        return k.id in ("str", "repr")
    if isinstance(k, ast.Lambda) and len(k.args.args) == 1:
        v = k.args.args[0].arg
        parts = k.body.elts if isinstance(k.body, ast.Tuple) else [k.body]
        for b in parts:
            if isinstance(b, ast.Name) and b.id == v:
                return True
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ("str", "repr") and b.args and isinstance(b.args[0], ast.Name) and b.args[0].id == v:
                return True
    return False


def check(p, rep, tier):
    rep.rule("R1-unordered", "No set, directory listing or completion-ordered iterator is turned into something with an order (list, tuple, loop with order-dependent effects, first element, text).", floor=2)
    rep.rule("R2-identity", "No ordering, grouping or choice is computed from id(), hash() or random values.", floor=10)
    rep.rule("R3-sources", "Every unordered source of the package and every place it is consumed was followed.", floor=2)
    rep.assume("Element orders delivered by lxml, zipfile, csv, json and by dict (insertion order) are deterministic.")
    flow = Order(p)
    n = flow.run()
    rep.stats["propagation_rounds"] = n
    seen_sources = set()
    for f in p.all_functions():
        rep.saw("functions analysed", f.fullname)
        for e in p.own_nodes(f):
            visit(flow, rep, f, e)
    for k, what in flow.origin.items():
        rep.ob("R3-sources", what)


def describe(flow, ls):
    return ", ".join(sorted({flow.origin[r] for r, d in ls if r in flow.origin})[:3])


def bad(flow, rep, f, e, what, ls):
    rep.ob("R1-unordered", f"{f.qualname}:{what}", False, f"{f.qualname}: {what} takes its order from an unordered source ({describe(flow, ls)})", f"{f.module.relpath}:{e.lineno}",
           key=f"R1:{f.qualname}:{what}:{ast.unparse(e)[:40]}")


def visit(flow, rep, f, e):
    p = flow.p
    Z = lambda x: zero(flow.ev(f, x))
    name = f"{f.qualname}"
    if isinstance(e, (ast.For, ast.AsyncFor)):
        z = Z(e.iter)
        if z:
            if insensitive_body(flow, f, e):
                rep.ob("R1-unordered", f"{name}: loop over unordered, order-independent body")
            else:
                bad(flow, rep, f, e.iter, "loop", z)
    elif isinstance(e, (ast.ListComp, ast.DictComp)):
        for g in e.generators:
            z = Z(g.iter)
            if z:
                bad(flow, rep, f, g.iter, "dict" if isinstance(e, ast.DictComp) else "list", z)
    elif isinstance(e, ast.Starred):
        par = p.parents.get(id(e))
        z = Z(e.value)
        if z and not isinstance(par, ast.Set):
            bad(flow, rep, f, e.value, "unpacking", z)
    elif isinstance(e, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in e.targets):
        z = Z(e.value)
        if z:
            bad(flow, rep, f, e.value, "unpacking", z)
    elif isinstance(e, ast.FormattedValue):
        z = Z(e.value)
        if z:
            bad(flow, rep, f, e.value, "text", z)
    elif isinstance(e, ast.Call):
        call(flow, rep, f, e, Z, name)
    elif isinstance(e, (ast.YieldFrom,)):
        z = Z(e.value)
        if z:
            bad(flow, rep, f, e.value, "yield from", z)


def call(flow, rep, f, e, Z, name):
    p = flow.p
    fn = e.func
    n = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else "")
    internal = bool(p.callees(f, e))
    keyk = next((k.value for k in e.keywords if k.arg == "key"), None)
    # identity based order
    if n in ("sorted", "sort", "min", "max", "groupby"):
        k = keyk if keyk is not None else (e.args[1] if n == "groupby" and len(e.args) > 1 else None)
        ident = k is not None and any((isinstance(x, ast.Name) and x.id in IDENT) or (isinstance(x, ast.Attribute) and x.attr in IDENT) for x in ast.walk(k))
        rep.ob("R2-identity", f"{name}: {n}", not ident, f"{f.qualname}: {n}() orders by identity, hash or random values", f"{f.module.relpath}:{e.lineno}", key=f"R2:{f.qualname}:{n}")
    if n in ("shuffle", "choice", "sample") and not internal:
        r = p.resolve_expr(f.module, fn, f)
        if r is not None and r[0] == "ext" and r[1].split(".")[0] in ("random", "secrets", "numpy"):
            rep.ob("R2-identity", f"{name}: {n}", False, f"{f.qualname}: {n}() makes an order or choice random", f"{f.module.relpath}:{e.lineno}", key=f"R2:{f.qualname}:{n}")
    if isinstance(fn, ast.Attribute):
        z = Z(fn.value)
        if z and n == "pop" and not e.args:
            bad(flow, rep, f, e, "pop()", z)
        elif z and n == "__iter__":
            bad(flow, rep, f, e, "iteration", z)
    for a in list(e.args) + [k.value for k in e.keywords if k.arg != "key"]:
        if isinstance(a, ast.Starred):
            continue
        z = Z(a)
        if not z:
            continue
        if internal:
            rep.ob("R1-unordered", f"{name}: unordered argument to {n} (followed)")
            continue
        if p.resolve_expr(f.module, fn, f) is not None and p.resolve_expr(f.module, fn, f)[0] == "class":
            continue
        if isinstance(fn, ast.Name) and (n in FREE or n in LAZY or n in ("cast", "next_none", "print_none")):
            rep.ob("R1-unordered", f"{name}: {n}() of an unordered collection")
            continue
        if n in ("sorted",) or n in ("min", "max"):
            if keyk is None or key_total(keyk):
                rep.ob("R1-unordered", f"{name}: {n}() of an unordered collection")
                continue
            bad(flow, rep, f, a, f"{n}() with ties", z)
            continue
        if isinstance(fn, ast.Attribute) and n in LAZY | {"cast"}:
            continue
        if isinstance(fn, ast.Attribute) and n in SETFREE and (p.type_names(f.module, fn.value) & SETS or Z(fn.value)):
            rep.ob("R1-unordered", f"{name}: {n}() of an unordered collection")
            continue
        if isinstance(fn, ast.Attribute) and n in ("append", "add", "put", "setdefault", "get", "__setitem__"):
            continue                    # kept whole, judged where it is consumed
        if isinstance(fn, ast.Attribute) and n in ("isin", "__contains__", "debug", "info"):
            continue
        bad(flow, rep, f, a, f"{n}()", z)
