"""Forward must-analysis on the control-flow graph: which keys are known to be
present in which container.  Facts are (receiver text, (argument texts), kind)."""
from __future__ import annotations
import ast
from .cfg import cfg_of, defs, node_exprs
from .nullness import Null, path
from .project import dotted

HANDLER_ALL = {"Exception", "BaseException"}
BASES = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "UnicodeDecodeError": ["ValueError"], "JSONDecodeError": ["ValueError"],
         "FileNotFoundError": ["OSError"], "ZeroDivisionError": ["ArithmeticError"], "RequestException": ["OSError", "IOError"]}


def caught_by(h):
    """names an except clause catches; None: everything"""
    if h.type is None:
        return None
    es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {(dotted(e) or "?").split(".")[-1] for e in es}


def catches(h, exc):
    c = caught_by(h)
    return c is None or bool(c & HANDLER_ALL) or exc in c or any(b in c for b in BASES.get(exc, []))


def covering_try(p, node, exc, stop):
    """the innermost try statement around node whose handlers catch exc"""
    x, child = p.parents.get(id(node)), node
    while x is not None and x is not stop:
        if isinstance(x, ast.Try) and any(child is s for s in x.body):
            if any(catches(h, exc) for h in x.handlers):
                return x
        if isinstance(x, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or "").endswith("suppress") for i in x.items):
            return x
        child, x = x, p.parents.get(id(x))
    return None


def norm(kind):
    for pre in ("has_", "get_", "is_"):
        if kind.startswith(pre):
            kind = kind[len(pre):]
    if kind in ("has", "get", "create", "or_create"):
        kind = ""
    return kind.replace("_optional", "").replace("typed_", "").replace("typed", "").replace("by_", "").strip("_")


class Present(Null):
    """reuses the access-path helpers of the null analysis"""

    def __init__(self, p, f, lookups, extra=frozenset()):
        super().__init__(p, f)
        self.lookups, self.initial = lookups, extra
        self.unguarded = []

    def canon(self, e):
        """expression text with locals assigned once from pure expressions replaced"""
        me = self

        class T(ast.NodeTransformer):
            def __init__(s):
                s.depth = 0

            def visit_Name(s, n):
                v = me.single.get(n.id)
                if v is not None and s.depth < 4 and isinstance(v, (ast.Name, ast.Attribute, ast.Call, ast.JoinedStr, ast.Constant)) and len(ast.unparse(v)) < 200 and not any(isinstance(x, ast.Lambda) for x in ast.walk(v)):
                    import copy
                    s.depth += 1
                    r = s.visit(copy.deepcopy(v))
                    s.depth -= 1
                    return r
                return n
        import copy
        return ast.unparse(T().visit(copy.deepcopy(e)))

    def fact(self, call):
        k = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id
        recv = self.canon(call.func.value) if isinstance(call.func, ast.Attribute) else ""
        return (recv, tuple(self.canon(a) for a in call.args) + tuple(self.canon(k.value) for k in call.keywords), norm(k))

    def pgen(self, atom, val, st):
        e = atom
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.pgen(e.operand, not val, st)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for v in e.values:
                    st = self.pgen(v, val, st)
                return st
            cur, outs = st, []
            for v in e.values:
                outs.append(self.pgen(v, val, cur))
                cur = self.pgen(v, not val, cur)
            r = outs[0]
            for o in outs[1:]:
                r = r & o
            return r
        if isinstance(e, ast.NamedExpr):
            return self.pgen(e.value, val, st)
        if isinstance(e, ast.Name) and e.id in self.single:
            v = self.single[e.id]
            if isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
                return self.pgen(v, val, st)
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(op, ast.In) == val:
                return st | {(self.canon(r), (self.canon(l),), "[]")}
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.Eq)) != val:
                return self.pgen(l, True, st)
            return st
        if isinstance(e, ast.Call) and val:
            if dotted(e.func) == "bool" and e.args:
                return self.pgen(e.args[0], val, st)
            if (isinstance(e.func, ast.Attribute) and e.args and (e.func.attr.startswith(("has", "get")))) or (isinstance(e.func, ast.Name) and e.func.id.startswith(("has_", "get_"))):
                st = st | {self.fact(e)}
                # a project predicate that is nothing but such a test
                return st
            for g in self.p.callees(self.f, e):
                w = self.wrapped(g, e)
                if w is not None:
                    st = st | {w}
        return st

    def wrapped(self, g, call):
        """the presence a one-line predicate g(...) establishes, in the caller's terms"""
        rets = [n for n in self.p.own_nodes(g) if isinstance(n, ast.Return)]
        if len(rets) != 1 or rets[0].value is None or not isinstance(rets[0].value, (ast.Call, ast.Compare)):
            return None
        v = rets[0].value
        m = argmap(self.p, g, call)
        if m is None:
            return None
        G = Present(self.p, g, self.lookups)
        st = G.pgen(v, True, frozenset())
        if len(st) != 1:
            return None
        (r, a, k), = st
        sub = lambda t: subst(t, {n: self.canon(x) for n, x in m.items()})
        r2, a2 = sub(r), tuple(sub(x) for x in a)
        return None if r2 is None or None in a2 else (r2, a2, k)

    def names(self, text):
        return self.names_in("(" + text + ",)") if text else set()

    def pkill(self, st, v):
        return frozenset(x for x in st if v not in self.names(x[0]) and not any(v in self.names(a) for a in x[1]))

    # ---- lookups inside one expression
    def walk(self, e, st):
        p = self.p
        if isinstance(e, ast.BoolOp):
            cur = st
            for v in e.values:
                self.walk(v, cur)
                cur = self.pgen(v, isinstance(e.op, ast.And), cur)
            return
        if isinstance(e, ast.IfExp):
            self.walk(e.test, st)
            self.walk(e.body, self.pgen(e.test, True, st))
            self.walk(e.orelse, self.pgen(e.test, False, st))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = st
            for g in e.generators:
                self.walk(g.iter, cur)
                for c in g.ifs:
                    self.walk(c, cur)
                    cur = self.pgen(c, True, cur)
                cur = self.iterates(g.target, g.iter, cur)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.walk(x, cur)
            return
        if isinstance(e, ast.Call):
            cs = p.callees(self.f, e)
            hits = [g for g in cs if g in self.lookups]
            if hits:
                self.need(e, self.fact(e), st, hits)
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load) and not isinstance(e.slice, (ast.Constant, ast.Slice)) and not self.word(e.slice):
            t = p.type_names(self.f.module, e.value)
            if t == {"builtins.dict"} and not self.defaulting(e.value) and not self.table(e.value):
                self.need(e, (self.canon(e.value), (self.canon(e.slice),), "[]"), st, [])
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword)):
                self.walk(c, st)

    def defaulting(self, e):
        """a mapping that creates what it lacks"""
        if self.canon(e).split("(")[0].split(".")[-1] == "defaultdict":
            return True
        if isinstance(e, ast.Name):
            return any(isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "defaultdict" for v in self.assigned(self.f, e.id))
        if isinstance(e, ast.Attribute) and self.f.cls is not None:
            for g in self.f.cls.methods.values():
                for n in self.p.own_nodes(g):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                        if isinstance(t, ast.Attribute) and t.attr == e.attr and any(isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "defaultdict" for v in ast.walk(n.value)):
                            return True
        if isinstance(e, ast.Subscript):
            return self.defaulting(e.value)
        return False

    def word(self, e):
        """a variable that runs over constants written out in the program"""
        if not isinstance(e, ast.Name):
            return False
        loops = [n for n in self.p.own_nodes(self.f) if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target))]
        stores = [n for n in self.p.own_nodes(self.f) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
        return bool(loops) and len(stores) == len(loops) and all(isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in n.iter.elts) for n in loops)

    def assigned(self, f, name):
        for n in self.p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and t.id == name:
                    yield n.value

    def table(self, e):
        """a constant table of the program (its keys are checked as data)"""
        r = self.p.resolve_expr(self.f.module, e, self.f) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return r is not None and r[0] == "var" and not (isinstance(e, ast.Name) and e.id in self.p.local_names(self.f))

    def iterates(self, tgt, it, st):
        """for k in D / for k, v in D.items()"""
        if isinstance(it, ast.Call) and dotted(it.func) in ("list", "sorted", "reversed", "tuple", "set") and it.args:
            return self.iterates(tgt, it.args[0], st)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys") and not it.args:
            k = tgt.elts[0] if isinstance(tgt, ast.Tuple) and it.func.attr == "items" else tgt
            return st | {(self.canon(it.func.value), (ast.unparse(k),), "[]")}
        src = self.single.get(it.id) if isinstance(it, ast.Name) else it
        if isinstance(src, ast.Call) and dotted(src.func) == "filter" and len(src.args) == 2 and isinstance(tgt, ast.Name) and isinstance(src.args[0], ast.Lambda) and len(src.args[0].args.args) == 1:
            me, v = self, src.args[0].args.args[0].arg
            for r, a, k in self.pgen(src.args[0].body, True, frozenset()):
                ren = lambda t: rename(t, v, tgt.id)
                st = st | {(ren(r), tuple(ren(x) for x in a), k)}
        if isinstance(src, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(src.generators) == 1 and isinstance(tgt, ast.Name) and isinstance(src.elt, ast.Name) and isinstance(src.generators[0].target, ast.Name) and src.elt.id == src.generators[0].target.id:
            for cond in src.generators[0].ifs:
                for r, a, k in self.pgen(cond, True, frozenset()):
                    ren = lambda t: rename(t, src.elt.id, tgt.id)
                    st = st | {(ren(r), tuple(ren(x) for x in a), k)}
        if isinstance(tgt, ast.Name) and isinstance(it, (ast.Name, ast.Attribute)):
            return st | {(self.canon(it), (tgt.id,), "[]")}
        return st

    def need(self, node, fact, st, hits):
        if not self.final:
            return
        r, a, k = fact
        ok = any(x[0] == r and x[1][:len(a)] == a and (x[2] == k or "*" == x[2]) for x in st) or \
            any(x[0] == r and x[2] == "*" and x[1][0] == a[0] for x in st if a and x[1])
        self.checked.append((node, fact, ok, hits))

    def ptransfer(self, n, st):
        a = n.ast
        for e in node_exprs(n):
            self.walk(e, st)
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith(("upsert", "insert", "add", "_add", "setdefault", "put")):
                    recv = self.canon(x.func.value)
                    texts = set()
                    for y in x.args:
                        for z in ast.walk(y):
                            if isinstance(z, ast.expr):
                                texts.add(self.canon(z))
                    st = st | {(recv, (t,), "*") for t in texts}
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "remove", "discard", "clear", "popitem"):
                    recv = self.canon(x.func.value)
                    st = frozenset(y for y in st if y[0] != recv)
        ds = defs(n)
        for v in ds:
            st = self.pkill(st, v)
        if n.kind == "stmt" and isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                if isinstance(t, ast.Subscript):
                    st = st | {(self.canon(t.value), (self.canon(t.slice),), "[]")}
        # what a completed lookup returned was there
        if n.kind in ("stmt", "return", "cond"):
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Call) and any(g in self.lookups for g in self.p.callees(self.f, x)) and not ds & self.names(ast.unparse(x)):
                        if not self.conditional(x, e):
                            st = st | {self.fact(x)}
        return st

    def conditional(self, x, top):
        y = x
        while y is not top and y is not None:
            y = self.p.parents.get(id(y))
            if isinstance(y, (ast.BoolOp, ast.IfExp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return True
        return False

    def run(self):
        self.final = False
        self.checked = []
        st = {self.c.entry.idx: frozenset(self.initial)}
        todo = [self.c.entry]
        rounds = 0
        while todo and rounds < 40000:
            n = todo.pop()
            rounds += 1
            cur = st[n.idx]
            after = self.ptransfer(n, cur)
            for s, lab in n.succ:
                o = after
                if lab == "exc":
                    o = cur & after
                elif n.kind == "cond" and lab in (True, False):
                    o = self.pgen(n.ast, lab, after)
                elif n.kind == "for":
                    o = cur if lab == "exit" else self.iterates(n.ast.target, n.ast.iter, after)
                old = st.get(s.idx)
                new = o if old is None else meet(old, o)
                if new != old:
                    st[s.idx] = new
                    todo.append(s)
        self.final = True
        for n in self.c.nodes:
            if n.idx in st:
                self.ptransfer(n, st[n.idx])
        return self.checked


def rename(text, a, b):
    t = ast.parse(text, mode="eval").body
    for x in ast.walk(t):
        if isinstance(x, ast.Name) and x.id == a:
            x.id = b
    return ast.unparse(t)


def implied(x, st):
    r, a, k = x
    return x in st or any(y[0] == r and y[2] == "*" and a and y[1][0] == a[0] for y in st)


def meet(a, b):
    """facts that hold on both sides; an item just added may be asked for in any way"""
    return frozenset({x for x in a if implied(x, b)} | {x for x in b if implied(x, a)})


def argmap(p, g, call):
    ps = list(g.params)
    if g.cls is not None and not g.is_static and ps:
        ps = ps[1:]
    m = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred) or i >= len(ps):
            return None
        m[ps[i][0]] = a
    for k in call.keywords:
        if k.arg is None:
            return None
        m[k.arg] = k.value
    return m


def subst(text, m):
    """replace names by texts; None if a name is not covered"""
    try:
        t = ast.parse(text, mode="eval").body
    except SyntaxError:
        return None
    bad = []

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in m:
                return ast.parse(m[n.id], mode="eval").body
            if n.id not in ("str", "int", "float"):
                bad.append(n.id)
            return n
    r = T().visit(t)
    # classes and other globals are left alone by the caller's choice
    return ast.unparse(r) if not [b for b in bad if not b[:1].isupper() and not callable_global(b)] else None


def callable_global(b):
    return "_" in b and b.islower() and len(b) > 8


def lookup_methods(p):
    """methods that fail for a key that is not there, in classes that can be asked first"""
    out = set()
    for c in p.classes.values():
        for k in [c] + c.mro():
            pass
        names = {n for k in c.mro() for n in k.methods}
        if not any(n.startswith("has") for n in names):
            continue
        for n, g in c.methods.items():
            if not n.startswith("get") or n.endswith("_optional") or len(g.params) < 2 or g.is_abstract or "or_create" in n:
                continue
            key = g.params[1][0]
            for x in p.own_nodes(g):
                if isinstance(x, ast.Raise):
                    out.add(g)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and any(isinstance(y, ast.Name) and y.id == key for y in ast.walk(x.slice)) and isinstance(x.value, ast.Attribute):
                    out.add(g)
    for _ in range(3):
        for c in p.classes.values():
            names = {n for k in c.mro() for n in k.methods}
            if not any(n.startswith("has") for n in names):
                continue
            for n, g in c.methods.items():
                if g in out or not n.startswith("get") or n.endswith("_optional") or len(g.params) < 2 or g.is_abstract or "or_create" in n:
                    continue
                key = g.params[1][0]
                for x in p.calls_in(g):
                    if any(h in out for h in p.callees(g, x)) and x.args and any(isinstance(y, ast.Name) and y.id == key for y in ast.walk(x.args[0])) and not isinstance(x.args[0], ast.Call) or \
                            any(h in out for h in p.callees(g, x)) and x.args and ast.unparse(x.args[0]).startswith(key + "."):
                        if not asks_first(p, g, out):
                            out.add(g)
    return out


def asks_first(p, g, L):
    """every look-up in g is preceded by a test for its key, or handled"""
    return all(ok or covering_try(p, node, "ValueError" if hits else "KeyError", g.node) is not None for node, fact, ok, hits in Present(p, g, L).run())
