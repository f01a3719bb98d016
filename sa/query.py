"""Queries in normal form: which collection, which conditions on its items, what of each item.

A query may be written as a comprehension, with filter/map/next/any, as a loop that collects or
returns, through local variables or through another query; all give the same normal form."""
from __future__ import annotations
import ast
import copy
from .project import dotted

ITEM = "_"


class Q:
    def __init__(self, src, conj=(), elt=ITEM, shape="list"):
        self.src, self.conj, self.elt, self.shape = src, frozenset(conj), elt, shape

    def key(self):
        return (self.src, self.conj, self.elt, self.shape)

    def __repr__(self):
        return f"{self.shape} of {self.elt} from {self.src} where {' and '.join(sorted(self.conj)) or 'any'}"


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


class Norm:
    def __init__(self, p, f, env=None, depth=0):
        self.p, self.f, self.depth = p, f, depth
        self.env = dict(env or {})
        self.locals = {}
        counts = {}
        for n in p.own_nodes(f) if hasattr(p, "own_nodes") else ast.walk(f.node):
            ts = []
            if isinstance(n, ast.Assign):
                ts = n.targets
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                ts = [n.target]
            elif isinstance(n, (ast.For,)):
                ts = [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        counts[x.id] = counts.get(x.id, 0) + 1
                        if isinstance(n, ast.Assign) and isinstance(t, ast.Name) or isinstance(n, ast.AnnAssign) and n.value is not None:
                            self.locals[x.id] = n.value
                        else:
                            self.locals.pop(x.id, None)
                            counts[x.id] += 1
        self.locals = {k: v for k, v in self.locals.items() if counts.get(k) == 1}
        self.accs = {}

    # ---- text of an expression, with the environment put in
    def resolve(self, e, item=None):
        e = copy.deepcopy(e)
        for _ in range(3):
            env = {k: v for k, v in {**self.locals, **self.env}.items() if k != item and not (isinstance(v, ast.Name) and v.id == k)}
            e = Subst(env).visit(e)
        if item is not None:
            e = Subst({item: ast.Name(ITEM, ast.Load())}).visit(e)
        return e

    def text(self, e, item=None):
        return ast.unparse(self.resolve(e, item))

    # ---- conditions
    def conds(self, e, item, neg=False):
        """list of canonical conditions, or None if one is not understood"""
        e = strip(e)
        if isinstance(e, ast.Name) and e.id in self.locals and e.id != item:
            return self.conds(self.locals[e.id], item, neg)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.conds(e.operand, item, not neg)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or if neg else ast.And):
            out = []
            for v in e.values:
                c = self.conds(v, item, neg)
                if c is None:
                    return None
                out += c
            return out
        if isinstance(e, ast.BoolOp):
            parts = [self.conds(v, item, neg) for v in e.values]
            if any(x is None or len(x) != 1 for x in parts):
                return None
            return [" or ".join(sorted(x[0] for x in parts))]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b, op = e.left, e.comparators[0], e.ops[0]
            tab = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "==", ast.IsNot: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in"}
            o = tab[type(op)]
            if o in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, ast.Constant) and isinstance(y.value, bool):
                        return self.conds(x, item, neg ^ (y.value is False) ^ (o == "!="))
                    if isinstance(x, ast.Call) and dotted(x.func) == "type" and len(x.args) == 1:
                        return [("not " if neg ^ (o == "!=") else "") + f"isinstance({self.text(x.args[0], item)}, {self.kind(y)})"]
            if neg:
                o = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "in": "not in", "not in": "in"}[o]
            s, t = self.operand(a, item), self.operand(b, item)
            if s is None or t is None:
                return None
            if o in ("==", "!="):
                if t == ITEM or not mentions(s) and mentions(t):
                    s, t = t, s
                if {s, t} == {ITEM, "None"}:
                    return [] if o == "!=" else None
            return [f"{s} {o} {t}"]
        if isinstance(e, ast.Call) and dotted(e.func) == "isinstance" and len(e.args) == 2:
            return [("not " if neg else "") + f"isinstance({self.text(e.args[0], item)}, {self.kind(e.args[1])})"]
        if isinstance(e, ast.Call) and dotted(e.func) == "bool" and len(e.args) == 1:
            return self.conds(e.args[0], item, neg)
        if isinstance(e, ast.Call):
            g, env = self.inlinable(e)
            if g is not None:
                sub = Norm(self.p, g, {**env}, self.depth + 1)
                r = single_return(g)
                if r is not None and self.depth < 4:
                    if item is not None:
                        sub.env = {k: Subst({item: ast.Name(ITEM, ast.Load())}).visit(copy.deepcopy(self.resolve(v, item))) for k, v in env.items()}
                    return sub.conds(r, ITEM, neg)
                return None
            if isinstance(e.func, ast.Attribute):
                s = self.operand(e, item)
                return None if s is None else [("not " if neg else "") + s]
            return None
        if isinstance(e, (ast.Attribute, ast.Name)):
            return [("not " if neg else "") + self.text(e, item)]
        return None

    def operand(self, e, item):
        e = strip(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args and isinstance(e.func.value, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(self.f.module, e.func.value, self.f)
            if r is not None and r[0] == "class" and r[1].lookup(e.func.attr) is not None and not r[1].lookup(e.func.attr).is_static and not r[1].lookup(e.func.attr).is_classmethod:
                e = ast.copy_location(ast.Call(ast.Attribute(e.args[0], e.func.attr, ast.Load()), e.args[1:], e.keywords), e)
        if isinstance(e, (ast.Name, ast.Constant)):
            return self.text(e, item)
        if isinstance(e, ast.Attribute):
            return self.text(e, item)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.keywords and all(isinstance(a, (ast.Name, ast.Constant, ast.Attribute)) for a in e.args):
            return self.text(e, item)
        if isinstance(e, ast.Subscript):
            return self.text(e, item)
        return None

    def kind(self, e):
        e = self.resolve(e)
        if isinstance(e, ast.Tuple):
            return "|".join(sorted(self.kind(x) for x in e.elts))
        if isinstance(e, ast.BinOp):
            return "|".join(sorted((self.kind(e.left), self.kind(e.right))))
        r = self.p.resolve_expr(self.f.module, e, self.f)
        if r is not None and r[0] == "class":
            return r[1].name
        return (dotted(e) or ast.unparse(e)).split(".")[-1]

    def inlinable(self, call):
        """a helper without a life of its own: lambda, nested, private or module-level function"""
        fn = call.func
        if isinstance(fn, ast.Name) and fn.id in self.locals and isinstance(self.locals[fn.id], ast.Lambda):
            fn = self.locals[fn.id]
        if isinstance(fn, ast.Lambda):
            return Lam(fn, self.f), dict(zip([a.arg for a in fn.args.args], call.args))
        gs = self.p.callees(self.f, call)
        if len(gs) != 1 or gs[0].is_abstract:
            return None, {}
        g = gs[0]
        if g.cls is not None and not g.name.lstrip("_").startswith("_") and not g.name.split("__")[-1] == g.name and False:
            return None, {}
        if g.cls is not None and not (g.name.startswith("_") and not g.name.endswith("__")):
            return None, {}
        names = [q[0] for q in g.params]
        if g.cls is not None and not g.is_static:
            names = names[1:]
        env = dict(zip(names, call.args))
        env.update({k.arg: k.value for k in call.keywords if k.arg})
        return g, env

    # ---- queries
    def expr(self, e):
        e = strip(e)
        if isinstance(e, ast.Name):
            if e.id in self.accs:
                return self.accs[e.id]
            if e.id in self.env:
                return None
            if e.id in self.locals:
                return self.expr(self.locals[e.id])
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            g = e.generators
            if not isinstance(g[-1].target, ast.Name):
                return None
            item = g[-1].target.id
            if len(g) == 1:
                base = self.expr(g[0].iter)
            else:
                if not isinstance(g[0].target, ast.Name) or len(g) != 2 or not isinstance(g[1].iter, ast.Name) or g[1].iter.id != g[0].target.id or g[0].ifs:
                    return None
                base = Q("each of " + self.text(g[0].iter))
            if base is None:
                base = Q(self.text(g[0].iter))
            return self.narrow(base, item, g[-1].ifs, e.elt)
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d in ("list", "tuple", "sorted", "iter", "reversed", "set") and len(e.args) == 1:
                return self.expr(e.args[0])
            if d == "filter" and len(e.args) == 2:
                base = self.expr(e.args[1]) or Q(self.text(e.args[1]))
                fn = e.args[0]
                call = ast.Call(fn, [ast.Name("__item", ast.Load())], [])
                ast.copy_location(call, e)
                if isinstance(fn, ast.Lambda):
                    return self.narrow(base, fn.args.args[0].arg, [fn.body], None)
                ast.fix_missing_locations(call)
                return self.narrow(base, "__item", [call], None)
            if d == "map" and len(e.args) == 2 and isinstance(e.args[0], ast.Lambda):
                base = self.expr(e.args[1]) or Q(self.text(e.args[1]))
                return self.narrow(base, e.args[0].args.args[0].arg, [], e.args[0].body)
            if d == "next" and e.args:
                b = self.expr(e.args[0])
                return b and Q(b.src, b.conj, b.elt, "first")
            if d in ("any", "all") and len(e.args) == 1:
                g = strip(e.args[0])
                if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and isinstance(g.generators[0].target, ast.Name):
                    b = self.expr(g.generators[0].iter) or Q(self.text(g.generators[0].iter))
                    item = g.generators[0].target.id
                    c = self.conds(g.elt, item, neg=d == "all")
                    cs = [self.conds(i, item) for i in g.generators[0].ifs]
                    if c is None or any(x is None for x in cs):
                        return None
                    return Q(b.src, set(b.conj) | set(c) | {y for x in cs for y in x}, ITEM, "any" if d == "any" else "none")
                return None
            return self.call(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            b = self.expr(e.operand)
            if b is not None and b.shape in ("any", "none"):
                return Q(b.src, b.conj, b.elt, "none" if b.shape == "any" else "any")
            if b is not None and b.shape == "list":
                return Q(b.src, b.conj, ITEM, "none")
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and dotted(e.left.func) == "len" and isinstance(e.comparators[0], ast.Constant):
            b = self.expr(e.left.args[0]) or Q(self.text(e.left.args[0]))
            k = (type(e.ops[0]).__name__, e.comparators[0].value)
            if k in (("Gt", 0), ("NotEq", 0), ("GtE", 1)):
                return Q(b.src, b.conj, ITEM, "any")
            if k in (("Eq", 0), ("LtE", 0), ("Lt", 1)):
                return Q(b.src, b.conj, ITEM, "none")
        if isinstance(e, ast.Call) and dotted(e.func) == "bool":
            b = self.expr(e.args[0])
            return b and (Q(b.src, b.conj, ITEM, "any") if b.shape == "list" else b)
        return None

    def call(self, e):
        gs = self.p.callees(self.f, e)
        if not gs:
            return None
        names = {g.name for g in gs}
        if len(names) == 1 and any(k.name.endswith("Repository") for g in gs for k in [g.cls] if k is not None) and next(iter(names)) == "get_all":
            base = min((k for g in gs for k in g.cls.mro() if "get_all" in k.methods), key=lambda k: len(k.mro()))
            return Q(base.name)
        if len(gs) != 1 or gs[0].is_abstract or self.depth > 5:
            return None
        g = gs[0]
        ns = [q[0] for q in g.params]
        if g.cls is not None and not g.is_static:
            ns = ns[1:]
        env = {n: ast.Name("self", ast.Load()) for n in ()}
        env.update(dict(zip(ns, [self.resolve(a) for a in e.args])))
        env.update({k.arg: self.resolve(k.value) for k in e.keywords if k.arg})
        return Norm(self.p, g, env, self.depth + 1).query()

    def narrow(self, base, item, ifs, elt):
        if base.elt != ITEM:
            base = Q(f"({base})", (), ITEM, base.shape)
        conj = set(base.conj)
        for c in ifs:
            r = self.conds(c, item)
            if r is None:
                return None
            conj |= set(r)
        t = ITEM if elt is None else self.text(strip(elt), item)
        return Q(base.src, conj, t, base.shape)

    # ---- statements
    def query(self):
        """normal form of what the function returns, or None"""
        body = self.f.node.body if isinstance(self.f.node.body, list) else None
        if body is None:
            return self.expr(self.f.node.body)
        out = []
        self.walk(body, out)
        qs = {q.key(): q for q in out if q is not None}
        if len(qs) == 1 and not any(q is None for q in out):
            return next(iter(qs.values()))
        return None

    def walk(self, body, out):
        for i, s in enumerate(body):
            if isinstance(s, ast.For):
                q = self.loop(s, body[i + 1:])
                if q == "returns":
                    return out.append(None)
                if isinstance(q, Q):
                    out.append(q)
                    return
            elif isinstance(s, ast.Return):
                if s.value is None or isinstance(s.value, ast.Constant):
                    if isinstance(s.value, ast.Constant) and s.value.value is None:
                        continue
                    out.append(None)
                else:
                    out.append(self.expr(s.value))
            elif isinstance(s, ast.If):
                self.walk(s.body, out)
                self.walk(s.orelse, out)
            elif isinstance(s, (ast.With, ast.Try)):
                self.walk(s.body, out)

    def loop(self, s, rest):
        if not isinstance(s.target, ast.Name) or s.orelse:
            return None
        item = s.target.id
        base = self.expr(s.iter) or Q(self.text(s.iter))
        if base.elt != ITEM:
            base = Q(f"({base})", (), ITEM, base.shape)
        r = self.collect(s.body, item, [])
        if r is None:
            return "returns" if any(isinstance(n, ast.Return) for n in ast.walk(s)) else None
        what, conj, val = r
        q = set(base.conj) | set(conj)
        if what == "append":
            acc, elt = val
            t = self.text(strip(elt), item)
            # an item is not listed twice
            q -= {f"{t} not in {acc}", f"{t} not in {self.text(ast.Name(acc, ast.Load()))}"}
            self.accs[acc] = Q(base.src, q, t)
            return None
        if isinstance(val, ast.Constant) and isinstance(val.value, bool):
            after = [x for x in rest if isinstance(x, ast.Return)]
            if after and isinstance(after[0].value, ast.Constant) and after[0].value.value is (not val.value):
                return Q(base.src, q, ITEM, "any" if val.value else "none")
            return "returns"
        if val is not None and strip(val) is not None and isinstance(strip(val), ast.Name) and strip(val).id == item:
            return Q(base.src, q, ITEM, "first")
        return "returns"

    def collect(self, body, item, conj):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse:
                last = s.body[-1]
                if isinstance(last, ast.Continue) and len(s.body) == 1:
                    c = self.conds(s.test, item, neg=True)
                    if c is None:
                        return None
                    return self.collect(body[i + 1:], item, conj + c)
                c = self.conds(s.test, item)
                if c is None:
                    return None
                rest = body[i + 1:]
                if any(not isinstance(x, (ast.Pass, ast.Expr)) or isinstance(x, ast.Expr) and not isinstance(x.value, ast.Constant) for x in rest):
                    return None
                return self.collect(s.body, item, conj + c)
            if isinstance(s, ast.Return):
                return ("return", conj, s.value)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add") and isinstance(s.value.func.value, ast.Name):
                return ("append", conj, (s.value.func.value.id, s.value.args[0]))
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            return None
        return None


class Lam:
    """a lambda seen as a function"""
    def __init__(self, node, f):
        self.node, self.module, self.cls, self.parent, self.name = node, f.module, f.cls, f, "<lambda>"
        self.nested, self.is_abstract, self.is_static = {}, False, True
        self.params = [(a.arg, "pos", None, None) for a in node.args.args]


def single_return(g):
    b = g.node.body
    if not isinstance(b, list):
        return b
    b = [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Assign, ast.AnnAssign))]
    return b[0].value if len(b) == 1 and isinstance(b[0], ast.Return) else None


def strip(e):
    while isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "cast" and len(e.args) == 2:
        e = e.args[1]
    return e


def mentions(t):
    return t == ITEM or t.startswith(ITEM + ".") or f"({ITEM}" in t
