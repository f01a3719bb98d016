"""Flow-insensitive, interprocedural label propagation over the syntax tree.

A client supplies sources and the labels' behaviour; the engine propagates
labels through locals, parameters, results, attributes (per class), containers
and function values until nothing changes.  Labels are tuples
(root, depth): depth 0 the object itself, 1 something inside it, 'in' a
container that merely holds such an object."""
from __future__ import annotations
import ast
from .project import FuncInfo, ClassInfo, dotted

MUTATORS = {"append", "add", "extend", "update", "insert", "setdefault", "pop", "remove", "discard", "clear", "sort", "reverse", "popitem",
            "appendleft", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "put"}
PUTTERS = {"append": 0, "add": 0, "insert": 1, "appendleft": 0, "put": 0}
COPIERS = {"list", "set", "tuple", "dict", "frozenset", "sorted", "reversed", "iter", "enumerate", "zip", "filter", "map", "defaultdict", "deque", "copy", "chain", "OrderedDict"}


def sub(ls):
    return frozenset((r, 1) for r, d in ls if d != "fn")


def into(ls):
    return frozenset((r, "in") for r, d in ls if d != "fn")


EMPTY = frozenset()


class Flow:
    def __init__(self, p):
        self.p = p
        self.env = {}
        self.changed = False
        self.funcs = list(p.all_functions())
        self.fn_of = {}
        self.lam_owner = {}

    # ---- client hooks
    def source(self, f, e):
        """labels an expression introduces by itself"""
        return EMPTY

    def construct(self, f, call, cls):
        return EMPTY

    def unknown_call(self, f, call, name, recv, args):
        """labels of a call the project does not define; None for the default"""
        return None

    # ---- environment
    def add(self, key, ls):
        if not ls:
            return
        cur = self.env.get(key, EMPTY)
        n = cur | ls
        if n != cur:
            self.env[key] = n
            self.changed = True

    def var_key(self, f, name):
        g = f
        while g is not None:
            if name in self.p.local_names(g) or name in self._more(g):
                return ("v", g.fullname, id(g.node), name)
            g = g.parent
        return ("g", f.module.name, name)

    def _more(self, f):
        r = getattr(f.node, "_flow_names", None)
        if r is None:
            r = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Lambda):
                    r |= {a.arg for a in n.args.args + n.args.kwonlyargs}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    r.add(n.name)
            f.node._flow_names = r
        return r

    def attr_key(self, f, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            c, g = f.cls, f
            while c is None and g is not None:
                c, g = g.cls, g.parent
            if c is not None:
                return ("a", c.fullname, attr)
        return ("a", "*", attr)

    # ---- evaluation
    def ev(self, f, e):
        if e is None:
            return EMPTY
        s = self.source(f, e)
        return s | self._ev(f, e)

    def _ev(self, f, e):
        ev = self.ev
        if isinstance(e, ast.Name):
            r = self.env.get(self.var_key(f, e.id), EMPTY)
            g = self.p.resolve_expr(f.module, e, f)
            if g is not None and g[0] == "func":
                self.fn_of[g[1].fullname] = g[1]
                r = r | {(("fn", g[1].fullname), "fn")}
            return r
        if isinstance(e, ast.Attribute):
            r = self.env.get(self.attr_key(f, e.attr), EMPTY)
            return r | sub(ev(f, e.value))
        if isinstance(e, ast.Subscript):
            ev(f, e.slice)
            if isinstance(e.slice, ast.Slice):
                return into(ev(f, e.value))
            return sub(ev(f, e.value))
        if isinstance(e, ast.Starred):
            return ev(f, e.value)
        if isinstance(e, ast.Call):
            return self.ev_call(f, e)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for x in e.elts:
                l = ev(f, x)
                out |= (l if isinstance(x, ast.Starred) else EMPTY) | into(l)
            return into(out)
        if isinstance(e, ast.Dict):
            out = EMPTY
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    ev(f, k)
                out |= ev(f, v)
            return into(out)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            self.comp(f, e.generators)
            return into(ev(f, e.elt))
        if isinstance(e, ast.DictComp):
            self.comp(f, e.generators)
            ev(f, e.key)
            return into(ev(f, e.value))
        if isinstance(e, ast.IfExp):
            ev(f, e.test)
            return ev(f, e.body) | ev(f, e.orelse)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for x in e.values:
                out |= ev(f, x)
            return out
        if isinstance(e, ast.BinOp):
            return into(ev(f, e.left) | ev(f, e.right))
        if isinstance(e, ast.NamedExpr):
            l = ev(f, e.value)
            self.bind(f, e.target, l)
            return l
        if isinstance(e, ast.Lambda):
            self.lam_owner[id(e)] = (f, e)
            ev(f, e.body)
            return frozenset({(("lam", id(e)), "fn")})
        if isinstance(e, (ast.Await, ast.FormattedValue)):
            ev(f, e.value)
            return EMPTY if isinstance(e, ast.FormattedValue) else ev(f, e.value)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                l = ev(f, e.value)
                self.add(("ret", f.fullname, id(f.node)), into(l) if isinstance(e, ast.Yield) else l)
            return EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                ev(f, c)
        return EMPTY

    def comp(self, f, gens):
        for g in gens:
            self.bind(f, g.target, sub(self.ev(f, g.iter)))
            for i in g.ifs:
                self.ev(f, i)

    def apply(self, f, ls, args):
        """call every function value among the labels with the given positional labels"""
        out = EMPTY
        for r, d in ls:
            if d != "fn":
                continue
            if r[0] == "lam":
                if r[1] in self.lam_owner:
                    g, l = self.lam_owner[r[1]]
                    for a, x in zip(l.args.args, args):
                        self.add(("v", g.fullname, id(g.node), a.arg), x)
                    out |= self.ev(g, l.body)
            else:
                g = self.fn_of.get(r[1])
                if g is not None:
                    for (n, k, a, dflt), x in zip(g.params, args):
                        self.add(("v", g.fullname, id(g.node), n), x)
                    out |= self.env.get(("ret", g.fullname, id(g.node)), EMPTY)
        return out

    def ev_call(self, f, e):
        fn = e.func
        cs = self.p.callees(f, e)
        args = [self.ev(f, a) for a in e.args]
        kws = [(k.arg, self.ev(f, k.value)) for k in e.keywords]
        recv = self.ev(f, fn.value) if isinstance(fn, ast.Attribute) else EMPTY
        name = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else "")
        r = self.p.resolve_expr(f.module, fn, f)
        if r is not None and r[0] == "class":
            for g in cs:
                self.bind_call(f, g, e, args, kws, EMPTY, skip_self=True)
            return self.construct(f, e, r[1])
        if cs:
            out = EMPTY
            for g in cs:
                bound = g.cls is not None and not g.is_static and not (r is not None and r[0] == "func" and isinstance(fn, ast.Attribute)
                                                                      and not g.is_classmethod and self._is_class_expr(f, fn.value))
                self.bind_call(f, g, e, args, kws, recv, skip_self=bound)
                out |= self.env.get(("ret", g.fullname, id(g.node)), EMPTY)
            return out | self.call_extra(f, e, cs)
        u = self.unknown_call(f, e, name, recv, args)
        fnl = EMPTY
        if not isinstance(fn, ast.Attribute) or name.startswith("__"):
            fnl = self.ev(f, fn)
        res = self.apply(f, fnl, args)
        if u is not None:
            return u | res
        if isinstance(fn, ast.Attribute):
            if name in PUTTERS and len(args) > PUTTERS[name]:
                self.bind_into(f, fn.value, into(args[PUTTERS[name]]))
            elif name in ("extend", "update"):
                for a in args:
                    self.bind_into(f, fn.value, into(sub(a)))
            elif name == "setdefault" and len(args) > 1:
                self.bind_into(f, fn.value, into(args[1]))
            elif name == "sort":
                for k, l in kws:
                    if k == "key":
                        self.apply(f, l, [sub(recv)])
            if name in ("copy", "keys", "values", "items", "union", "intersection", "difference", "symmetric_difference"):
                return res | into(recv | frozenset().union(*args) if args else recv)
            if name in ("get", "pop", "popitem", "popleft", "setdefault", "__getitem__", "__next__"):
                out = res | sub(recv)
                for a in args[1:]:
                    out |= a
                return out
            if r is not None and r[0] == "ext":
                return res | self._ext(f, r[1].split(".")[-1], e, args, kws)
            return res
        if isinstance(fn, ast.Name) and not res:
            return self._ext(f, fn.id, e, args, kws)
        return res

    def _is_class_expr(self, f, e):
        r = self.p.resolve_expr(f.module, e, f)
        return r is not None and r[0] == "class"

    def _ext(self, f, name, e, args, kws):
        if name == "cast" and len(args) == 2:
            return args[1]
        if name == "next" and args:
            return sub(args[0]) | (args[1] if len(args) > 1 else EMPTY)
        if name in ("max", "min") and args:
            out = EMPTY
            for a in args:
                out |= sub(a) if len(args) == 1 else a
            return out
        if name == "getattr" and args:
            return sub(args[0])
        if name in ("map", "filter") and len(args) >= 2:
            r = self.apply(f, args[0], [sub(a) for a in args[1:]])
            return into(r) if name == "map" else into(args[1])
        if name == "sorted" and args:
            for k, l in kws:
                if k == "key":
                    self.apply(f, l, [sub(args[0])])
            return into(args[0])
        if name in ("reduce",) and len(args) >= 2:
            return self.apply(f, args[0], [sub(args[1]) | (args[2] if len(args) > 2 else EMPTY), sub(args[1])])
        if name in COPIERS:
            out = EMPTY
            for a in args:
                out |= into(a)
            return out
        return EMPTY

    def call_extra(self, f, e, callees):
        return EMPTY

    def bind_call(self, f, g, e, args, kws, recv, skip_self):
        key = lambda n: ("v", g.fullname, id(g.node), n)
        ps = g.params
        pos = [n for n, k, a, d in ps if k == "pos"]
        var = [n for n, k, a, d in ps if k == "var"]
        if skip_self and pos:
            self.add(key(pos[0]), recv)
            pos = pos[1:]
        i = 0
        for a, l in zip(e.args, args):
            if isinstance(a, ast.Starred):
                for n in pos[i:]:
                    self.add(key(n), sub(l))
                continue
            if i < len(pos):
                self.add(key(pos[i]), l)
            elif var:
                self.add(key(var[0]), into(l))
            i += 1
        names = {n for n, k, a, d in ps if k in ("pos", "kw")}
        kv = [n for n, k, a, d in ps if k == "kwvar"]
        for n, l in kws:
            if n in names:
                self.add(key(n), l)
            elif kv:
                self.add(key(kv[0]), into(l) if n else l)

    # ---- binding
    def bind(self, f, t, ls):
        if isinstance(t, ast.Name):
            self.add(self.var_key(f, t.id), ls)
        elif isinstance(t, ast.Attribute):
            self.ev(f, t.value)
            self.add(self.attr_key(f, t.attr), ls)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.bind(f, x.value, into(sub(ls)))
                else:
                    self.bind(f, x, sub(ls))
        elif isinstance(t, ast.Subscript):
            self.ev(f, t.value)
            self.ev(f, t.slice)
            self.bind_into(f, t.value, into(ls))
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, ls)

    def bind_into(self, f, e, ls):
        """something was put into the container e denotes"""
        if isinstance(e, ast.Name):
            self.add(self.var_key(f, e.id), ls)
        elif isinstance(e, ast.Attribute):
            self.add(self.attr_key(f, e.attr), ls)
        elif isinstance(e, ast.Subscript):
            self.bind_into(f, e.value, ls)

    # ---- statements
    def run(self, limit=30):
        for n in range(limit):
            self.changed = False
            for m in self.p.modules.values():
                self.module(m)
            for f in self.funcs:
                self.function(f)
            if not self.changed:
                return n + 1
        return limit

    def module(self, m):
        pass

    def params(self, f):
        pass

    def function(self, f):
        self.params(f)
        for n in self.p.own_nodes(f):
            self.stmt(f, n)

    def stmt(self, f, n):
        if isinstance(n, ast.Assign):
            l = self.ev(f, n.value)
            for t in n.targets:
                self.bind(f, t, l)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.bind(f, n.target, self.ev(f, n.value))
        elif isinstance(n, ast.AugAssign):
            self.bind(f, n.target, into(self.ev(f, n.value)))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.bind(f, n.target, sub(self.ev(f, n.iter)))
        elif isinstance(n, ast.With):
            for it in n.items:
                l = self.ev(f, it.context_expr)
                if it.optional_vars is not None:
                    self.bind(f, it.optional_vars, l)
        elif isinstance(n, ast.Return):
            self.add(("ret", f.fullname, id(f.node)), self.ev(f, n.value))
        elif isinstance(n, ast.Expr):
            self.ev(f, n.value)
        elif isinstance(n, (ast.If, ast.While)):
            self.ev(f, n.test)
        elif isinstance(n, ast.Raise):
            self.ev(f, n.exc)
        elif isinstance(n, ast.Match):
            l = self.ev(f, n.subject)
            for c in n.cases:
                for x in ast.walk(c.pattern):
                    if isinstance(x, ast.MatchAs) and x.name:
                        self.add(self.var_key(f, x.name), l | sub(l))


def mutation_sites(flow, f):
    """(node, labels, description) of every place in f that changes an existing object"""
    p = flow.p
    for n in p.own_nodes(f):
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target] if getattr(n, "value", None) is not None else []
        elif isinstance(n, ast.Delete):
            ts = n.targets
        elif isinstance(n, (ast.For, ast.With)):
            ts = [n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items if i.optional_vars is not None]
        todo = list(ts)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo.extend(t.elts)
            elif isinstance(t, ast.Starred):
                todo.append(t.value)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                yield n, flow.ev(f, t.value), t, ("item" if isinstance(t, ast.Subscript) else "attribute " + t.attr)
                if isinstance(n, ast.AugAssign):
                    yield n, flow.ev(f, t), t, "+="
            elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                tn = p.type_names(f.module, t) | p.type_names(f.module, n.value)
                if tn & {"builtins.list", "builtins.set", "builtins.dict", "collections.deque"}:
                    yield n, flow.ev(f, ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)), t, "+="
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not p.callees(f, n):
            yield n, flow.ev(f, n.func.value), n.func.value, n.func.attr + "()"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
            yield n, flow.ev(f, n.args[0]), n.args[0], n.func.id
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted",):
            pass
