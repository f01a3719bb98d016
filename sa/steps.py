"""The order in which parsing touches the repositories: a linear trace of the
repository operations reached from an entry function, by inlining calls."""
from __future__ import annotations
import ast

WRITE = ("upsert", "insert", "add", "delete", "get_or_create", "store", "put", "set", "append", "remove", "clear", "register", "save")


class Event:
    __slots__ = ("repo", "kind", "leaf", "op", "path", "loops", "call")

    def __init__(self, repo, kind, leaf, op, path, loops, call):
        self.repo, self.kind, self.leaf, self.op, self.path, self.loops, self.call = repo, kind, leaf, op, path, loops, call

    def under(self, f, c, loops):
        return Event(self.repo, self.kind, self.leaf, self.op, ((f, c),) + self.path, loops + self.loops, self.call)


class Tracer:
    def __init__(self, p, family=None, chosen=None):
        """family/chosen: of the subclasses of family, only chosen exists"""
        self.p, self.family, self.chosen = p, family, chosen
        self.repos = {}
        for c in p.classes.values():
            if c.module.name.startswith("brel.data."):
                top = None
                for k in c.mro():
                    if k.module.name.startswith("brel.data.") and k.name.endswith("Repository"):
                        top = k
                if top is not None:
                    self.repos[c] = top.name
        self.memo = {}
        self.unique = {}
        for c in p.classes.values():
            for n, g in c.methods.items():
                self.unique.setdefault(n, []).append(g)

    def classes(self, f, e, depth=0):
        cs = self.p.classes_of(f.module, e)
        if cs or depth > 4:
            return list(cs)
        out = []
        if isinstance(e, ast.Name):
            for n in self.p.own_nodes(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and t.id == e.id:
                            out += self.classes(f, n.value, depth + 1)
        elif isinstance(e, ast.Call):
            for g in self.callees(f, e, depth + 1):
                if g.name == "__init__" and g.cls is not None:
                    out.append(g.cls)
                    continue
                r = getattr(g.node, "returns", None)
                if r is None:
                    for n in self.p.own_nodes(g):
                        if isinstance(n, ast.Return) and n.value is not None:
                            out += self.classes(g, n.value, depth + 1)
                            if isinstance(n.value, ast.Call):
                                for a in n.value.args:
                                    if isinstance(a, ast.Lambda):
                                        out += self.classes(g, a.body, depth + 1)
                    continue
                k = self.p.resolve_expr(g.module, r, g)
                if k is not None and k[0] == "class":
                    out.append(k[1])
        return out

    def callees(self, f, c, depth=0):
        gs = list(self.p.callees(f, c))
        if not gs and isinstance(c.func, ast.Name):
            for e in unrolled(self.p, f, c.func.id):
                gs += self.callees(f, ast.copy_location(ast.Call(func=e, args=[], keywords=[]), c), depth + 1)
            return gs
        if gs or not isinstance(c.func, ast.Attribute):
            return self.filter(gs)
        out = []
        for k in self.classes(f, c.func.value, depth):
            g = k.lookup(c.func.attr)
            if g is not None:
                out.append(g)
        if not out and not self.p.type_names(f.module, c.func.value):
            gs = self.unique.get(c.func.attr, [])
            if len(gs) == 1:
                out = gs
        return self.filter(out)

    def literal_loop(self, n):
        return isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List))

    def filter(self, gs):
        if self.family is None:
            return gs
        mro = self.chosen.mro()
        out = []
        for g in gs:
            if g.cls is not None and self.family in g.cls.mro():
                if g.cls not in mro:
                    continue
                h = self.chosen.lookup(g.name)
                if h is not None and g.name != "__init__":
                    g = h
            if g not in out:
                out.append(g)
        return out

    def events(self, f, stack=()):
        if f in self.memo:
            return self.memo[f]
        if f in stack:
            return []
        out = []

        def walk(node, loops):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                walk(c, loops + (c,) if not self.literal_loop(c) and isinstance(c, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) else loops)
            if isinstance(node, ast.Call):
                gs = self.callees(f, node)
                for g in gs:
                    if g.cls in self.repos and g.name != "__init__":
                        out.append(Event(self.repos[g.cls], "w" if g.name.startswith(WRITE) else "r", f, g.name, ((f, node),), loops, node))
                        break
                else:
                    for g in gs:
                        if g.cls in self.repos:
                            continue
                        out.extend(e.under(f, node, loops) for e in self.events(g, stack + (f,)))
                # functions passed as arguments run at the call
                for a in list(node.args) + [k.value for k in node.keywords]:
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        r = self.p.resolve_expr(f.module, a, f)
                        if r is not None and r[0] == "func":
                            out.extend(e.under(f, node, loops) for e in self.events(r[1], stack + (f,)))
        for s in (f.node.body if isinstance(f.node.body, list) else [f.node.body]):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                walk(ast.Module(body=[s], type_ignores=[]), ())
        self.memo[f] = out
        return out


def unrolled(p, f, name):
    """the callables a loop over a literal sequence takes one by one"""
    for n in p.own_nodes(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name and isinstance(n.iter, (ast.Tuple, ast.List)):
            return [e for e in n.iter.elts if isinstance(e, (ast.Name, ast.Attribute))]
    return []


def meet(a, b):
    """the function in which the paths of two events part, and the two calls"""
    last = None
    for x, y in zip(a.path, b.path):
        if x[0] is not y[0]:
            break
        last = (x[0], x[1], y[1])
        if x[1] is not y[1]:
            break
    return last
