"""Under which conditions a construct runs: the tests around it and the early exits before it, as a propositional formula."""
from __future__ import annotations
import ast
import copy
import itertools
from . import strings


class Guards:
    def __init__(self, p):
        self.p = p
        self.parents = {}
        self.assigned = {}

    def parent(self, f):
        if f not in self.parents:
            m = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    m[c] = n
            self.parents[f] = m
        return self.parents[f]

    def stores(self, f):
        if f not in self.assigned:
            d = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    d.setdefault(n.id, []).append(n)
            self.assigned[f] = d
        return self.assigned[f]

    def version(self, f, name, line):
        ls = [n.lineno for n in self.stores(f).get(name, []) if n.lineno < line or n.lineno == line and False]
        return max(ls) if ls else 0

    def value_of(self, f, name, line):
        """the expression a name stands for at a line, when it is assigned exactly once, before it"""
        st = self.stores(f).get(name, [])
        if len(st) != 1 or st[0].lineno >= line or any(q[0] == name for q in f.params):
            return None
        a = self.parent(f).get(st[0])
        if isinstance(a, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and a.value is not None:
            if isinstance(a, ast.Assign) and (len(a.targets) != 1 or a.targets[0] is not st[0]):
                return None
            return a.value
        return None

    def canon(self, f, e, env=None, depth=0):
        """e with single-assignment names replaced by what they stand for and the others marked with their version"""
        g = self
        env = env or {}
        line = getattr(e, "lineno", 0)

        class X(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id in env:
                    return copy.deepcopy(env[n.id])
                if isinstance(n.ctx, ast.Load) and depth < 6 and not env:
                    v = g.value_of(f, n.id, n.lineno)
                    if v is not None:
                        return g.canon(f, v, depth=depth + 1)
                if env is not None and env and n.id in {q[0] for q in f.params}:
                    return n
                k = g.version(f, n.id, n.lineno)
                return ast.copy_location(ast.Name(id=f"{n.id}@{k}" if k else n.id, ctx=ast.Load()), n)
        return X().visit(copy.deepcopy(e))

    # ---------------------------------------------------------- formulas
    def formula(self, f, e, env=None, depth=0):
        if isinstance(e, ast.BoolOp):
            return ("and" if isinstance(e.op, ast.And) else "or", [self.formula(f, v, env, depth) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ("not", self.formula(f, e.operand, env, depth))
        if isinstance(e, ast.Constant):
            return ("const", bool(e.value))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.formula(f, e.args[0], env, depth)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool):
            x = self.formula(f, e.left, env, depth)
            same = e.comparators[0].value == isinstance(e.ops[0], (ast.Is, ast.Eq))
            return x if same else ("not", x)
        if isinstance(e, ast.IfExp):
            t, a, b = (self.formula(f, x, env, depth) for x in (e.test, e.body, e.orelse))
            return ("or", [("and", [t, a]), ("and", [("not", t), b])])
        if isinstance(e, ast.Name) and depth < 6:
            if env and e.id in env:
                return ("atom", self.text(env[e.id]), env[e.id])
            v = self.value_of(f, e.id, e.lineno)
            if v is not None:
                return self.formula(f, v, env, depth + 1)
        if isinstance(e, ast.Call) and depth < 6:
            h = strings.callee(self.p, f, e)
            if h is not None and not h.is_abstract:
                body = [s for s in h.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and self.predicate(body[0].value):
                    names = [q[0] for q in h.params if q[0] not in ("self", "cls")]
                    args = [self.apply(f, a, env) for a in e.args]
                    sub = dict(zip(names, args))
                    for k in e.keywords:
                        if k.arg:
                            sub[k.arg] = self.apply(f, k.value, env)
                    if len(sub) >= len(names):
                        return self.formula(h, body[0].value, sub, depth + 1)
        c = self.apply(f, e, env)
        return ("atom", self.text(c), c)

    def predicate(self, e):
        """worth looking into: a test on the arguments, not a forwarded question"""
        if isinstance(e, (ast.BoolOp, ast.Compare)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "match", "endswith")

    def apply(self, f, e, env):
        return self.canon(f, e, env)

    def text(self, e):
        return ast.unparse(e)

    # ---------------------------------------------------------- conditions
    def exits(self, body):
        if not body:
            return False
        s = body[-1]
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If):
            return self.exits(s.body) and self.exits(s.orelse)
        if isinstance(s, ast.With):
            return self.exits(s.body)
        return False

    def conditions(self, f, node):
        """formulas that hold whenever node runs"""
        par = self.parent(f)
        out = []
        n = node
        while n is not f.node and n in par:
            q = par[n]
            if isinstance(q, (ast.If, ast.IfExp, ast.While)) and n is not q.test:
                t = self.formula(f, q.test)
                body = q.body if isinstance(q.body, list) else [q.body]
                if any(n is x for x in body):
                    out.append(t)
                elif isinstance(q, ast.If) or isinstance(q, ast.IfExp):
                    out.append(("not", t))
            if isinstance(q, ast.BoolOp):
                for v in q.values:
                    if v is n:
                        break
                    t = self.formula(f, v)
                    out.append(t if isinstance(q.op, ast.And) else ("not", t))
            for name in ("body", "orelse", "finalbody"):
                block = getattr(q, name, None)
                if isinstance(block, list) and any(x is n for x in block):
                    for s in block:
                        if s is n:
                            break
                        if isinstance(s, ast.If):
                            if self.exits(s.body) and not self.exits(s.orelse):
                                out.append(("not", self.formula(f, s.test)))
                            elif s.orelse and self.exits(s.orelse) and not self.exits(s.body):
                                out.append(self.formula(f, s.test))
                        elif isinstance(s, ast.Assert):
                            out.append(self.formula(f, s.test))
            n = q
        return out


def atoms(x, out=None):
    out = {} if out is None else out
    if x[0] == "atom":
        out.setdefault(x[1], x[2])
    elif x[0] == "not":
        atoms(x[1], out)
    elif x[0] in ("and", "or"):
        for y in x[1]:
            atoms(y, out)
    return out


def truth(x, v):
    if x[0] == "const":
        return x[1]
    if x[0] == "atom":
        return v[x[1]]
    if x[0] == "not":
        return not truth(x[1], v)
    if x[0] == "and":
        return all(truth(y, v) for y in x[1])
    return any(truth(y, v) for y in x[1])


def entails(conds, goal):
    """whether the conditions imply goal: atom text -> bool; None when there are too many atoms"""
    names = {}
    for c in conds:
        atoms(c, names)
    if goal[0] not in names:
        return False
    if len(names) > 12:
        return None
    ks = list(names)
    for vs in itertools.product((False, True), repeat=len(ks)):
        v = dict(zip(ks, vs))
        if all(truth(c, v) for c in conds) and v[goal[0]] != goal[1]:
            return False
    return True
