"""The texts an expression may stand for: constant pieces and holes, followed through names, parameters and helpers."""
from __future__ import annotations
import ast
from .consts import bindings, attr_bindings, module_value

LIMIT = 200


class Hole:
    __slots__ = ("f", "e")

    def __init__(self, f, e):
        self.f, self.e = f, e

    def __repr__(self):
        return "{" + ast.unparse(self.e)[:40] + "}"


def join(a, b):
    a = list(a)
    for x in b:
        if a and isinstance(a[-1], str) and isinstance(x, str):
            a[-1] = a[-1] + x
        else:
            a.append(x)
    return a


def product(xs, ys):
    return [join(a, b) for a in xs for b in ys][:LIMIT]


def owner(p, f, name):
    """the enclosing function whose parameter `name` is"""
    g = f
    while g is not None:
        if any(q[0] == name for q in g.params):
            return g
        g = getattr(g, "parent", None)
    return None


def arguments(p, f, name):
    """(caller, expression) for every argument passed for parameter `name` of f, None when a call is not understood"""
    names = [q[0] for q in f.params]
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    i = pos.index(name) if name in pos else None
    if i is not None and pos and pos[0] in ("self", "cls") and f.cls is not None and not f.is_static:
        i -= 1
    out = []
    index = p.__dict__.get("_calls_by_name")
    if index is None:
        index = p.__dict__["_calls_by_name"] = {}
        for g in p.all_functions():
            for c in p.calls_in(g):
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                index.setdefault(nm, []).append((g, c))
    for g, c in index.get(f.name, []):
        v = next((k.value for k in c.keywords if k.arg == name), None)
        if v is None and i is not None and i < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args[:i + 1]):
            v = c.args[i]
        if v is not None:
            out.append((g, v))
    return out


def unpacked(f, name):
    """(elements, i) when `name` is the i-th target of a loop over a display of tuples"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Tuple):
            for i, t in enumerate(n.target.elts):
                if isinstance(t, ast.Name) and t.id == name:
                    return n.iter, i
    return None


BUDGET = [0]


def texts(p, f, e, depth=0, seen=()):
    """list of texts; a text is a list of str and Hole. What would take too long to unfold is a Hole."""
    hole = [[Hole(f, e)]]
    if depth == 0:
        BUDGET[0] = 4000
    BUDGET[0] -= 1
    if depth > 8 or id(e) in seen or BUDGET[0] < 0:
        return hole
    seen = seen + (id(e),)
    go = lambda x, g=f: texts(p, g, x, depth + 1, seen)
    if isinstance(e, ast.Constant):
        return [[e.value]] if isinstance(e.value, str) else [[str(e.value)]] if isinstance(e.value, int) else hole
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return product(go(e.left), go(e.right))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
        args = list(e.right.elts) if isinstance(e.right, ast.Tuple) else [e.right]
        bits = e.left.value.split("%s")
        if len(bits) == len(args) + 1:
            out = [[bits[0]]]
            for b, a in zip(bits[1:], args):
                out = product(product(out, go(a)), [[b]])
            return out
        return hole
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str) and not e.keywords:
        bits = e.func.value.value.split("{}")
        if len(bits) == len(e.args) + 1:
            out = [[bits[0]]]
            for b, a in zip(bits[1:], e.args):
                out = product(product(out, go(a)), [[b]])
            return out
        return hole
    if isinstance(e, ast.JoinedStr):
        out = [[""]]
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = product(out, [[v.value]])
            elif v.conversion == -1 and v.format_spec is None:
                # formatting a boolean shows it
                out = product(out, go(v.value))
            else:
                out = product(out, [[Hole(f, v.value)]])
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "casefold") and not e.args:
        out = []
        for t in go(e.func.value):
            if all(isinstance(x, str) for x in t):
                out.append([getattr(x, e.func.attr)() for x in t])
            else:
                return hole
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
        if boolish(p, f, e.args[0]):
            return [["True"], ["False"]]
        r = go(e.args[0])
        return r
    if isinstance(e, ast.IfExp):
        return go(e.body) + go(e.orelse)
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        return [t for v in e.values for t in go(v)]
    if isinstance(e, ast.NamedExpr):
        return go(e.value)
    if isinstance(e, ast.Subscript):
        tables = [e.value]
        if isinstance(e.value, ast.Name):
            tables = bindings(p, f, e.value.id)
        elif isinstance(e.value, ast.Attribute):
            tables = attr_bindings(p, f, e.value)
        if tables and all(isinstance(t, ast.Dict) for t in tables):
            return [x for t in tables for v in t.values for x in go(v)]
        if tables and all(isinstance(t, (ast.Tuple, ast.List)) for t in tables) and not isinstance(e.slice, ast.Slice):
            return [x for t in tables for v in t.elts for x in go(v)]
        return hole
    if isinstance(e, ast.Name):
        g = owner(p, f, e.id)
        if g is not None and not any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
            args = arguments(p, g, e.id)
            if args:
                return [t for h, v in args for t in go(v, h)]
            return hole
        u = unpacked(f, e.id)
        if u is not None:
            it, i = u
            out = []
            its = [it] if not isinstance(it, ast.Name) else bindings(p, f, it.id)
            for x in its:
                if isinstance(x, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(y, ast.Tuple) and i < len(y.elts) for y in x.elts):
                    for y in x.elts:
                        out += go(y.elts[i])
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "items" and isinstance(x.func.value, ast.Dict):
                    for y in (x.func.value.keys, x.func.value.values)[i]:
                        out += go(y)
                else:
                    return hole
            return out or hole
        bs = bindings(p, f, e.id)
        if not bs and getattr(f, "parent", None) is not None:
            bs = bindings(p, f.parent, e.id)
        out = []
        for b in bs:
            loop = any(isinstance(n, (ast.For, ast.comprehension)) and n.iter is b for n in ast.walk(f.node))
            if loop:
                its = [b] if not isinstance(b, ast.Name) else bindings(p, f, b.id)
                for x in its:
                    if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
                        for y in x.elts:
                            out += go(y)
                    else:
                        return hole
            else:
                out += go(b)
        return out or hole
    if isinstance(e, ast.Attribute):
        bs = attr_bindings(p, f, e)
        if bs and all(isinstance(b, (ast.Constant, ast.JoinedStr, ast.BinOp)) for b in bs):
            return [t for b in bs for t in go(b)]
        return hole
    if isinstance(e, ast.Call):
        g = callee(p, f, e)
        if g is not None:
            rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
            if rets and len(rets) <= 4:
                return [t for r in rets for t in go(r, g)]
    return hole


def callee(p, f, c):
    r = p.resolve_expr(f.module, c.func, f)
    if r is not None and r[0] in ("func", "function"):
        return r[1]
    if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls") and f.cls is not None:
        return f.cls.lookup(mangle(f, c.func.attr)) or f.cls.lookup(c.func.attr)
    return None


def mangle(f, a):
    return a


def boolish(p, f, e):
    if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool", "isinstance", "any", "all"):
        return True
    try:
        return {n.split(".")[-1] for n in p.type_names(f.module, e)} == {"bool"}
    except Exception:
        return False
