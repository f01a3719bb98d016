"""Constants an expression may stand for, followed through names, attributes and modules."""
from __future__ import annotations
import ast
from .project import dotted


def consts(p, f, e, depth=0):
    """string constants an expression may stand for, following names"""
    out = []
    if depth > 5 or e is None:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.append((n.value, n))
        elif isinstance(n, ast.Dict):
            pass
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for v in bindings(p, f, n.id):
                out += consts(p, f, v, depth + 1)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for v in attr_bindings(p, f, n):
                out += consts(p, f, v, depth + 1)
    return out


def bindings(p, f, name):
    out = []
    found = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            out.append(n.value)
            found = True
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            out.append(n.value)
            found = True
        elif isinstance(n, (ast.For, ast.comprehension)):
            tgt = n.target
            if isinstance(tgt, ast.Name) and tgt.id == name or isinstance(tgt, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name for x in tgt.elts):
                out.append(n.iter)
                found = True
    if found or any(q[0] == name for q in f.params):
        return out
    v = module_value(p, f.module, name)
    return [v] if v is not None else []


def module_value(p, m, name, depth=0):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return s.value
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            return s.value
        if isinstance(s, ast.ImportFrom) and depth < 4 and any((a.asname or a.name) == name for a in s.names):
            real = next(a.name for a in s.names if (a.asname or a.name) == name)
            for k, other in p.modules.items():
                if s.module and (k == s.module or k.endswith("." + s.module)):
                    return module_value(p, other, real, depth + 1)
    return None


def attr_bindings(p, f, n):
    out = []
    if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and f.cls is not None:
        for k in f.cls.mro():
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.attr for t in s.targets):
                    out.append(s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n.attr and s.value is not None:
                    out.append(s.value)
            for g in k.methods.values():
                for s in ast.walk(g.node):
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == n.attr:
                                out.append(s.value)
    else:
        d = dotted(n)
        if d and "." in d:
            v = module_value_dotted(p, f, d)
            if v is not None:
                out.append(v)
    return out


def module_value_dotted(p, f, d):
    head, attr = d.rsplit(".", 1)
    for c in p.classes.values():
        if c.name == head.split(".")[-1]:
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                    return s.value
    for k, m in p.modules.items():
        if k.split(".")[-1] == head.split(".")[-1]:
            return module_value(p, m, attr)
    return None
