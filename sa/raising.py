"""Which exceptions a piece of code may let out: explicit raises, conversions
of text, look-ups that fail; through project calls, minus what is handled."""
from __future__ import annotations
import ast
from .project import dotted
from .present import catches, caught_by

CONV = {"int": {"ValueError"}, "float": {"ValueError"}, "datetime.date.fromisoformat": {"ValueError"}, "date.fromisoformat": {"ValueError"},
        "datetime.datetime.strptime": {"ValueError"}, "datetime.datetime.fromisoformat": {"ValueError"}, "datetime.date": {"ValueError"},
        "next": {"StopIteration"}, "open": {"OSError"}, "json.loads": {"ValueError"}, "Decimal": {"InvalidOperation"},
        "dateutil.parser.parse": {"ValueError", "OverflowError"}, "parser.parse": {"ValueError", "OverflowError"}, "urlparse": {"ValueError"}, "urllib.parse.urlparse": {"ValueError"}}


class Raising:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def of(self, f):
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = {}
        self.memo[f] = self.stmts(f, f.node.body)
        return self.memo[f]

    def stmts(self, f, body):
        """exception name -> node that may raise it"""
        out = {}
        for s in body:
            for k, v in self.stmt(f, s).items():
                out.setdefault(k, v)
        return out

    def stmt(self, f, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return {}
        if isinstance(s, ast.Try):
            inner = self.stmts(f, s.body)
            out = {}
            for k, v in inner.items():
                if not any(catches(h, k) for h in s.handlers):
                    out[k] = v
            for h in s.handlers:
                for k, v in self.stmts(f, h.body).items():
                    if k == "*reraise":
                        for c in (caught_by(h) or {"Exception"}):
                            out.setdefault(c, v)
                    else:
                        out.setdefault(k, v)
            for blk in (s.orelse, s.finalbody):
                for k, v in self.stmts(f, blk).items():
                    out.setdefault(k, v)
            return out
        out = {}
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return {"*reraise": s}
            n = dotted(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            out[(n or "Exception").split(".")[-1]] = s
        for fld, val in ast.iter_fields(s):
            for x in (val if isinstance(val, list) else [val]):
                if isinstance(x, ast.stmt):
                    for k, v in self.stmt(f, x).items():
                        out.setdefault(k, v)
                elif isinstance(x, ast.AST):
                    for k, v in self.expr(f, x).items():
                        out.setdefault(k, v)
        return out

    def expr(self, f, e):
        out = {}
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ""
                cs = self.p.callees(f, n)
                if cs:
                    for g in cs:
                        if g.is_abstract:
                            continue
                        for k in self.of(g):
                            if k not in ("NotImplementedError", "*reraise", "OverflowError"):
                                out.setdefault(k, n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "raise_for_status":
                    out.setdefault("RequestException", n)
                elif n.args and (self.p.resolve_expr(f.module, n.func, f) or ("",))[0] == "class" and self.p.resolve_expr(f.module, n.func, f)[1].is_enum:
                    out.setdefault("ValueError", n)
                elif d in CONV and n.args and not (d == "next" and len(n.args) > 1) and not (d in ("int", "float") and isinstance(n.args[0], ast.Constant)):
                    for k in CONV[d]:
                        if d in ("int", "float") and self.p.type_names(f.module, n.args[0]) <= {"builtins.int", "builtins.float", "builtins.bool"} and self.p.type_names(f.module, n.args[0]):
                            continue
                        out.setdefault(k, n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
                t = self.p.type_names(f.module, n.value)
                if t == {"builtins.dict"}:
                    out.setdefault("KeyError", n)
            todo += [c for c in ast.iter_child_nodes(n)]
        return out
