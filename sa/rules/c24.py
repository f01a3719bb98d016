"""C24: every implementation honours the interfaces it is used through."""
from __future__ import annotations
import ast
import re
from ..project import AnalysisError, ClassInfo, dotted

CODES = {"override", "abstract", "call-arg", "attr-defined", "return"}
SPECIAL = {"__init__", "__new__", "__init_subclass__", "__class_getitem__", "__post_init__"}


def sig(f):
    """(positional [(name, required)], keyword-only {name: required}, *args, **kwargs), without self"""
    pos = [(n, d is None) for n, k, a, d in f.params if k == "pos"]
    if not f.is_static and pos:
        pos = pos[1:]
    return pos, {n: d is None for n, k, a, d in f.params if k == "kw"}, any(k == "var" for n, k, a, d in f.params), any(k == "kwvar" for n, k, a, d in f.params)


def incompatible(sub, base, keywords):
    """why a call that fits base does not fit sub"""
    if sub.is_property != base.is_property:
        return "is a property in one and a method in the other"
    if sub.is_property:
        return None
    sp, sk, sv, skv = sig(sub)
    bp, bk, bv, bkv = sig(base)
    names = [n for n, r in sp]
    for i, (n, req) in enumerate(bp):
        if i < len(sp):
            if sp[i][0] != n and (n in names or n in keywords):
                return f"calls its parameter '{n}' '{sp[i][0]}', but callers name it" if n not in names else f"takes its parameters in another order ('{sp[i][0]}' instead of '{n}')"
            if sp[i][1] and not req:
                return f"requires '{n}', which callers may leave out"
        elif not sv:
            return f"does not accept '{n}'" if n not in sk else f"accepts '{n}' only by keyword"
    for n, req in sp[len(bp):]:
        if req and not bv:
            if not (n in bk and bk[n]):
                return f"requires '{n}', which callers do not pass"
    for n, req in bk.items():
        if n not in sk and n not in names and not skv:
            return f"does not accept the keyword '{n}'"
    for n, req in sk.items():
        if req and not bk.get(n, False):
            return f"requires the keyword '{n}', which callers do not pass"
    if bv and not sv:
        return "does not accept further positional arguments"
    if bkv and not skv:
        return "does not accept further keyword arguments"
    return None


def body_of(f):
    b = f.node.body
    if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def unimplemented(f):
    """nothing but a complaint: whatever the arguments, the operation is not there"""
    b = body_of(f)
    if not isinstance(b, list):
        return False
    for s in b:
        if isinstance(s, ast.Raise) and s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            return (dotted(e) or "").split(".")[-1] in ("NotImplementedError", "NotImplemented")
        if isinstance(s, (ast.Pass, ast.Assert)) or isinstance(s, ast.Expr) and not any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(s)):
            continue
        return False
    return False


def empty(f):
    b = body_of(f)
    return isinstance(b, list) and all(isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in b)


def promises(f):
    r = getattr(f.node, "returns", None)
    return r is not None and not (isinstance(r, ast.Constant) and r.value is None) and "Optional" not in ast.unparse(r) and "None" not in ast.unparse(r)


def check(p, rep, tier):
    rep.rule("R1-complete", "a class that is instantiated implements every abstract operation of its interfaces", 30)
    rep.rule("R2-signature", "an overriding operation accepts every call the overridden one accepts", 100)
    rep.rule("R3-implemented", "an operation of an instantiated class does something other than report that it is not implemented", 200)
    rep.rule("R4-typechecker", "the type checker finds no use of an interface that an implementation or the interface itself does not offer", 1)
    rep.rule("R6-callable", "what is called, or handed over to be called, can be called: a type description cannot", 1)
    rep.rule("R5-tables", "functions that are chosen from one table can be called in the same way", 0)
    p.type_of(next(iter(p.modules.values())), ast.parse("x").body[0].value)
    made = instantiated(p)
    if len(made) < 40:
        raise AnalysisError(f"only {len(made)} instantiated classes found")
    concrete = sorted((c for c in p.classes.values() if concrete_leaf(c, made)), key=lambda c: c.fullname)
    for c in concrete:
        rep.saw("classes", c.fullname)
        site = made.get(c)
        ab = c.abstract_names()
        rep.ob("R1-complete", c.name, not ab, f"{c.name} is used as a complete class but does not implement {', '.join(sorted(ab))}", site[0].loc(site[1]) if site else f"{c.module.relpath}:{c.node.lineno}", key=f"R1:{c.name}")
        seen = set()
        for k in c.mro():
            for n, f in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if f.is_abstract:
                    continue
                base = next((b.methods[n] for b in k.mro()[1:] if n in b.methods), None)
                bad = unimplemented(f)
                why = "is not implemented"
                if not bad and base is not None and base.is_abstract and empty(f) and promises(base):
                    bad, why = True, "returns nothing although a result is promised"
                rep.ob("R3-implemented", f"{c.name}.{n}", not bad, f"{k.name}.{n} {why}", f.loc(), key=f"R3:{k.name}.{n}")
    # signatures: every override against every definition above it
    kw = {}
    for f in p.all_functions():
        for k in p.calls_in(f):
            if isinstance(k.func, ast.Attribute):
                kw.setdefault(k.func.attr, set()).update(x.arg for x in k.keywords if x.arg)
    for c in p.classes.values():
        for n, f in c.methods.items():
            if n in SPECIAL or n.startswith("__") and not n.endswith("__"):
                continue
            for b in c.mro()[1:]:
                g = b.methods.get(n)
                if g is None:
                    continue
                why = incompatible(f, g, kw.get(n, ()))
                rep.ob("R2-signature", f"{c.name}.{n} / {b.name}.{n}", why is None, f"{c.name}.{n} {why}, unlike {b.name}.{n}, through which it is called", f.loc(), key=f"R2:{c.name}.{n}:{b.name}")
    checker(p, rep)
    tables(p, rep)
    callable_(p, rep)
    rep.assume("operations named with two leading underscores are private and not part of an interface")


def instantiated(p):
    out = {}
    for f in p.all_functions():
        for c in p.calls_in(f):
            r = p.resolve_expr(f.module, c.func, f)
            if r is not None and r[0] == "class":
                out.setdefault(r[1], (f, c))
            elif isinstance(c.func, ast.Name) and c.func.id == "cls" and f.cls is not None and f.is_classmethod:
                out.setdefault(f.cls, (f, c))
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and p.enclosing_function(n) is None:
                r = p.resolve_expr(m, n.func)
                if r is not None and r[0] == "class":
                    out.setdefault(r[1], (Site(m), n))
    return out


class Site:
    def __init__(self, m):
        self.m = m

    def loc(self, n):
        return f"{self.m.relpath}:{n.lineno}"


def concrete_leaf(c, made):
    if any(isinstance(b, str) and b.split(".")[-1] == "Protocol" for b in c.bases):
        return False
    if c in made:
        return True
    # not made anywhere in the library, but below an interface and without subclasses: users make it
    return not c.subclasses and any(k.abstract_names() for k in c.mro()[1:]) and not c.is_enum


def checker(p, rep):
    """errors of the type checker that concern a class of the project"""
    names = {c.name for c in p.classes.values()}
    n = 0
    for e in p.mypy_errors:
        m = re.match(r"(.*?):(\d+)(?::\d+)?: error: (.*?)\s*\[([a-z-]+)\]$", e)
        if not m or m.group(4) not in CODES:
            continue
        msg = m.group(3)
        quoted = set(re.findall(r'"([^"]+)"', msg))
        about = {q.split("[")[0].split(".")[0] for q in quoted} | {q.split(".")[-1] for q in quoted}
        if m.group(4) == "attr-defined" and not (msg.startswith('"') and re.match(r'"([^"\[]+)', msg).group(1) in names):
            continue
        if m.group(4) in ("override", "abstract") and not about & names and not re.search(r"supertype|superclass|abstract", msg):
            continue
        n += 1
        rep.ob("R4-typechecker", f"{m.group(1)}: {msg[:80]}", False, msg, f"{m.group(1)}:{m.group(2)}", key=f"R4:{m.group(1)}:{m.group(4)}:{msg[:80]}")
    rep.ob("R4-typechecker", "type checker", True)
    rep.stats["type_checker_messages"] = len(p.mypy_errors)


def tables(p, rep):
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Dict) or len(n.values) < 3:
                continue
            fs = []
            owner = p.enclosing_function(n)
            for v in n.values:
                r = p.resolve_expr(m, v, owner) if isinstance(v, (ast.Name, ast.Attribute)) else None
                if r is not None and r[0] == "func":
                    fs.append((v, r[1]))
            if len(fs) < 3 or len(fs) < len(n.values):
                continue
            rng = []
            for v, g in fs:
                pos, kw, var, kv = sig(g)
                rng.append((sum(1 for x, q in pos if q), 99 if var else len(pos), g))
            # the most common number of arguments the functions accept
            counts = {k: sum(1 for lo, hi, g in rng if lo <= k <= hi) for k in range(0, 12)}
            best = max(counts, key=lambda k: (counts[k], -k))
            for (lo, hi, g), (v, _) in zip(rng, fs):
                rep.ob("R5-tables", f"{m.name}: {g.qualname}", lo <= best <= hi, f"{g.qualname} cannot be called with {best} argument(s) like the other functions of the table", f"{m.relpath}:{v.lineno}", key=f"R5:{m.name}:{g.qualname}")


def callable_(p, rep):
    """typing.List[int](), and defaultdict(List[int]) whose first missing key calls it"""
    def alias(m, e, f):
        base = e.value if isinstance(e, ast.Subscript) else e
        r = p.resolve_expr(m, base, f)
        return r is not None and r[0] == "ext" and r[1].split(".")[0] in ("typing", "typing_extensions") and r[1].split(".")[-1] in (
            "List", "Dict", "Set", "FrozenSet", "Tuple", "Type", "Callable", "Optional", "Union", "Any", "Iterable", "Sequence", "Mapping", "Literal", "IO")
    n = 0
    for m in p.modules.values():
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            f = p.enclosing_function(c)
            where = f.qualname if f is not None else m.name
            cands = [c.func]
            if (dotted(c.func) or "").split(".")[-1] == "defaultdict" and c.args:
                cands.append(c.args[0])
            cands += [k.value for k in c.keywords if k.arg in ("default_factory", "factory")]
            n += 1
            for e in cands:
                if alias(m, e, f):
                    rep.ob("R6-callable", f"{where} {ast.unparse(e)}", False, f"{ast.unparse(e)} only describes a type and cannot be called", f"{m.relpath}:{c.lineno}", key=f"R6:{where}:{ast.unparse(e)}")
    rep.ob("R6-callable", "calls", n > 100, "calls were not found")
    rep.stats["calls"] = n
