"""C04: a problem in a filing that is found and reported does not make the
parse fail: values, keys and positions found missing are not used, look-ups
that fail are asked first or handled, and handlers cover what their body raises."""
from __future__ import annotations
import ast
from ..nullness import Null
from ..present import Present, lookup_methods, covering_try, argmap, subst, catches
from ..project import AnalysisError, dotted
from ..raising import Raising

SCOPE = ("brel.parsers", "brel.services", "brel.data", "brel.qnames", "brel.characteristics", "brel.reportelements", "brel.contexts", "brel.errors", "brel.networks", "brel.resource")

# attributes every valid XBRL document carries where they are read (required by the schemas); all others may be left out
REQUIRED = {"xlink:type", "xlink:label", "xlink:from", "xlink:to", "xlink:arcrole", "xlink:role", "xlink:href", "id", "dimension", "contextRef", "roleURI", "arcroleURI", "name"}
EXC = {"null": ("TypeError", "AttributeError"), "absent": ("KeyError",), "short": ("IndexError",)}


def in_scope(f):
    return f.module.name.startswith(SCOPE) and not f.is_abstract


def attr_name(p, f, e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("to_namespace_localname_notation", "qname_from_str"):
        a = [x.value for x in e.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        if len(a) == 2:
            return ":".join(a)
        if len(a) == 1:
            return a[0]
        for x in e.args:
            if isinstance(x, ast.Call):
                return attr_name(p, f, x)
    if isinstance(e, ast.Name):
        vals = []
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and t.id == e.id:
                    vals.append(n.value)
        if len(vals) == 1:
            return attr_name(p, f, vals[0])
        r = p.resolve_expr(f.module, e, f)
        if r is not None and r[0] == "var" and len(r[1]) == 1 and r[1][0] is not None:
            return attr_name(p, f, r[1][0])
    return None


def tested(p, f, node):
    """names whose truth value (or boolean coercion) node tests, directly"""
    out = []
    for n in p.own_nodes(f):
        ts = []
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            ts = [n.test]
        elif isinstance(n, ast.comprehension):
            ts = n.ifs
        elif isinstance(n, ast.BoolOp):
            ts = n.values[:-1]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            ts = [n.operand]
        elif isinstance(n, ast.Call) and dotted(n.func) == "bool":
            ts = n.args
        for t in ts:
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            vs = t.values if isinstance(t, ast.BoolOp) else [t]
            out += [v for v in vs if not isinstance(v, (ast.Compare, ast.Constant))]
    return out


def pre_ok(p, L, f, node, fact, depth, cache):
    """the guard may sit in every caller"""
    params = {n for n, k, a, d in f.params}
    r, a, k = fact
    names = set()
    for t in (r,) + a:
        names |= {x.id for x in ast.walk(ast.parse("(" + (t or "None") + ",)", mode="eval")) if isinstance(x, ast.Name)}
    glob = {n for n in names if n not in params and n not in p.local_names(f)}
    if not names or not (names - glob) <= params or "self" in names or depth > 3:
        return False
    sites = callers(p, f)
    if not sites:
        return False
    for g, c in sites:
        m = argmap(p, f, c)
        if m is None:
            return False
        key = (g.fullname, "state")
        P = Present(p, g, L)
        texts = {n: P.canon(x) for n, x in m.items()}
        texts.update({n: n for n in glob})
        r2, a2 = (subst(r, texts) if r else ""), tuple(subst(t, texts) for t in a)
        if r2 is None or None in a2:
            return False
        want = (r2, a2, k)
        if not holds_at(p, L, g, c, want) and not covering_try(p, c, "KeyError" if k == "[]" else "ValueError", g.node) and not pre_ok(p, L, g, c, want, depth + 1, cache):
            return False
    return True


def holds_at(p, L, g, call, want):
    P = Present(p, g, L)
    found = []

    def walk(e, st, P=P, orig=P.walk):
        if e is call and P.final:
            r, a, k = want
            found.append(any(x[0] == r and (x[2] == "*" and x[1][0] == a[0] or x[1][:len(a)] == a and x[2] == k) for x in st if a))
        return orig(e, st)
    P.walk = walk
    P.run()
    return bool(found) and all(found)


def callers(p, f):
    idx = getattr(p, "_callers", None)
    if idx is None:
        idx = {}
        for g in p.all_functions():
            for c in p.calls_in(g):
                for h in p.callees(g, c):
                    idx.setdefault(h, []).append((g, c))
        p._callers = idx
    return idx.get(f, [])


def check(p, rep, tier):
    rep.rule("R1-missing-not-used", "a value, key or position that may be missing on a path is not used on that path", 300)
    rep.rule("R2-handlers-cover", "the handlers of a try statement cover every exception its body is seen to raise", 15)
    rep.rule("R3-lookup-guarded", "a look-up that fails for an absent key is preceded on every path by a test for that key, or handled", 20)
    rep.rule("R4-optional-attribute", "an attribute that documents may leave out is read with a default, after a test, or under a handler", 60)
    rep.rule("R5-no-fact-truth", "an object whose truth value may raise is not used as a condition", 300)
    rep.rule("R6-elements-only", "documents are parsed without comments and processing instructions, so that every child is an element", 1)
    fs = [f for f in p.all_functions() if in_scope(f)]
    if len(fs) < 250:
        raise AnalysisError("too few functions in scope")
    L = lookup_methods(p)
    if len(L) < 6:
        raise AnalysisError("the look-up methods of the repositories were not recognised")
    R = Raising(p)
    bad_bool = [c for c in p.classes.values() if "__bool__" in c.methods and R.of(c.methods["__bool__"])]
    bad_names = set()
    for c in bad_bool:
        bad_names |= {c.fullname} | {s.fullname for s in c.all_subclasses()}
    for f in fs:
        rep.saw("functions analysed", f.fullname)
        # R1
        seen = set()
        N = Null(p, f)
        for r, n, t in N.run():
            if t in seen:
                continue
            if r == "short" and not f.module.name.startswith(("brel.parsers", "brel.services")):
                continue
            if all(covering_try(p, n, x, f.node) for x in EXC[r]):
                continue
            seen.add(t)
            rep.ob("R1-missing-not-used", f.qualname, False, f"{f.qualname}: {t}", f.loc(n), key=f"R1:{f.qualname}:{t}")
        if not seen:
            rep.ob("R1-missing-not-used", f.qualname)
        rep.stats["uses_checked"] = rep.stats.get("uses_checked", 0) + N.stats["uses"]
        # R2
        for n in p.own_nodes(f):
            if not isinstance(n, ast.Try) or not n.handlers:
                continue
            inner = R.stmts(f, n.body)
            un = sorted(k for k in inner if k != "*reraise" and not any(catches(h, k) for h in n.handlers) and not covering_try(p, n, k, f.node))
            rep.ob("R2-handlers-cover", f"{f.qualname}: {sorted(inner)}", not un,
                   f"{f.qualname}: {un} raised in the body is not caught" + (f" ({ast.unparse(inner[un[0]])[:70]})" if un else ""), f.loc(n), key=f"R2:{f.qualname}:{','.join(un)}")
        # R3
        if f not in L:
            for node, fact, ok, hits in Present(p, f, L).run():
                exc = "ValueError" if hits else "KeyError"
                good = ok or covering_try(p, node, exc, f.node) is not None or (hits and covering_try(p, node, "KeyError", f.node) is not None) or pre_ok(p, L, f, node, fact, 0, {})
                rep.ob("R3-lookup-guarded", f"{f.qualname}: {ast.unparse(node)[:80]}", good,
                       f"{f.qualname}: {ast.unparse(node)[:100]} fails for an absent key, and nothing on the path rules that out", f.loc(node),
                       key=f"R3:{f.qualname}:{fact[0]}[{', '.join(fact[1])}]")
        # R4
        for c in p.calls_in(f):
            for g in p.callees(f, c):
                if g.name != "get_str_attribute" or len(c.args) < 2:
                    continue
                d = c.args[2] if len(c.args) > 2 else next((k.value for k in c.keywords if k.arg == "default"), None)
                nm = attr_name(p, f, c.args[1])
                has_default = d is not None and not (isinstance(d, ast.Constant) and d.value is None)
                good = has_default or nm is None or nm in REQUIRED or covering_try(p, c, "ValueError", f.node) is not None or guarded_attr(p, f, c, nm, L)
                rep.ob("R4-optional-attribute", f"{f.qualname}: {nm}", good, f"{f.qualname}: {ast.unparse(c)[:90]} fails for an element without '{nm}'", f.loc(c), key=f"R4:{f.qualname}:{nm}")
        # R5
        for t in tested(p, f, None):
            cl = p.type_names(f.module, t)
            b = cl & bad_names
            rep.ob("R5-no-fact-truth", f"{f.qualname}: {ast.unparse(t)[:60]}", not b,
                   f"{f.qualname}: the truth value of '{ast.unparse(t)[:60]}' ({', '.join(sorted(b))}) may raise", f.loc(t), key=f"R5:{f.qualname}:{ast.unparse(t)[:60]}")
    element_truth(p, rep)
    told(p, rep)
    # R6
    n = 0
    for f in p.all_functions():
        if not f.module.name.startswith("brel.services"):
            continue    # the catalog is only searched by element name
        for c in p.calls_in(f):
            r = p.resolve_expr(f.module, c.func, f)
            if r is not None and r[0] == "ext" and r[1] in ("lxml.etree.parse", "lxml.etree.fromstring", "lxml.etree.XML", "lxml.etree.iterparse"):
                n += 1
                prs = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == "parser"), None)
                if isinstance(prs, ast.Name):
                    for m in ast.walk(f.module.tree):
                        if isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name) and m.targets[0].id == prs.id:
                            prs = m.value
                ok = isinstance(prs, ast.Call) and all(any(k.arg == w and isinstance(k.value, ast.Constant) and k.value.value is True for k in prs.keywords) for w in ("remove_comments", "remove_pis"))
                rep.ob("R6-elements-only", f"{f.qualname}: {ast.unparse(c)[:60]}", ok, f"{f.qualname}: {ast.unparse(c)[:80]} keeps comments or processing instructions, which have no name or attributes", f.loc(c), key=f"R6:{f.qualname}")
    rep.stats["lookup_methods"] = sorted(g.qualname for g in L)
    rep.assume("attributes required by the XBRL and XLink schemas are present: " + ", ".join(sorted(REQUIRED)))
    rep.assume("the None-ness of results is as annotated; lxml's find and text may be None")


FINDS = {"find", "find_element", "getparent", "getroot", "getnext", "getprevious"}


def element_truth(p, rep):
    """an element without children counts as false"""
    rep.rule("R7-element-truth", "whether an XML element is there is asked with 'is None', not with its truth value, which is false for an element without children", 20)
    for f in p.all_functions():
        if not f.module.name.startswith(("brel.parsers", "brel.services")) and f.name != "_from_xml":
            continue
        made = {}
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        made.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                made.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        made.setdefault(x.id, []).append(None)
        lx = {m for m, k, a, d in f.params if a is not None and ast.unparse(a).replace("lxml.etree.", "").replace("etree.", "").replace("Optional[", "").strip("]' \"")
              .replace(" | None", "") in ("_Element",)}

        def is_element(e, depth=0):
            if isinstance(e, ast.NamedExpr):
                return is_element(e.value, depth)
            if isinstance(e, ast.Name):
                if e.id in made:
                    vs = made[e.id]
                    good = [v for v in vs if v is not None and not (isinstance(v, ast.Constant) and v.value is None)]
                    return depth < 4 and None not in vs and bool(good) and all(is_element(v, depth + 1) for v in good)
                return e.id in lx
            if isinstance(e, ast.Call):
                fn = e.func
                n = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                if n not in FINDS:
                    return False
                if isinstance(fn, ast.Attribute) and n == "find":
                    ts = p.type_names(f.module, fn.value)
                    return not (ts - {"Any", "?", "None"}) or any("lement" in t for t in ts)
                return True
            if isinstance(e, ast.IfExp):
                return is_element(e.body, depth) and is_element(e.orelse, depth)
            return False
        shown = {t.id for t in tested(p, f, None) if isinstance(t, ast.Name)}
        for t in tested(p, f, None):
            if isinstance(t, (ast.Name, ast.Call, ast.NamedExpr)):
                rep.ob("R7-element-truth", f"{f.qualname}: {ast.unparse(t)[:60]}", not is_element(t),
                       f"{f.qualname}: '{ast.unparse(t)[:60]}' is an XML element and counts as false when it has no children", f.loc(t),
                       key=f"R7:{f.qualname}:{ast.unparse(t)[:60]}")


def told(p, rep):
    """whoever reports problems and answers None, reports before answering None"""
    from .c06 import Sinks
    rep.rule("R8-told", "a parsing function that reports a problem and answers None has reported, or was answered None by one that has, wherever it answers None", 8)
    S = Sinks(p)
    memo = {}

    def by_look(c):
        """a call that hands over a kind of problem"""
        return any(isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "ErrorCode" for a in list(c.args) + [k.value for k in c.keywords])

    def reports(g, busy=()):
        if g in S.report or any(by_look(c) for c in p.calls_in(g)):
            return True
        if g not in memo:
            memo[g] = None
            memo[g] = any(h in S.report or h not in busy and h.module.name.startswith("brel.parsers") and reports(h, busy + (g,))
                          for c in p.calls_in(g) for h in p.callees(g, c))
        return bool(memo[g])

    def tells(f, e):
        return any(isinstance(c, ast.Call) and (by_look(c) or any(reports(g) for g in p.callees(f, c))) for c in ast.walk(e))

    for f in p.all_functions():
        if not f.module.name.startswith("brel.parsers") or f.is_abstract:
            continue
        r = f.node.returns
        if r is None or not ("None" in ast.unparse(r) or "Optional" in ast.unparse(r)) or ast.unparse(r) == "None":
            continue
        if not any(g in S.report for c in p.calls_in(f) for g in p.callees(f, c)):
            continue
        asked = {}
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            asked.setdefault(x.id, []).append(n.value)
        told_names = {x for x, vs in asked.items() if any(tells(f, v) for v in vs)}
        hits = []

        def block(stmts, told_before):
            told_here, told_tests = told_before, set()
            for s in stmts:
                if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
                    hits.append((s, told_here))
                elif isinstance(s, ast.If):
                    mark = told_here or ast.unparse(s.test) in told_tests or tells(f, s.test) or any(isinstance(x, ast.Name) and x.id in told_names for x in ast.walk(s.test))
                    if block(s.body, mark):
                        told_tests.add(ast.unparse(s.test))
                    block(s.orelse, mark)
                elif isinstance(s, (ast.For, ast.While)):
                    block(s.body, told_here or isinstance(s, ast.While) and tells(f, s.test))
                    block(s.orelse, told_here)
                elif isinstance(s, ast.With):
                    block(s.body, told_here)
                elif isinstance(s, ast.Try):
                    block(s.body, told_here)
                    for h in s.handlers:
                        block(h.body, told_here)
                    block(s.orelse, told_here)
                    block(s.finalbody, told_here)
                elif isinstance(s, ast.Match):
                    for k in s.cases:
                        block(k.body, told_here)
                elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    # a plain statement that reports: what follows in this block has been told
                    if isinstance(s, ast.Expr) and tells(f, s):
                        told_here = True
            return told_here
        block(f.node.body, False)
        # after if/else the end of the function may be reached either way: judge the last answer only if nothing reports before it
        for s, ok in hits:
            if not ok and s in f.node.body and any(isinstance(x, ast.If) and (tells(f, x)) for x in f.node.body[:f.node.body.index(s)]):
                ok = True
            rep.ob("R8-told", f"{f.qualname}: line {s.lineno - f.node.lineno}", ok, f"{f.qualname}: answers None where nothing was reported", f.loc(s), key=f"R8:{f.qualname}")
        if hits:
            rep.saw("functions that report and answer None", f.qualname)


def guarded_attr(p, f, c, nm, L):
    """a has-test of the same attribute on the same element before the read, or an attribute selected on in a query"""
    P = Present(p, f, L)
    el, at = P.canon(c.args[0]), P.canon(c.args[1])
    found = []

    def walk(e, st, P=P, orig=P.walk):
        if e is c and P.final:
            found.append(any(x[0] == "" and x[1][:2] == (el, at) for x in st))
        return orig(e, st)
    P.walk = walk
    P.run()
    if found and all(found):
        return True
    # //*[@name] in the query the element came from
    src = c.args[0]
    for n in p.own_nodes(f):
        tgt = it = None
        if isinstance(n, (ast.For, ast.comprehension)):
            tgt, it = n.target, n.iter
        if isinstance(tgt, ast.Name) and isinstance(src, ast.Name) and tgt.id == src.id:
            v = P.single.get(it.id) if isinstance(it, ast.Name) else it
            if v is not None and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and f"@{nm}" in x.value for x in ast.walk(v)):
                return True
    return False
