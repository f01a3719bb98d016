"""C28: checks of a calculation network look at every relationship below every
root, and one violating relationship makes the network inconsistent."""
from __future__ import annotations
import ast
import itertools
from ..cfg import cfg_of, node_exprs
from ..project import AnalysisError
from ..vf import Interp, alts, vals, show

SOURCES = {"get_roots": "roots", "get_children": "children", "get_all_nodes": "all", "get_all_descendants": "all"}
WRAPS = {"list", "tuple", "sorted", "reversed", "iter", "enumerate", "cast", "set"}


def check(p, rep, tier):
    rep.rule("R1-every-root", "a check visits every root before it answers that the network is consistent", 2)
    rep.rule("R2-every-child", "a visited node's children are all visited, whatever was found at the node", 2)
    rep.rule("R3-decides", "a visit that finds a violation makes the whole check fail", 2)
    rep.rule("R4-balance", "a relationship between opposite balances with a positive weight, or equal ones with a negative weight, is a violation; the others are not", 1)
    rep.rule("R5-component", "a component's answer is that of its calculation network", 0)
    c = p.cls("CalculationNetwork")
    checks = [m for n, m in c.methods.items() if not n.startswith("_") and n.endswith("_consistent")]
    if len(checks) < 2:
        raise AnalysisError("the checks of CalculationNetwork were not found")
    for m in checks:
        Check(p, rep, m).run()
    component(p, rep)
    rep.assume("a helper a check calls on a node is recognised by its iterating over that node's children")


class Check:
    def __init__(self, p, rep, m):
        self.p, self.rep, self.m = p, rep, m
        self.fs = self.closure(m)
        self.visitors = {}
        for f in self.fs:
            for prm in [n for n, k, a, d in f.params if n not in ("self", "cls")]:
                for n in p.own_nodes(f):
                    it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
                    if it is not None:
                        k = self.source(f, it)
                        if k is not None and k[0] == "children" and self.alias(f, k[1]) == prm:
                            self.visitors[f] = prm

    def closure(self, m):
        out, todo = [], [m]
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.append(f)
            todo.extend(f.nested.values())
            for k in self.p.calls_in(f):
                for g in self.p.callees(f, k):
                    if g.cls is m.cls or g.parent is not None and g.parent in out or g.module is m.module:
                        todo.append(g)
        return [f for f in out if f is m or f.cls is None or f.cls is m.cls]

    # -- recognising ---------------------------------------------------------
    def alias(self, f, e, depth=0):
        """the name an expression is another name of"""
        if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "cast" and len(e.args) == 2:
            return self.alias(f, e.args[1], depth)
        if isinstance(e, ast.NamedExpr):
            return self.alias(f, e.value, depth)
        if not isinstance(e, ast.Name) or depth > 5:
            return None
        vs = []
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                vs.append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                vs.append(n.value)
        same = [v for v in vs if self.names(v) == e.id]
        if vs and len(same) == len(vs):
            return e.id            # x = cast(T, x)
        if len(vs) == 1:
            return self.alias(f, vs[0], depth + 1) or e.id
        return e.id

    def names(self, v):
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "cast" and len(v.args) == 2:
            return self.names(v.args[1])
        return v.id if isinstance(v, ast.Name) else None

    def source(self, f, e, depth=0):
        """(roots|children|all, receiver, whole?) of an iterated expression"""
        if depth > 6:
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in SOURCES:
                return SOURCES[e.func.attr], e.func.value, True
            fn = ast.unparse(e.func).split(".")[-1]
            if fn in WRAPS and e.args:
                return self.source(f, e.args[1] if fn == "cast" and len(e.args) > 1 else e.args[0], depth + 1)
            if fn in ("filter", "islice", "takewhile", "dropwhile") and e.args:
                k = self.source(f, e.args[1] if fn != "islice" and len(e.args) > 1 else e.args[0], depth + 1)
                return None if k is None else (k[0], k[1], False)
            if fn == "map" and len(e.args) == 2:
                return self.source(f, e.args[1], depth + 1)
            return None
        if isinstance(e, ast.Subscript):
            k = self.source(f, e.value, depth + 1)
            return None if k is None else (k[0], k[1], False)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1:
            k = self.source(f, e.generators[0].iter, depth + 1)
            return None if k is None else (k[0], k[1], k[2] and not e.generators[0].ifs)
        if isinstance(e, ast.Name):
            vs = [n.value for n in self.p.own_nodes(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                  and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
            if len(vs) == 1:
                return self.source(f, vs[0], depth + 1)
        return None

    def visits(self, f, node, var):
        """calls in the expressions of node that visit var"""
        out = []
        for e in node_exprs(node) if not isinstance(node, ast.AST) else [node]:
            for c in ast.walk(e):
                if isinstance(c, ast.Call) and any(g in self.visitors for g in self.p.callees(f, c)):
                    if any(self.alias(f, a) == var for a in list(c.args) + [k.value for k in c.keywords]):
                        out.append(c)
                    elif isinstance(c.func, ast.Attribute) and self.alias(f, c.func.value) == var:
                        out.append(c)
        return out

    def full_all(self, f, e):
        """all(visit(x) for x in children) in e -> (kind, receiver, whole)"""
        for c in ast.walk(e):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("all", "any") and len(c.args) == 1 and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = c.args[0].generators[0]
                k = self.source(f, g.iter)
                if k is not None and isinstance(g.target, ast.Name) and self.visits(f, c.args[0].elt, g.target.id):
                    neg = isinstance(c.args[0].elt, ast.UnaryOp) and isinstance(c.args[0].elt.op, ast.Not)
                    yield c, k, bool(g.ifs), (c.func.id == "all") != neg
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "all" and len(c.args) == 1 and isinstance(c.args[0], ast.Call) \
                    and ast.unparse(c.args[0].func) == "map" and len(c.args[0].args) == 2:
                k = self.source(f, c.args[0].args[1])
                r = self.p.resolve_expr(f.module, c.args[0].args[0], f)
                if k is not None and r is not None and r[0] == "func" and r[1] in self.visitors:
                    yield c, k, False, True

    # -- the check -----------------------------------------------------------
    def run(self):
        m = self.m
        for f in self.fs:
            if f is m or f in self.visitors:
                self.function(f)
        for f in self.fs:
            if any(isinstance(c.func, ast.Attribute) and c.func.attr == "get_balance_type" for c in self.p.calls_in(f)):
                self.balance(f)

    def loops(self, f):
        """(For, kind, receiver, whole)"""
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.For) and isinstance(n.target, (ast.Name, ast.Tuple)):
                k = self.source(f, n.iter)
                if k is not None:
                    t = n.target
                    if isinstance(t, ast.Tuple):
                        t = t.elts[-1]
                    if isinstance(t, ast.Name):
                        yield n, k, t.id

    def function(self, f):
        g = cfg_of(f)
        want = {"roots": "R1-every-root", "children": "R2-every-child"}
        rule = "R1-every-root" if f is self.m and f not in self.visitors else "R2-every-child"
        what = "root" if rule == "R1-every-root" else "child"
        full, found = [], False
        label = f"{self.m.cls.name}.{self.m.name}" + (f" ({f.name})" if f is not self.m else "")
        for loop, k, var in self.loops(f):
            head = g.loop_nodes.get(id(loop))
            if head is None:
                continue
            visiting = [n for n in g.nodes if id(loop) in n.loops and self.visits(f, n, var)]
            if k[0] == "all":
                found = True
                full.append(head)
                self.leaving(f, g, loop, head, label)
                continue
            if not visiting:
                acc = [n for n in g.nodes if id(loop) in n.loops and n.kind == "stmt" and isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.target, ast.Name)]
                if acc:
                    self.rep.ob("R2-every-child", f"{label}: {ast.unparse(acc[0].ast)[:50]}", k[2] and not self.skip(g, head, acc),
                                f"{label}: a {'root' if k[0] == 'roots' else 'child'} can be left out of {ast.unparse(acc[0].ast)[:60]}", f.loc(loop), key=f"R2:{self.m.name}:{f.name}:sum")
                continue
            found = True
            skipping = self.skip(g, head, visiting)
            ok = k[2] and not skipping
            rep_msg = f"{label}: only part of the {what}ren" if what == "child" else f"{label}: only part of the roots"
            self.rep.ob(rule, f"{label}: {ast.unparse(loop.iter)[:60]}", ok,
                        f"{label}: a {what} can be passed over without being visited (loop over {ast.unparse(loop.iter)[:60]})", f.loc(loop), key=f"{rule}:{self.m.name}:{f.name}:skip")
            if ok:
                full.append(head)
            for n in visiting:
                self.result(f, g, n, var, head, label)
            self.leaving(f, g, loop, head, label)
        for n in g.nodes:
            for e in node_exprs(n):
                for c, k, ifs, conj in self.full_all(f, e):
                    found = True
                    self.rep.ob(rule, f"{label}: all", k[2] and not ifs, f"{label}: only some of the nodes are visited ({ast.unparse(c)[:80]})", f.loc(c), key=f"{rule}:{self.m.name}:{f.name}:all")
                    self.rep.ob("R3-decides", f"{label}: all", conj, f"{label}: it is enough that one visit succeeds ({ast.unparse(c)[:80]})", f.loc(c), key=f"R3:{self.m.name}:{f.name}:all")
                    full.append(n)
        for c in self.p.calls_in(f):
            if any(h in self.visitors for h in self.p.callees(f, c)):
                for a in list(c.args) + [k.value for k in c.keywords]:
                    while isinstance(a, ast.Call) and ast.unparse(a.func).split(".")[-1] == "cast" and len(a.args) == 2:
                        a = a.args[1]
                    if isinstance(a, ast.Name):
                        vs = [n.value for n in self.p.own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
                        a = vs[0] if len(vs) == 1 else a
                    if isinstance(a, ast.Subscript) and not isinstance(a.slice, (ast.Slice, ast.Name)) and self.source(f, a.value) is not None or isinstance(a, ast.Call) and ast.unparse(a.func) == "next":
                        found = True
                        self.rep.ob(rule, f"{label}: {ast.unparse(a)[:50]}", False, f"{label}: only {ast.unparse(a)[:50]} is visited", f.loc(c), key=f"{rule}:{self.m.name}:{f.name}:one")
        if not found:
            if f is self.m and not self.visitors:
                self.rep.stats.setdefault("not_understood", []).append(label)
                self.rep.ob(rule, label + ": form not recognised")
            elif f is self.m and f not in self.visitors or f in self.visitors and not any(True for _ in self.loops(f)):
                self.rep.ob(rule, label, True)
            elif f in self.visitors and self.recursive(f):
                self.rep.ob(rule, label, True)
            elif f in self.visitors:
                self.rep.ob(rule, label, False, f"{label}: the children of a node are looked at, but not what is below them", f.loc(), key=f"{rule}:{self.m.name}:{f.name}:below")
            return
        bad = self.avoids(f, g, full)
        self.rep.ob(rule, f"{label}: reached", bad is None,
                    f"{label}: consistency is reported (line {bad.lineno if bad is not None else 0}) without having visited the {'roots' if what == 'root' else 'children'}: the visit depends on something else", f.loc(),
                    key=f"{rule}:{self.m.name}:{f.name}:reached")

    def recursive(self, f):
        return any(g in self.visitors for c in self.p.calls_in(f) for g in self.p.callees(f, c))

    def skip(self, g, head, visiting):
        ids = {id(n) for n in visiting}
        todo = [m for m, l in head.succ if l == "body"]
        seen = set()
        while todo:
            n = todo.pop()
            if id(n) in seen or id(n) in ids:
                continue
            seen.add(id(n))
            if n is head:
                return True
            todo.extend(m for m, l in n.succ if l != "exc" and m.kind not in ("exit",))
        return False

    def result(self, f, g, n, var, head, label):
        """what happens when the visit answers False"""
        key = f"R3:{self.m.name}:{f.name}"
        calls = self.visits(f, n, var)
        if n.kind == "cond":
            a = n.ast
            if not any(a is c for c in calls):
                return
            ok = self.fails(g, [m for m, l in n.succ if l is False], head)
            self.rep.ob("R3-decides", f"{label}: {ast.unparse(a)[:60]}", ok, f"{label}: after {ast.unparse(a)[:60]} has found a violation the check can still succeed", f.loc(a), key=key)
            ok = not self.fails(g, [m for m, l in n.succ if l is True], head, strict=True)
            self.rep.ob("R3-decides", f"{label}: success of {ast.unparse(a)[:60]}", ok, f"{label}: the check fails although {ast.unparse(a)[:60]} found no violation", f.loc(a), key=key + ":success")
            return
        s = n.ast
        if isinstance(s, ast.Expr) and any(s.value is c for c in calls):
            self.rep.ob("R3-decides", f"{label}: result", False, f"{label}: the result of {ast.unparse(s.value)[:60]} is ignored", f.loc(s), key=key)
        elif isinstance(s, ast.Return) and id(head.ast) in n.loops and any(s.value is c for c in calls):
            self.rep.ob("R3-decides", f"{label}: result", False, f"{label}: the answer for the first one visited is returned for all ({ast.unparse(s)[:60]})", f.loc(s), key=key)
        elif isinstance(s, ast.Assign) and any(s.value is c for c in calls) and isinstance(s.targets[0], ast.Name):
            # x = visit(y): overwritten by the next one unless tested
            t = s.targets[0].id
            tests = [m for m in g.nodes if m.kind == "cond" and isinstance(m.ast, ast.Name) and m.ast.id == t and id(head.ast) in m.loops]
            used = [m for m in g.nodes if id(head.ast) in m.loops and m is not n and any(isinstance(x, ast.Name) and x.id == t for e in node_exprs(m) for x in ast.walk(e))]
            if tests:
                ok = all(self.fails(g, [m for m, l in c.succ if l is False], head) for c in tests)
                self.rep.ob("R3-decides", f"{label}: {t}", ok, f"{label}: after a violation has been found ({t} is false) the check can still succeed", f.loc(s), key=key)
            elif not used:
                self.rep.ob("R3-decides", f"{label}: {t}", False, f"{label}: the result of a visit ({t}) is overwritten by that of the next", f.loc(s), key=key)
            else:
                self.rep.ob("R3-decides", f"{label}: {t}", True)
        else:
            ors = any(isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or) and any(c in list(ast.walk(v)) for v in x.values for c in calls) for x in ast.walk(s))
            ors = ors or isinstance(s, ast.AugAssign) and isinstance(s.op, ast.BitOr) and not any(isinstance(x, ast.UnaryOp) for x in ast.walk(s.value))
            self.rep.ob("R3-decides", f"{label}: combined", not ors, f"{label}: it is enough that one visit succeeds ({ast.unparse(s)[:70]})", f.loc(s), key=key)

    def fails(self, g, starts, head, strict=False):
        """does every path end the function with False (or an exception)?"""
        todo, seen = list(starts), set()
        any_fail = False
        while todo:
            n = todo.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            if n.kind == "return":
                v = n.ast.value
                if isinstance(v, ast.Constant) and v.value is False:
                    any_fail = True
                    continue
                if isinstance(v, ast.Name) and not strict:
                    any_fail = True
                    continue
                return False
            if n.kind == "raisestmt" or n is g.raises:
                any_fail = any_fail or not strict
                continue
            if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant) and n.ast.value.value is False and not strict:
                any_fail = True
                continue
            if n is head or n is g.exit:
                return False
            todo.extend(m for m, l in n.succ if l != "exc")
        return any_fail

    def leaving(self, f, g, loop, head, label):
        """ways to leave the loop early with a good answer"""
        for n in g.nodes:
            if id(loop) in n.loops and n.kind == "return" and isinstance(n.ast.value, ast.Constant) and n.ast.value.value is True:
                self.rep.ob("R3-decides", f"{label}: early", False, f"{label}: the check succeeds before all have been looked at", f.loc(n.ast), key=f"R3:{self.m.name}:{f.name}:early")
        for b in breaks(loop):
            prev = before(loop, b)
            ok = any(isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value in (False, True) for s in prev)
            self.rep.ob("R3-decides", f"{label}: break", ok, f"{label}: the loop over {ast.unparse(loop.iter)[:50]} ends before all have been looked at", f.loc(b), key=f"R3:{self.m.name}:{f.name}:break")

    def avoids(self, f, g, full):
        ids = {id(n) for n in full}
        todo, seen = [g.entry], set()
        while todo:
            n = todo.pop()
            if id(n) in seen or id(n) in ids:
                continue
            seen.add(id(n))
            if n.kind == "return":
                v = n.ast.value
                if isinstance(v, ast.Constant) and v.value is False:
                    continue
                return n
            if n is g.exit:
                return n
            for m, l in n.succ:
                if l == "exc":
                    continue
                if n.kind == "cond" and self.childless(f, n.ast, l):
                    continue
                todo.append(m)
        return None

    def childless(self, f, e, label):
        """does this outcome mean that there is nothing to visit?"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "is_leaf":
            return label is True
        if self.source(f, e) is not None:
            return label is False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and ast.unparse(e.left.func) == "len" and self.source(f, e.left.args[0]) is not None:
            k = e.comparators[0]
            if isinstance(k, ast.Constant) and k.value == 0:
                return label is isinstance(e.ops[0], (ast.Eq, ast.LtE))
        return False

    # -- the balance table -----------------------------------------------------
    def balance(self, f):
        g = cfg_of(f)
        for loop, k, var in self.loops(f):
            if k[0] != "children":
                continue
            head = g.loop_nodes.get(id(loop))
            par = self.alias(f, k[1])
            B = {}
            for n in self.p.own_nodes(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            B.setdefault(t.id, []).append(n.value)
            ok_all, seen_atom = True, False
            label = f"{self.m.cls.name}.{self.m.name}"
            for P, C, W in itertools.product(("debit", "credit"), ("debit", "credit"), (-1, 1)):
                ev = Eval(self, f, B, par, var, P, C, W)
                outs = ev.outcomes(g, head)
                seen_atom = seen_atom or ev.atoms
                if not ev.atoms:
                    continue
                bad = (P == C) != (W > 0)
                txt = f"{P} parent, {C} child, {'positive' if W > 0 else 'negative'} weight"
                if bad:
                    ok = "F" in outs and (outs == {"F"} or ev.unknown)
                    self.rep.ob("R4-balance", txt, ok, f"{label}: a relationship with {txt} is not found to be a violation", f.loc(loop), key=f"R4:{txt}")
                else:
                    ok = "N" in outs
                    self.rep.ob("R4-balance", txt, ok, f"{label}: a relationship with {txt} is taken for a violation", f.loc(loop), key=f"R4:{txt}")
            if not seen_atom:
                self.rep.ob("R4-balance", "form not recognised")


class Eval:
    """outcomes of one pass of the loop body for given balances and weight: F = fails, N = goes on"""

    def __init__(self, ck, f, B, par, var, P, C, W):
        self.ck, self.f, self.B, self.par, self.var, self.P, self.C, self.W = ck, f, B, par, var, P, C, W
        self.atoms = self.unknown = False

    def value(self, e, depth=0):
        if depth > 6:
            return None
        if isinstance(e, ast.Constant):
            return ("k", e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return ("k", -e.operand.value)
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, depth + 1)
        if isinstance(e, ast.Name):
            vs = self.B.get(e.id, [])
            return self.value(vs[0], depth + 1) if len(vs) == 1 else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get_balance_type":
            o = e.func.value
            if isinstance(o, ast.Name):
                vs = self.B.get(o.id, [])
                o = vs[0] if len(vs) == 1 else o
            if isinstance(o, ast.Call) and isinstance(o.func, ast.Attribute):
                who = self.ck.alias(self.f, o.func.value)
                return ("k", self.C) if who == self.var else ("k", self.P) if who == self.par else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get_weight":
            return ("k", self.W) if self.ck.alias(self.f, e.func.value) == self.var else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.value(e.left, depth + 1), self.value(e.comparators[0], depth + 1)
            if a is None or b is None:
                return None
            a, b = a[1], b[1]
            try:
                r = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b,
                     ast.GtE: lambda: a >= b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}[type(e.ops[0])]()
            except (KeyError, TypeError):
                return None
            return ("k", r)
        if isinstance(e, ast.BoolOp):
            vs = [self.value(v, depth + 1) for v in e.values]
            if any(v is None for v in vs):
                return None
            return ("k", all(v[1] for v in vs) if isinstance(e.op, ast.And) else any(v[1] for v in vs))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand, depth + 1)
            return None if v is None else ("k", not v[1])
        if isinstance(e, ast.IfExp):
            t = self.value(e.test, depth + 1)
            return None if t is None else self.value(e.body if t[1] else e.orelse, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            a, b = self.value(e.left, depth + 1), self.value(e.right, depth + 1)
            return None if a is None or b is None or not all(isinstance(x[1], (int, float)) for x in (a, b)) else ("k", a[1] * b[1])
        return None

    def outcomes(self, g, head):
        out, todo, seen = set(), [m for m, l in head.succ if l == "body"], set()
        while todo:
            n = todo.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            if n is head:
                out.add("N")
                continue
            if n.kind == "return":
                v = n.ast.value
                out.add("F" if isinstance(v, ast.Constant) and v.value is False else "?")
                continue
            if n.kind == "raisestmt" or n is g.raises or n is g.exit:
                continue
            if n.kind == "cond":
                if self.ck.visits(self.f, n, self.var):
                    todo.extend(m for m, l in n.succ if l is True)
                    continue
                v = self.value(n.ast)
                if v is not None:
                    if any(isinstance(x, ast.Compare) and not isinstance(x.ops[0], (ast.Is, ast.IsNot)) for x in ast.walk(n.ast)) or isinstance(n.ast, ast.Name):
                        self.atoms = True
                    todo.extend(m for m, l in n.succ if l is bool(v[1]))
                    continue
                self.unknown = True
            elif n.kind == "stmt" and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant) and n.ast.value.value is False:
                out.add("F")
            elif n.kind in ("for", "loop"):
                self.unknown = True
            todo.extend(m for m, l in n.succ if l != "exc")
        return out


def breaks(loop):
    todo = list(loop.body)
    while todo:
        s = todo.pop()
        if isinstance(s, ast.Break):
            yield s
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            todo.extend(s.orelse if not isinstance(s, ast.FunctionDef) else [])
            continue
        todo.extend(c for c in ast.iter_child_nodes(s) if isinstance(c, (ast.stmt, ast.excepthandler)))


def before(loop, b):
    for n in ast.walk(loop):
        for fld in ("body", "orelse", "finalbody"):
            l = getattr(n, fld, None)
            if isinstance(l, list) and b in l:
                return l[:l.index(b)]
    return []


def component(p, rep):
    c = p.cls("Component")
    m = c.methods.get("is_aggregation_consistent")
    if m is None:
        return
    I = Interp(p, opaque={"is_aggregation_consistent"})
    v, st = I.run(m)
    for g, x in alts(v):
        if x.kind == "k":
            ok = x.args[0] is True and any("network" in show(t) for t, b in g)
            rep.ob("R5-component", show(x), ok, f"Component.{m.name} answers {show(x)} without asking its calculation network", m.loc(), key="R5:const")
        elif x.kind == "call" and str(x.args[0]).split(".")[-1] == "is_aggregation_consistent":
            rep.ob("R5-component", "asks the network", "calculation" in show(x.args[1]), f"Component.{m.name} asks {show(x.args[1])}", m.loc(), key="R5:asks")
        else:
            rep.ob("R5-component", show(x)[:60], True)
