"""C05: no parsed item is built from an unset value or another item's leftovers."""
import ast
from ..cfg import cfg_of, uses, defs, node_exprs
from ..project import AnalysisError, dotted

LAZY = {"filter", "map", "zip", "enumerate", "iter", "reversed", "itertools.chain", "itertools.islice", "itertools.takewhile", "itertools.groupby", "itertools.product",
        "chain", "islice", "takewhile", "dropwhile", "groupby", "chain.from_iterable", "itertools.chain.from_iterable", "itertools.starmap", "itertools.accumulate"}
GROW = {"append", "add", "extend", "update", "insert", "setdefault", "appendleft"}
EAGER = {"list", "tuple", "set", "dict", "sorted", "sum", "any", "all", "min", "max", "next", "len", "frozenset", "join", "str"}


def captured(e):
    """variables an expression reads only when it is consumed"""
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Lambda):
            a = {y.arg for y in x.args.args + x.args.kwonlyargs}
            out |= {y.id for y in ast.walk(x.body) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)} - a
        elif isinstance(x, ast.GeneratorExp):
            b = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            for part in [x.elt] + [c for g in x.generators for c in g.ifs] + [g.iter for g in x.generators[1:]]:
                out |= {y.id for y in ast.walk(part) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)} - b
    return out


def is_lazy(e):
    if isinstance(e, (ast.GeneratorExp, ast.Lambda)):
        return True
    return isinstance(e, ast.Call) and (dotted(e.func) or "") in LAZY


def reach(start, stop):
    """nodes reachable from the successors of start; stop(n) ends a path after n"""
    seen, todo = set(), [s for s, _ in start.succ]
    while todo:
        n = todo.pop()
        if n.idx in seen:
            continue
        seen.add(n.idx)
        yield n
        if not stop(n):
            todo += [s for s, _ in n.succ]


def flag_correlated(p, f, c, use, v):
    """every assignment of v sits in a block that also assigns a name whose truth guards the use"""
    guards = set()
    # names tested by conditions all paths to the use pass through on one side
    for n in c.nodes:
        if n.kind == "cond":
            t = {x.id for x in ast.walk(n.ast) if isinstance(x, ast.Name)}
            for lab in (True, False):
                # remove this edge: is the use still reachable from entry?
                if t and not reachable_without(c, n, lab, use):
                    guards |= t
    guards.discard(v)
    if not guards:
        return False
    for s in p.own_nodes(f):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
            par = p.parents.get(id(s))
            sib = []
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(par, fld, None)
                if isinstance(b, list) and s in b:
                    sib = b
            got = {x.id for y in sib if isinstance(y, (ast.Assign, ast.AnnAssign)) for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if not got & guards:
                return False
    return True


def reachable_without(c, n, lab, use):
    seen, todo = set(), [c.entry]
    while todo:
        m = todo.pop()
        if m.idx in seen:
            continue
        seen.add(m.idx)
        if m is use:
            return True
        for s, l in m.succ:
            if m is n and l == lab:
                continue
            todo.append(s)
    return False


def definite(p, f, rep):
    c = cfg_of(f)
    params = {n for n, k, a, d in f.params}
    local = set()
    for n in c.nodes:
        local |= defs(n)
    decl = set()
    for x in p.own_nodes(f):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            decl |= set(x.names)
    local -= params | decl
    # forward may-be-unset
    unset = {c.entry.idx: frozenset(local)}
    todo = [c.entry]
    while todo:
        n = todo.pop()
        cur = unset[n.idx]
        d = defs(n)
        if isinstance(n.ast, ast.Delete):
            after = cur | d
        else:
            after = cur - d
        if n.kind == "for":
            pass
        for s, lab in n.succ:
            o = after
            if lab == "exc":
                o = cur
            if n.kind == "for" and lab == "exit":
                o = cur
            if isinstance(n.ast, ast.AnnAssign) and n.ast.value is None:
                o = cur
            old = unset.get(s.idx)
            new = o if old is None else old | o
            if new != old:
                unset[s.idx] = new
                todo.append(s)
    bad = {}
    nuse = 0
    for n in c.nodes:
        u = unset.get(n.idx)
        if u is None:
            continue
        inner = n.kind == "def"
        for x in uses(n):
            if x.id in local:
                nuse += 1
                if x.id in u and x.id not in bad and not inner:
                    if not flag_correlated(p, f, c, n, x.id):
                        bad[x.id] = x
    rep.ob("R1-set-before-use", f.qualname, not bad,
           f"{f.qualname}: on some path {sorted(bad)} is used before it is set", f.loc(next(iter(bad.values()))) if bad else f.loc(),
           key=f"R1:{f.qualname}:{','.join(sorted(bad))}")
    return nuse


def leftovers(p, f, rep):
    c = cfg_of(f)
    out = 0
    for l in [n for n in p.own_nodes(f) if isinstance(n, (ast.For, ast.AsyncFor))]:
        head = c.loop_nodes.get(id(l))
        if head is None:
            continue
        body = [n for n in c.nodes if id(l) in n.loops]
        inside = {n.idx for n in body}
        tgt = defs(head)
        names = set()
        for n in body:
            names |= defs(n)
        # names read after the loop (value collected by the loop)
        live = set()
        for v in names:
            seen, todo = set(), []
            for n in body + [head]:
                for s, lab in n.succ:
                    if s.idx not in inside and s is not head:
                        todo.append(s)
            while todo and v not in live:
                n = todo.pop()
                if n.idx in seen or n.idx in inside or n is head:
                    continue
                seen.add(n.idx)
                if any(u.id == v for u in uses(n)):
                    live.add(v)
                    break
                if v in defs(n):
                    continue
                todo += [s for s, _ in n.succ]
        bad = None
        for v in sorted(names - tgt):
            if v in live:
                continue
            vd = [n for n in body if v in defs(n)]
            # accumulators, flags, counters: every definition is a constant or depends on v itself
            if all(const_def(n, v) or self_dep(p, n, v) or isinstance(n.ast, ast.AugAssign) for n in vd):
                continue
            for D in vd:
                if const_def(D, v) or self_dep(p, D, v) or isinstance(D.ast, ast.AugAssign):
                    continue
                hit = carried(D, v, head, inside)
                if hit:
                    bad = (v, D, hit)
                    break
            if bad:
                break
        out += 1
        rep.ob("R2-no-leftover", f"{f.qualname}: loop over {ast.unparse(l.target)}", bad is None,
               f"{f.qualname}: '{bad[0]}' computed for one item is still used for a later item" if bad else "", f.loc(bad[2]) if bad else f.loc(l),
               key=f"R2:{f.qualname}:{bad[0] if bad else ''}")
    return out


def const_def(n, v):
    a = n.ast
    val = getattr(a, "value", None) if isinstance(a, (ast.Assign, ast.AnnAssign)) else None
    if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Tuple) and isinstance(val, ast.Tuple):
        return all(isinstance(x, ast.Constant) for x in val.elts)
    return isinstance(val, ast.Constant)


def self_dep(p, n, v):
    a = n.ast
    if isinstance(a, (ast.Assign, ast.AnnAssign)) and getattr(a, "value", None) is not None:
        if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(a.value)):
            return True
    # guarded by a test of v itself
    x = p.parents.get(id(a))
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.For, ast.While)):
        if isinstance(x, ast.If) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.test)):
            return True
        x = p.parents.get(id(x))
    return False


def carried(D, v, head, inside):
    seen = set()
    todo = [(s, False) for s, lab in D.succ if lab != "exc"]
    while todo:
        n, cross = todo.pop()
        if n is head:
            cross = True
        if (n.idx, cross) in seen:
            continue
        seen.add((n.idx, cross))
        if n is not head and n.idx not in inside:
            continue
        if cross and n is not head:
            for u in uses(n):
                if u.id == v:
                    return u
        if v in defs(n) and n is not head:
            continue
        todo += [(s, cross) for s, _ in n.succ]
    return None


def lazies(p, f, rep):
    c = cfg_of(f)
    count = 0
    for n in c.nodes:
        if n.kind != "stmt" or not isinstance(n.ast, (ast.Assign, ast.AnnAssign)) or n.ast.value is None or not is_lazy(n.ast.value):
            continue
        w = n.ast.targets[0] if isinstance(n.ast, ast.Assign) else n.ast.target
        if not isinstance(w, ast.Name):
            continue
        cap = captured(n.ast.value) - {w.id}
        # the sequence it draws from may be lazy as well
        drawn = {x.id for x in ast.walk(n.ast.value) if isinstance(x, ast.Name)}
        count += 1
        bad = None
        for v in sorted(cap):
            # a redefinition of v reachable before w is redefined from something else
            for r in reach(n, lambda m: False):
                if v in defs(r) and r is not n:
                    for u in reach(r, lambda m: w.id in defs(m) and not any(x.id == w.id for x in uses(m))):
                        if any(x.id == w.id for x in uses(u)):
                            # is w still this lazy value there?
                            if still(n, r, u, w.id):
                                bad = (v, u)
                                break
                if bad:
                    break
            if bad:
                break
        rep.ob("R3-late-capture", f"{f.qualname}: {w.id}", bad is None,
               f"{f.qualname}: '{w.id}' is evaluated late, after '{bad[0]}' it depends on has moved on to another item" if bad else "",
               f.loc(n.ast), key=f"R3:{f.qualname}:{w.id}")
    # closures kept in a container while the loop moves on
    for call in p.calls_in(f):
        if isinstance(call.func, ast.Attribute) and call.func.attr in GROW:
            for a in list(call.args):
                if isinstance(a, ast.Lambda) or (isinstance(a, (ast.GeneratorExp,)) and call.func.attr in ("append", "add", "insert", "appendleft")) or \
                        (isinstance(a, ast.Call) and dotted(a.func) in ("filter", "map") and call.func.attr in ("append", "add", "insert", "appendleft")):
                    cap = captured(a)
                    count += 1
                    loopvars = set()
                    x = p.parents.get(id(call))
                    while x is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                        if isinstance(x, (ast.For, ast.While)):
                            loopvars |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                        x = p.parents.get(id(x))
                    rep.ob("R3-late-capture", f"{f.qualname}: closure", not (cap & loopvars),
                           f"{f.qualname}: a stored closure reads {sorted(cap & loopvars)} after the loop has moved on", f.loc(call), key=f"R3:{f.qualname}:closure")
    return count


def still(n, r, u, w):
    """path n -> r -> u on which w is not replaced by an eager value"""
    def free(a, b):
        seen, todo = set(), [s for s, _ in a.succ]
        while todo:
            m = todo.pop()
            if m.idx in seen:
                continue
            seen.add(m.idx)
            if m is b:
                return True
            if w in defs(m) and not lazy_pass(m, w):
                continue
            todo += [s for s, _ in m.succ]
        return False
    return free(n, r) and (r is u or free(r, u))


def lazy_pass(m, w):
    return isinstance(m.ast, (ast.Assign, ast.AnnAssign)) and m.ast.value is not None and is_lazy(m.ast.value) and any(
        isinstance(x, ast.Name) and x.id == w for x in ast.walk(m.ast.value))


class Containers:
    """what a function does with a container it receives"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def whole(self, f, name, depth=0):
        """does f keep, iterate or pass on the whole of its parameter 'name'?"""
        k = (f, name)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        self.memo[k] = any(self.whole_use(f, x, depth) for x in self.p.own_nodes(f) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load))
        return self.memo[k]

    def whole_use(self, f, x, depth=0):
        p = self.p
        par = p.parents.get(id(x))
        if isinstance(par, ast.Compare) or isinstance(par, ast.Subscript):
            return False
        if isinstance(par, ast.Attribute):
            g = p.parents.get(id(par))
            if isinstance(g, ast.Call) and g.func is par:
                return par.attr in ("items", "values", "keys", "copy")
            return False
        if isinstance(par, (ast.If, ast.While, ast.UnaryOp, ast.BoolOp, ast.IfExp)):
            return False
        if isinstance(par, (ast.For, ast.comprehension)) and par.iter is x:
            return True
        if isinstance(par, ast.keyword):
            par2 = p.parents.get(id(par))
        else:
            par2 = par
        if isinstance(par2, ast.Call):
            d = dotted(par2.func) or ""
            if d in ("len", "bool", "id", "isinstance", "print"):
                return False
            r = p.resolve_expr(f.module, par2.func, f)
            if r is not None and r[0] == "class":
                return True
            cal = p.callees(f, par2)
            if cal and depth < 5:
                for g in cal:
                    ps = [n for n, k, a, dd in g.params]
                    if g.cls is not None and not g.is_static and isinstance(par2.func, ast.Attribute):
                        ps = ps[1:]
                    nm = None
                    if isinstance(par, ast.keyword):
                        nm = par.arg
                    elif x in par2.args and par2.args.index(x) < len(ps):
                        nm = ps[par2.args.index(x)]
                    if nm is None or self.whole(g, nm, depth + 1):
                        return True
                return False
            return True
        return True


DRAIN = {"pop", "clear", "popleft", "remove", "discard", "popitem"}


def taken_out(p, u):
    """v.pop() whose result is used"""
    a = p.parents.get(id(u))
    g = p.parents.get(id(a)) if isinstance(a, ast.Attribute) else None
    return isinstance(g, ast.Call) and g.func is a and a.attr in ("pop", "popleft", "popitem") and not isinstance(p.parents.get(id(g)), ast.Expr)


def on_v(n, v, names):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v and x.func.attr in names
               for x in (ast.walk(n.ast) if n.kind in ("stmt", "cond", "return") else []))


def undrained(p, body, head, inside, v):
    """can what one item adds to v still be there when the next item is processed?"""
    drains = set()
    for n in body:
        if on_v(n, v, DRAIN) or isinstance(n.ast, ast.Delete) and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.ast)):
            drains.add(n.idx)
        if n.kind == "cond" and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.ast)) and isinstance(p.parents.get(id(n.ast)), ast.While):
            drains.add(n.idx)
    if not drains:
        return True
    for n in body:
        grows = on_v(n, v, GROW) or (n.kind == "stmt" and isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.target, ast.Name) and n.ast.target.id == v)
        if not grows:
            continue
        seen, todo = set(), [s for s, lab in n.succ if lab != "exc"]
        while todo:
            m = todo.pop()
            if m is head:
                return True
            if m.idx in seen or m.idx not in inside or m.idx in drains:
                continue
            seen.add(m.idx)
            todo += [s for s, lab in m.succ if lab != "exc"]
    return False


def accumulations(p, f, rep, C):
    c = cfg_of(f)
    n_ob = 0
    fresh = {}
    for s in p.own_nodes(f):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            pairs = [(t, s.value)]
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                pairs = list(zip(t.elts, s.value.elts))
            for a, b in pairs:
                if isinstance(a, ast.Name) and (isinstance(b, (ast.List, ast.Dict, ast.Set)) or (isinstance(b, ast.Call) and dotted(b.func) in ("list", "dict", "set", "defaultdict", "collections.defaultdict", "deque"))):
                    fresh.setdefault(a.id, []).append(s)
    for l in [n for n in p.own_nodes(f) if isinstance(n, (ast.For, ast.AsyncFor))]:
        head = c.loop_nodes.get(id(l))
        if head is None:
            continue
        body = [n for n in c.nodes if id(l) in n.loops]
        inside = {n.idx for n in body}
        inloop_defs = set()
        for n in body:
            inloop_defs |= defs(n)
        for v, ss in fresh.items():
            if v in inloop_defs or not any(all(id(l) not in n.loops for n in c.nodes if n.ast is s) for s in ss):
                continue
            grown, whole = None, None
            for n in body:
                for x in ast.walk(n.ast) if n.kind in ("stmt", "cond", "return") else []:
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v and x.func.attr in GROW:
                        grown = x
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v:
                        grown = x
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == v:
                        grown = x
                for u in uses(n):
                    if u.id == v and C.whole_use(f, u):
                        par = p.parents.get(id(u))
                        if isinstance(par, ast.AugAssign):
                            continue
                        whole = u
                    elif u.id == v and taken_out(p, u):
                        whole = u
                if n.kind == "for" and isinstance(n.ast.iter, ast.Name) and n.ast.iter.id == v:
                    whole = n.ast
            if grown is None or whole is None:
                continue
            # read after the loop: the loop collects
            live, seen, todo = False, set(), [s for n in body + [head] for s, lab in n.succ if s.idx not in inside and s is not head]
            while todo:
                n = todo.pop()
                if n.idx in seen or n.idx in inside or n is head:
                    continue
                seen.add(n.idx)
                if any(u.id == v for u in uses(n)):
                    live = True
                    break
                if v in defs(n):
                    continue
                todo += [s for s, _ in n.succ]
            # what an item adds is taken out again before the next item, on every path
            drained = not undrained(p, body, head, inside, v)
            n_ob += 1
            rep.ob("R4-no-accumulation", f"{f.qualname}: {v}", live or drained,
                   f"{f.qualname}: '{v}' keeps what was added for earlier items and is used as a whole for each later one", f.loc(whole), key=f"R4:{f.qualname}:{v}")
        rep.ob("R4-no-accumulation", f"{f.qualname}: loop over {ast.unparse(l.target)}")
    return n_ob


def check(p, rep, tier):
    rep.rule("R1-set-before-use", "on every path through a function each local is set before it is read", 500)
    rep.rule("R2-no-leftover", "a value computed in one iteration of a loop and not needed after the loop is not read in a later iteration, unless it is updated from itself", 150)
    rep.rule("R3-late-capture", "a lazily evaluated expression is consumed before the variables it reads move on", 0)
    rep.rule("R4-no-accumulation", "a container not needed after a loop does not carry what earlier iterations added into later ones as a whole", 150)
    C = Containers(p)
    nu = nl = 0
    for f in p.all_functions():
        rep.saw("functions analysed", f.fullname)
        nu += definite(p, f, rep)
        nl += leftovers(p, f, rep)
        lazies(p, f, rep)
        accumulations(p, f, rep, C)
    rep.stats["uses_of_locals"] = nu
    rep.stats["loops"] = nl
    rep.assume("exceptions leave a statement before its assignment takes effect; a loop may run zero times")
