"""C13: walking what a filing can make cyclic ends."""
import ast
from ..project import AnalysisError
from .. import cfg as C, entry
from .c06 import reachable

PUSH = {"append", "extend", "add", "update", "insert", "appendleft", "extendleft", "put", "push"}
POP = {"pop", "popleft", "get_nowait", "popitem"}
XMLSTEP = {"getparent", "getchildren", "iterchildren", "findall", "find", "iterfind", "getnext", "getprevious", "itersiblings", "iterancestors", "iterdescendants", "xpath",
           "find_elements", "find_element"}
NODESTEP = {"get_children"}
NORMAL = {"normpath", "abspath", "realpath", "resolve", "urljoin", "relpath"}


def check(p, rep, tier):
    rep.rule("while", "A loop that follows links (a work list that grows, a chain of references) passes, on every round, a test whether it has been there "
                      "before that ends the round's progress, and records where it has been.", floor=3)
    rep.rule("recursion", "A function that calls itself again does so on a part of its argument (a child, a parent, an item), or only after testing and recording that "
                          "it has not been there before.", floor=6)
    rep.rule("arcs", "Where networks are built, an arc that would close a cycle is recognised before it is recorded, and is not recorded.", floor=2)
    rep.rule("search", "The test for a cycle is a complete search: it follows all arcs, to any depth, and ends.", floor=1)
    rep.rule("same-name", "The address by which an already loaded document is recognised is normalised, so that a cycle of relative references comes back to the same address.", floor=1)
    fs = [f for f in p.all_functions()]
    P[0] = p
    for f in fs:
        whiles(p, rep, f)
    recursions(p, rep, fs)
    arcs(p, rep)


# ---- paths
def reach(starts, stop=(), avoid_edge=None, within=None):
    """nodes reachable from the given nodes, not going through stop nodes"""
    seen, todo = set(), [n for n in starts if n not in stop]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m, lab in n.succ:
            if m in stop or m in seen or (avoid_edge and avoid_edge(n, lab)) or (within is not None and m not in within):
                continue
            todo.append(m)
    return seen


def exprs(n):
    if n.kind == "for":
        return []
    return C.node_exprs(n)


def nodes_with(c, pred):
    return [n for n in c.nodes for e in exprs(n) if any(pred(x) for x in ast.walk(e))]


def text(e):
    return ast.unparse(e)


def condition(f, n):
    """the condition of a branch, looking through a variable that is only given its value once"""
    e = n.ast
    for _ in range(3):
        if not isinstance(e, ast.Name) or f is None:
            break
        ds = [x for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None
              and any(isinstance(t, ast.Name) and t.id == e.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
        if len(ds) != 1 or isinstance(ds[0], ast.AugAssign) or e.id in {a for a, k, an, d in f.params}:
            break
        e = ds[0].value
    return inlined(f, e)


def inlined(f, e, depth=0):
    """a call of a one-line helper is its body"""
    if f is None or depth > 2:
        return e
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        x = inlined(f, e.operand, depth)
        return e if x is e.operand else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=x), e)
    if not isinstance(e, ast.Call):
        return e
    gs = [g for g in P[0].callees(f, e) if not g.is_abstract]
    if len(gs) != 1 or not isinstance(gs[0].node, ast.FunctionDef):
        return e
    g = gs[0]
    body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
        return e
    names = [a for a, k, an, d in g.params]
    off = 1 if g.cls is not None and not g.is_static else 0
    m = {names[i + off]: a for i, a in enumerate(e.args) if i + off < len(names)}
    m.update({k.arg: k.value for k in e.keywords})
    if g.cls is not None and not (isinstance(e.func, ast.Attribute) and text(e.func.value) == "self") and off:
        return e

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            return m.get(n.id, n)
    import copy
    return inlined(g, Sub().visit(copy.deepcopy(body[0].value)), depth + 1)


P = [None]


def member_test(n, f=None):
    """(container text, key text, label of the edge taken when it is a member)"""
    if n.kind != "cond":
        return None
    e = condition(f, n)
    neg = False
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, neg = e.operand, not neg
    t = _member(e)
    return (t[0], t[1], t[2] != neg) if t is not None else None


def _member(e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
        return text(e.comparators[0]), text(e.left), isinstance(e.ops[0], ast.In)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args and (e.func.attr.startswith(("has", "contains", "is_")) or e.func.attr == "__contains__"):
        return text(e.func.value), text(e.args[0]), True
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) \
            and e.comparators[0].value is None and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Attribute) and e.left.func.attr.startswith("get") and e.left.args:
        return text(e.left.func.value), text(e.left.args[0]), isinstance(e.ops[0], ast.IsNot)
    return None


def insertion(x, container):
    """does x put something into the container?"""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and text(x.func.value) == container and \
            x.func.attr.startswith(("add", "append", "insert", "upsert", "extend", "update", "set", "put")):
        return True
    if isinstance(x, (ast.Assign, ast.AugAssign)):
        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
            if isinstance(t, ast.Subscript) and text(t.value) == container:
                return True
            if text(t) == container and any(isinstance(y, (ast.Name, ast.Attribute)) and text(y) == container for y in ast.walk(x.value)):
                return True
            if isinstance(x, ast.AugAssign) and text(t) == container:
                return True
    return False


# ---- while loops
def whiles(p, rep, f):
    c = C.cfg_of(f)
    for h in c.nodes:
        if h.kind == "loop":
            one_loop(p, rep, f, c, h, ast.unparse(h.ast.test)[:60])
        elif h.kind == "for" and isinstance(h.ast.iter, ast.Name):
            pushes = [n for n in inside(c, h) for e in exprs(n) for x in ast.walk(e) if pushes_to(x, h.ast.iter.id)]
            if pushes:
                guarded(rep, f, c, h, set(pushes), h.ast.iter.id, f"for over growing {h.ast.iter.id}")


def inside(c, h):
    return [n for n in c.nodes if id(h.ast) in n.loops]


def pushes_to(x, w):
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in PUSH and text(x.func.value) == w:
        return True
    return isinstance(x, ast.AugAssign) and text(x.target) == w and isinstance(x.op, ast.Add)


def one_loop(p, rep, f, c, h, what):
    body = inside(c, h)
    where = f"{f.qualname}: while {what}"
    tests = {x.id for x in ast.walk(h.ast.test) if isinstance(x, ast.Name)}
    pops = {text(x.func.value) for n in body for e in exprs(n) for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in POP}
    lists = {t for t in pops if t in {text(y) for y in ast.walk(h.ast.test) if isinstance(y, (ast.Name, ast.Attribute))}} or (pops if isinstance(h.ast.test, ast.Constant) else set())
    if lists:
        for w in sorted(lists):
            pushes = {n for n in body for e in exprs(n) for x in ast.walk(e) if pushes_to(x, w)}
            if pushes:
                guarded(rep, f, c, h, pushes, w, f"work list {w}")
            else:
                rep.ob("while", f"{f.fullname}: {w} only shrinks")
        return
    # a variable of the condition that is moved on in the body
    moved = {}
    for n in body:
        if n.kind == "stmt" and isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and n.ast.value is not None:
            for t in n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target]:
                if isinstance(t, ast.Name) and (t.id in tests or isinstance(h.ast.test, ast.Constant)):
                    moved.setdefault(t.id, []).append(n)
    risky = {}
    for v, ns in moved.items():
        for n in ns:
            e = n.ast.value
            if any(isinstance(x, ast.Call) for x in ast.walk(e)) or any(isinstance(x, ast.Subscript) for x in ast.walk(e)):
                step = {x.func.attr for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
                if step and step <= XMLSTEP | {"getroot"}:
                    continue
                if step & {"read", "readline", "recv", "next", "fetch", "group", "strip", "replace", "split"}:
                    continue
                risky.setdefault(v, []).append(n)
    if not risky:
        rep.ob("while", f"{f.fullname}: {what}")
        return
    for v, ns in sorted(risky.items()):
        guarded(rep, f, c, h, set(ns), v, f"chain of {v}", chain=True)


def guarded(rep, f, c, h, pushes, w, what, chain=False):
    """every way round the loop through a push passes a membership test whose member side makes no progress, and an insertion"""
    body = set(inside(c, h))
    ok = False
    containers = {}
    for n in body:
        t = member_test(n, f)
        if t is not None and t[0] != w:
            containers.setdefault(t[0], []).append((n, t[2]))
    # a test inside the pushed expression itself counts as well
    for n in pushes:
        for e in exprs(n):
            for x in ast.walk(e):
                if isinstance(x, ast.comprehension):
                    for i in x.ifs:
                        for y in ast.walk(i):
                            if isinstance(y, ast.Compare) and isinstance(y.ops[0], ast.NotIn):
                                containers.setdefault(text(y.comparators[0]), [])
    for s, tests in containers.items():
        ins = [n for n in body for e in exprs(n) if any(insertion(x, s) for x in ast.walk(e))]
        if not ins:
            continue
        first = [m for m, lab in h.succ if (lab == "body" or h.kind == "loop")]
        own = all(any(isinstance(y, ast.Compare) and isinstance(y.ops[0], ast.NotIn) and text(y.comparators[0]) == s for e in exprs(n) for y in ast.walk(e)) for n in pushes)
        good = dict(tests)
        # not through 'was never there' edges: no progress possible
        blocked = lambda n, lab: n in good and lab is (not good[n])
        r = reach(first, within=body | {h}, avoid_edge=blocked)
        progress = own or not (pushes & r)
        if chain and progress:
            # leaving the member side must not come back to the head with the chain moved on
            progress = True
        # no way round with a push and without an insertion
        free = reach(first, stop=set(ins), within=body)
        back = any(h in {m for m, _ in n.succ} for q in (pushes & free) for n in reach([q], stop=set(ins), within=body))
        if progress and not back:
            ok = True
            break
    rep.ob("while", f"{f.fullname}: {what}", ok, f"{f.qualname}: the {what} goes on without testing whether it has been there before: a cycle makes it endless",
           f.loc(h.ast), key=f"while:{f.qualname}:{w}")


# ---- recursion
def sccs(p, fs):
    edges = {}
    for f in fs:
        for c in p.calls_in(f):
            for g in p.callees(f, c):
                edges.setdefault(f, []).append((g, c))
        for g in f.nested.values():
            pass
    index, low, stack, on, out, cnt = {}, {}, [], set(), [], [0]
    import sys
    sys.setrecursionlimit(20000)

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        on.add(v)
        for w, _ in edges.get(v, []):
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = set()
            while True:
                w = stack.pop()
                on.discard(w)
                comp.add(w)
                if w is v:
                    break
            out.append(comp)
    for f in fs:
        if f not in index:
            go(f)
    return [(s, edges) for s in out if len(s) > 1 or any(g in s for v in s for g, _ in edges.get(v, []))]


def recursions(p, rep, fs):
    for comp, edges in sccs(p, fs):
        for f in sorted(comp, key=lambda f: f.fullname):
            for g, call in edges.get(f, []):
                if g not in comp:
                    continue
                how = descent(p, f, call)
                # a step of the cycle that only passes its own parameters on leaves the duty to the others, unless the cycle has only such steps
                where = f"{f.fullname} -> {g.qualname}"
                if how in ("part", "xml", "node"):
                    rep.ob("recursion", f"{where} ({how})")
                    rep.saw("recursive descents", where + " by " + how)
                    continue
                if how == "same" and len(comp) > 1 and any(descent(p, a, c) in ("part", "xml", "node") for a in comp for b, c in edges.get(a, []) if b in comp):
                    rep.ob("recursion", f"{where} (passes on)")
                    continue
                ok, tests = been_there(p, f, call)
                rep.ob("recursion", where, ok, f"{f.qualname} calls itself again on something it looked up, without testing and recording that it has been there: "
                       "a cycle of references never ends", f.loc(call), key=f"recursion:{f.qualname}")
                if ok:
                    for t in tests:
                        normalised(p, rep, f, t)


def descent(p, f, call):
    """how the arguments (or the receiver) of a recursive call derive from the parameters of f:
    'xml'/'node'/'part' - a part of a parameter, 'same' - a parameter itself, 'other' - looked up or unknown"""
    params = {n for n, k, a, d in f.params}
    best = "other"
    args = [a.value if isinstance(a, ast.Starred) else a for a in call.args] + [k.value for k in call.keywords]
    if isinstance(call.func, ast.Attribute) and not (isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls")):
        args.append(call.func.value)
    rank = {"xml": 4, "node": 3, "part": 3, "same": 1, "other": 0}
    for a in args:
        k = derive(p, f, a, params, set(), 0)
        if rank.get(k, 0) > rank[best]:
            best = k
    return best


def derive(p, f, e, params, seen, depth):
    """None: not from a parameter"""
    if depth > 12:
        return None
    d = lambda x: derive(p, f, x, params, seen, depth + 1)
    if isinstance(e, ast.Name):
        if e.id in seen:
            return None
        bound = None
        for x in ast.walk(f.node):
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.target)):
                seen.add(e.id)
                r = d(x.iter)
                bound = bound or {"same": "part", None: None}.get(r, r)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if any(isinstance(y, ast.Name) and y.id == e.id for y in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else [])):
                        if any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.value)) and e.id in params:
                            continue
                        seen.add(e.id)
                        bound = bound or d(x.value)
            elif isinstance(x, ast.NamedExpr) and x.target.id == e.id:
                seen.add(e.id)
                bound = bound or d(x.value)
        if bound is not None:
            return bound
        return "same" if e.id in params else None
    if isinstance(e, ast.Attribute):
        r = d(e.value)
        return "part" if r in ("same", "part") else r
    if isinstance(e, ast.Subscript):
        r = d(e.value)
        return "part" if r in ("same", "part") else r if r else None
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        if nm in NODESTEP and isinstance(e.func, ast.Attribute):
            return "node" if d(e.func.value) else None
        if nm in XMLSTEP and isinstance(e.func, ast.Attribute):
            return "xml" if d(e.func.value) else None
        if nm in XMLSTEP and isinstance(e.func, ast.Name) and e.args:
            return "xml" if d(e.args[0]) else None
        if isinstance(e.func, ast.Attribute) and nm in ("items", "values", "keys", "split", "iterdir", "copy", "getroot"):
            r = d(e.func.value)
            return r
        if nm in ("listdir", "scandir", "glob", "join", "list", "tuple", "sorted", "reversed", "enumerate", "cast", "zip", "iter", "set"):
            rs = [d(a) for a in e.args]
            if nm in ("listdir", "scandir", "glob"):
                return "part" if any(rs) else None
            return next((r for r in rs if r in ("xml", "node", "part")), next((r for r in rs if r), None))
        return None
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        r = d(e.elt)
        return r
    if isinstance(e, (ast.List, ast.Tuple)):
        return next((r for r in map(d, e.elts) if r in ("xml", "node", "part")), next((r for r in map(d, e.elts) if r), None))
    if isinstance(e, ast.Starred):
        return d(e.value)
    if isinstance(e, ast.BoolOp):
        return next((r for r in map(d, e.values) if r), None)
    if isinstance(e, ast.BinOp):
        return next((r for r in (d(e.left), d(e.right)) if r in ("xml", "node", "part")), None)
    if isinstance(e, ast.IfExp):
        return d(e.body) or d(e.orelse)
    return None


def been_there(p, f, call):
    c = C.cfg_of(f)
    at = [n for n in c.nodes if any(x is call for e in exprs(n) for x in ast.walk(e))]
    if not at:
        return True, []
    conts = {}
    for n in c.nodes:
        t = member_test(n, f)
        if t is not None:
            conts.setdefault(t[0], []).append((n, t[2], t[1]))
    for s, tests in conts.items():
        good = {n: m for n, m, _ in tests}
        r = reach([c.entry], avoid_edge=lambda n, lab: n in good and lab is (not good[n]))
        if set(at) & r:
            continue
        ins = {n for n in c.nodes for e in exprs(n) if any(insertion(x, s) or (isinstance(x, ast.Call) and x is not call and helper_inserts(p, f, x, s)) for x in ast.walk(e))}
        if ins and not any(same_value(f, t, i, s) for t, _, _ in tests for i in ins):
            continue
        free = reach([c.entry], stop=ins)
        if set(at) & free and ins != set(at):
            continue
        if not ins:
            continue
        return True, tests
    return False, []


def same_value(f, t, i, s):
    """is what is inserted what was tested?  (no new value for the variable in between)"""
    r = C.reaching(f)
    e = t.ast
    key = member_test(t, f)[1]

    def defs(n):
        return [frozenset(q.idx for q in r.get(id(x), ())) for y in exprs(n) for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == key]
    a, b = defs(t), defs(i)
    if isinstance(condition(f, t), ast.AST) and condition(f, t) is not e:
        return True
    if not a or not b:
        return True
    return any(x == y for x in a for y in b)


def helper_inserts(p, f, x, s):
    if not s.startswith("self."):
        return False
    return any(g.cls is f.cls and g is not f and any(insertion(y, s) for y in ast.walk(g.node)) for g in p.callees(f, x))


def normalised(p, rep, f, test):
    """an address built from two addresses is normalised before it is looked up"""
    n0, _, key = test
    vs = {x.id for x in ast.walk(ast.parse(key, mode="eval")) if isinstance(x, ast.Name)} - {"self"}
    combined(p, rep, f, vs, [n0], {f})


def is_norm(p, f, x, depth=0):
    if not isinstance(x, ast.Call):
        return False
    return (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else "") in NORMAL


def combined(p, rep, f, vs, ends, seen):
    c = C.cfg_of(f)
    params = {n for n, k, a, d in f.params}
    norm = {n for n in c.nodes for e in exprs(n) for x in ast.walk(e) if is_norm(p, f, x)}
    for n in c.nodes:
        if n.kind == "stmt" and isinstance(n.ast, ast.Assign) and any(isinstance(t, ast.Name) and t.id in vs for t in n.ast.targets):
            e = n.ast.value
        elif n.kind == "return" and n in ends and n.ast.value is not None:
            e = n.ast.value
        else:
            continue
        glued = any(isinstance(x, (ast.BinOp, ast.JoinedStr)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "join") for x in ast.walk(e))
        both = len({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & params) > 1
        if not glued or not both:
            if n in norm and both:
                rep.ob("same-name", f"{f.fullname}: {text(e)[:70]}")
            elif both:
                # put together by another function: look there
                for x in ast.walk(e):
                    if isinstance(x, ast.Call):
                        for g in p.callees(f, x):
                            if g not in seen and not g.is_abstract:
                                rets = [m for m in C.cfg_of(g).nodes if m.kind == "return" and m.ast.value is not None]
                                names = {y.id for m in rets for y in ast.walk(m.ast.value) if isinstance(y, ast.Name)} - {"self"}
                                combined(p, rep, g, names, rets, seen | {g})
            continue
        ok = n in norm or not any(m in reach([m for m, _ in n.succ], stop=norm) for m in ends)
        rep.ob("same-name", f"{f.fullname}: {text(e)[:70]}", ok, f"{f.qualname}: the address {text(e)[:80]} is looked up as it was put together; "
               "documents that refer to each other by ./ or ../ paths are taken for new ones for ever", f.loc(n.ast), key=f"same-name:{f.qualname}")


# ---- arcs
def is_search(p, g):
    """a function (start, end, arcs) -> bool that searches"""
    c = C.cfg_of(g)
    ps = [n for n, k, a, d in g.params]
    if len(ps) < 3:
        return False
    again = any(g in p.callees(g, x) for x in ast.walk(g.node) if isinstance(x, ast.Call))
    return (again or any(n.kind == "loop" for n in c.nodes)) and any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for x in ast.walk(g.node))


def complete(p, rep, g):
    f = g
    c = C.cfg_of(g)
    heads = [n for n in c.nodes if n.kind == "loop"]
    ok, why = True, ""
    ps = [n for n, k, a, d in g.params]
    for h in heads:
        body = set(inside(c, h))
        pushes = {n for n in body for e in exprs(n) for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in PUSH
                  and any(isinstance(y, ast.Name) and y.id == ps[2] for y in ast.walk(x))}
        pushes |= {n for n in body if n.kind == "stmt" and isinstance(n.ast, ast.AugAssign) and any(isinstance(y, ast.Name) and y.id == ps[2] for y in ast.walk(n.ast.value))}
        inner = {n for n in body if n.kind == "for" and any(isinstance(y, ast.Name) and y.id == ps[2] for y in ast.walk(n.ast.iter))}
        pushes |= inner
        if not pushes:
            ok, why = False, "it does not go on from the nodes it reaches"
            break
        for n in pushes:
            for e in exprs(n) if n.kind != "for" else [n.ast.iter]:
                if any(isinstance(x, ast.Slice) or (isinstance(x, ast.comprehension) and x.ifs and not all(isinstance(i, ast.Compare) and isinstance(i.ops[0], ast.NotIn) for i in x.ifs))
                       for x in ast.walk(e)):
                    ok, why = False, "it follows only some of the arcs"
        first = [m for m, _ in h.succ]
        # a round that ends without going on: only for places already visited
        member = {}
        for n in body:
            t = member_test(n, f)
            if t is not None:
                member[n] = t[2]
        r = reach(first, stop=pushes, within=body | {h}, avoid_edge=lambda n, lab: n in member and lab is member[n])
        if h in {m for n in r & body for m, lab in n.succ if not (n in member and lab is member[n])}:
            ok, why = False, "it does not go on from every node it reaches"
        hit = [n for n in body if n.kind == "cond" and isinstance(n.ast, ast.Compare) and isinstance(n.ast.ops[0], (ast.Eq, ast.In)) and any(
            isinstance(x, ast.Name) and x.id == ps[1] for x in ast.walk(n.ast))]
        if not hit:
            ok, why = False, "it does not look for the node it is asked for"
    rep.ob("search", g.fullname, ok, f"{g.qualname}: {why}: a longer cycle is not recognised", g.loc(), key=f"search:{g.qualname}")


def arcs(p, rep):
    base = p.cls("INetworkNode")
    links = {m for k in [base] + list(base.all_subclasses()) for n, m in k.methods.items() if n in ("_add_child", "add_child")}
    if not links:
        raise AnalysisError("no operation that adds a child to a network node found")
    fs = set()
    for c, f in entry.entries(p, "parse_networks"):
        fs |= set(reachable(p, f))
    searches = {}
    for f in sorted(fs, key=lambda f: f.fullname):
        cg = C.cfg_of(f)
        sites = [(n, x) for n in cg.nodes for e in exprs(n) for x in ast.walk(e) if isinstance(x, ast.Call) and any(g in links for g in p.callees(f, x))]
        moved = [x for n, x in sites if from_children(p, f, x)]
        sites = [(n, x) for n, x in sites if x not in moved]
        if not sites:
            continue
        tests = []
        for n in cg.nodes:
            for e in [condition(f, n)] if n.kind == "cond" else []:
                for x in ast.walk(e):
                    if isinstance(x, ast.Call) and len(x.args) + len(x.keywords) >= 3:
                        for g in p.callees(f, x):
                            if is_search(p, g):
                                tests.append((n, x, g))
        loc = f.loc(sites[0][1])
        if not tests:
            rep.ob("arcs", f.fullname, False, f"{f.qualname}: children are added to nodes without testing whether the arc closes a cycle", loc, key=f"arcs:{f.qualname}")
            continue
        for n, x, g in tests:
            searches[g] = 1
            one_test(p, rep, f, cg, n, x, g, sites)
    for g in searches:
        complete(p, rep, g)


def from_children(p, f, call):
    """the child that is added comes from the children of another node: a tree that is moved as a whole"""
    ps = {n for n, k, a, d in f.params}
    for a in call.args:
        if isinstance(a, ast.Name):
            for x in ast.walk(f.node):
                if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == a.id \
                        and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in NODESTEP for y in ast.walk(x.iter)):
                    return True
    return False


def one_test(p, rep, f, cg, n, x, g, sites):
    key = f"arcs:{f.qualname}"
    loc = f.loc(x)
    heads = [h for h in cg.nodes if h.kind == "for" and id(h.ast) in n.loops]
    if not heads:
        rep.saw("cycle tests of an unknown form", f.fullname)
        return
    h = heads[-1]
    h = max(heads, key=lambda q: len(q.loops))
    body = set(inside(cg, h))
    names = [a for a, k, an, d in g.params]
    bind = {names[i]: a for i, a in enumerate(x.args) if i < len(names)}
    bind.update({k.arg: k.value for k in x.keywords})
    to, frm, m = (bind.get(names[i]) for i in range(3))
    mroot = next((y.id for y in ast.walk(m) if isinstance(y, ast.Name)), None) if m is not None else None
    # where the arc is recorded for the following tests: m[from].append(to)
    rec = set()
    turned = False
    for q in body:
        for e in exprs(q):
            for y in ast.walk(e):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in PUSH and y.args and any(
                        isinstance(z, ast.Name) and z.id == mroot for z in ast.walk(y.func.value)):
                    sub = {text(z.slice) for z in ast.walk(y.func.value) if isinstance(z, ast.Subscript)} | {text(z.args[0]) for z in ast.walk(y.func.value) if isinstance(z, ast.Call) and z.args}
                    if frm is not None and text(frm) in sub and text(y.args[0]) == text(to):
                        rec.add(q)
                    elif frm is not None and text(to) in sub and text(y.args[0]) == text(frm):
                        turned = True
    pos = positive(condition(f, n), x)
    yes = [m2 for m2, lab in n.succ if lab is pos]
    no = [m2 for m2, lab in n.succ if lab is (not pos)]
    if turned and not rec:
        rep.ob("arcs", f"{f.fullname}: direction", False, f"{f.qualname}: the cycle test is asked in the direction of the arcs it has recorded the other way round", loc, key=key + ":direction")
        return
    rep.ob("arcs", f"{f.fullname}: recorded", bool(rec), f"{f.qualname}: arcs are not recorded for the cycle test ({text(m)[:60]} is never extended by the arc)", loc, key=key + ":recorded")
    if rec:
        skip = h in {m2 for q in reach(no, stop=rec, within=body) for m2, _ in q.succ} or h in no
        rep.ob("arcs", f"{f.fullname}: always recorded", not skip, f"{f.qualname}: an arc can be accepted without being recorded for the following cycle tests", loc, key=key + ":always")
    # after a positive test nothing of the arc may be recorded in this round
    after = reach(yes, within=body)
    kept = []
    for q in after:
        for e in exprs(q):
            for y in ast.walk(e):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and (y.func.attr in PUSH or y.func.attr in ("_add_child", "add_child")) \
                        and not any("rror" in nm for nm in p.type_names(f.module, y.func.value)) and "error" not in text(y.func.value):
                    kept.append(y)
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) for t in y.targets):
                    kept.append(y)
    rep.ob("arcs", f"{f.fullname}: left out", not kept, f"{f.qualname}: an arc that closes a cycle is recorded all the same ({text(kept[0])[:70] if kept else ''})", loc, key=key + ":left out")
    # every arc is tested before it is recorded or linked
    first = [m2 for m2, lab in h.succ if lab == "body"]
    untested = reach(first, stop={n}, within=body)
    hits = [q for q in untested if q in rec or q in {s for s, _ in sites}]
    both = {text(frm), text(to)} if frm is not None and to is not None else None
    for q in untested:
        for e in exprs(q):
            for y in ast.walk(e):
                if both and (isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) and both <= {text(z) for z in ast.walk(t.slice)} for t in y.targets)
                             or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in PUSH and both <= {text(z) for a in y.args for z in ast.walk(a)}):
                    hits.append(q)
    rep.ob("arcs", f"{f.fullname}: tested", not hits, f"{f.qualname}: an arc can be recorded without the cycle test", loc, key=key + ":tested")


def positive(e, call):
    pos = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pos = e.operand, not pos
    return pos
