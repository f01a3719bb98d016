"""C40: walking over a network reaches every node, and the questions about its shape answer for it."""
import ast
from .. import vf
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..project import AnalysisError
from ..prov import Prov
from ..known import Known, Unknown, given
from .. import objs


def is_call(t, name, recv=None):
    return t.kind == "call" and str(t.args[0]).split(".")[-1] == name and (recv is None or t.args[1] is recv)


class Walk:
    """one method interpreted on an object of which nothing is known"""

    def __init__(self, p, P, c, m, oracle=None):
        self.P = P
        self.f = c.lookup(m)
        self.I = I = Interp(p)
        self.st = st = objs.begin(I, c.module)
        self.o = o = T("sym", "self of", c.name, m)
        self.before = len(vf._table)
        I.term_by_id[o.id] = o
        I.types[o.id] = {c.fullname}
        old, vf.ORACLE = vf.ORACLE, oracle
        try:
            self.v = I.call_func(self.f, [o], [], st, objs.node())
        finally:
            vf.ORACLE = old

    def contents(self):
        """[(element, guards)] of the returned collection, or None when it is not one the analysis sees"""
        out = []
        for g, x in alts(self.v):
            if x.kind in ("noret",):
                continue
            for s in [x] + ([y for y in vals(self.P.R(x)) if y.kind in ("list", "set", "dict")] if x.kind not in ("list", "set", "dict") else []):
                if s.kind not in ("list", "set", "dict"):
                    continue
                for e in self.I.entries(self.st, s):
                    t = e[1] if s.kind != "dict" else e[0] if isinstance(e[0], vf.Term) else e[1]
                    if isinstance(t, vf.Term):
                        for g2, y in alts(self.P.R(t)):
                            out.append((y, frozenset(e[2]) | g))
        return out or None

    def kept(self, got, which):
        """guards under which such elements enter the collections that are filled"""
        own = {x.id for x in vals(self.v)}
        out = []
        for (i, n), es in self.st.heap.items():
            if n != "#c" or i in own:
                continue
            for e in es:
                for t in (e[0], e[1]):
                    if isinstance(t, vf.Term) and any(which(y) for y in vals(self.P.R(t))):
                        out.append(frozenset(e[2]))
        return out or [g for t, g in got if which(t)]

    def recursive(self):
        """the method, or a function inside it, calls itself"""
        for d in ast.walk(self.f.node):
            if isinstance(d, (ast.FunctionDef, ast.Lambda)):
                n = getattr(d, "name", None)
                if n and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == n or isinstance(x.func, ast.Attribute) and x.func.attr == n)
                             for x in ast.walk(d)):
                    return True
        return False


def receivers(w, name):
    """terms on which the method was called, from the terms of the run"""
    out = set()
    for t in list(vf._table.values()):
        if is_call(t, name) and isinstance(t.args[1], vf.Term) and (t.args[1] is w.o or any(s is w.o for s in subterms(t.args[1]))):
            out |= set(vals(w.P.R(t.args[1])))
    for e in w.I.events:
        if e.kind == "enter" and str(e.name).split(".")[-1] == name and e.args:
            out |= set(vals(w.P.R(e.args[0])))
    return out


def each_of(t, pred):
    return t.kind == "elem" and any(pred(x) for x in vals(t.args[0]))


def seen_only(w, g):
    """guards that only keep a walk from repeating itself or ending"""
    bad = []
    for c, b in g:
        if c.kind == "op" and c.args[0] == "in":
            continue
        if any(s.kind == "call" and str(s.args[0]).split(".")[-1] in ("len", "pop", "popleft") or s.kind in ("list", "dict", "set") for s in [c] + list(subterms(c))) \
                and not any(is_call(s, "get_children") for s in subterms(c)):
            continue
        if c.kind in ("list", "dict", "set"):
            continue
        bad.append((c, b))
    return bad


def first_only(p, f):
    """the walk starts from one element of a list picked by its position"""
    env = {}
    for n in p.own_nodes(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            env.setdefault(n.targets[0].id, []).append(n.value)
    for n in p.own_nodes(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_all_descendants":
            r = n.func.value
            while isinstance(r, ast.Name) and len(env.get(r.id, ())) == 1:
                r = env[r.id][0]
            if isinstance(r, ast.Subscript) and isinstance(r.slice, ast.Constant) or isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "get_root":
                return ast.unparse(r)
    return None


class Sized(Known):
    """n elements in whatever collection the question is about"""

    def __init__(self, P, n):
        Known.__init__(self, P, None, {})
        self.n = n

    def _ev(self, t):
        if t.kind == "call" and str(t.args[0]).split(".")[-1] == "len":
            return self.n
        if t.kind in ("list", "attr") or is_call(t, "get_children") or is_call(t, "get_roots"):
            return (0,) * self.n
        return Known._ev(self, t)


def check(p, rep, tier):
    rep.rule("descendants", "The descendants of a node are the node itself, its children, and what is below them; nothing is left out except what was already seen.", floor=2)
    rep.rule("nodes", "The nodes of a network are those below every root, and the roots.", floor=1)
    rep.rule("arc roles", "The arc roles of a network are those of all its nodes.", floor=0)
    rep.rule("shape", "is_leaf holds exactly when there are no children; get_root answers with the root when there is one and refuses when there are several; "
                      "get_arc_name answers with that of a root, or None without roots.", floor=4)
    P = Prov()
    node, net = p.cls("INetworkNode"), p.cls("INetwork")
    if node is None or net is None:
        raise AnalysisError("INetworkNode or INetwork is gone")
    classes = [c for c in [node] + list(node.all_subclasses())]
    for c in classes:
        f = c.methods.get("get_all_descendants")
        if f is None or f.is_abstract:
            continue
        rep.saw("functions", f.fullname)
        w = Walk(p, P, c, "get_all_descendants")
        got = w.contents()
        if got is None:
            continue
        kids = lambda x: is_call(x, "get_children") and x.args[1] is w.o
        own = [g for t, g in got if t is w.o]
        rep.ob("descendants", f"{c.name}: itself", bool(own), f"{c.name}.get_all_descendants() leaves out the node itself", f.loc(), f"self:{c.name}")
        if own:
            bad = min((seen_only(w, g) for g in own), key=len)
            rep.ob("descendants", f"{c.name}: itself always", not bad, f"{c.name}.get_all_descendants() adds a node only if " +
                   ", ".join(f"{show(P.R(a), 4)[:80]} is {b}" for a, b in bad), f.loc(), f"when:{c.name}")
        sub = lambda t: each_of(t, lambda x: is_call(x, "get_all_descendants") and each_of(P.R(x.args[1]), kids))
        below = [g for t, g in got if each_of(t, kids) or sub(t)]
        parts = [t for t, g in got if t.kind in ("slice", "idx") or t.kind == "elem" and any(x.kind == "slice" for x in vals(t.args[0]))]
        if not below and w.recursive():
            continue
        rep.ob("descendants", f"{c.name}: children", bool(below), f"{c.name}.get_all_descendants() leaves out children of the node" +
               (f": it has {show(parts[0], 5)[:80]} only" if parts else ""), f.loc(), f"children:{c.name}")
        if below:
            bad = min(([x for x in seen_only(w, g) if any(each_of(s, kids) for s in subterms(P.R(x[0])))] for g in below), key=len)
            rep.ob("descendants", f"{c.name}: every child", not bad, f"{c.name}.get_all_descendants() adds a child only if " +
                   ", ".join(f"{show(P.R(a), 4)[:80]} is {b}" for a, b in bad), f.loc(), f"child-when:{c.name}")
            deep = any(each_of(t, kids) for n in ("get_children", "get_all_descendants") for t in receivers(w, n)) or any(sub(t) for t, g in got)
            rep.ob("descendants", f"{c.name}: further down", deep, f"{c.name}.get_all_descendants() never looks at the children of a child", f.loc(),
                   f"deep:{c.name}")
    roots = lambda o: lambda x: x.kind == "attr" and x.args[0] is o and "root" in str(x.args[1]) or is_call(x, "get_roots") and x.args[1] is o
    f = net.lookup("get_all_nodes")
    if f is not None:
        rep.saw("functions", f.fullname)
        w = Walk(p, P, net, "get_all_nodes")
        got = w.contents()
        if got is not None:
            rt = roots(w.o)
            root = lambda t: each_of(t, rt)
            down = lambda t: any(is_call(x, "get_all_descendants") and isinstance(x.args[1], vf.Term) and any(root(y) for y in vals(P.R(x.args[1])))
                                 for x in subterms(t))
            full = [g for t, g in got if down(t)]
            byhand = [t for t, g in got if root(t)] and any(each_of(t, lambda x: is_call(x, "get_children")) for t in receivers(w, "get_children"))
            if any(s.kind == "key" for t, g in got for s in subterms(t)):
                got, full, byhand = [], [], True
            if not full and w.recursive():
                byhand = True
            rep.ob("nodes", "of every root", bool(full or byhand), "INetwork.get_all_nodes() does not walk down from every root: it has " +
                   (" and ".join(sorted({show(t, 5)[:90] for t, g in got}))), f.loc(), "nodes")
            if full:
                bad = min((seen_only(w, g) for g in w.kept(got, down)), key=len)
                first = first_only(p, f)
                rep.ob("nodes", "all roots", first is None, f"INetwork.get_all_nodes() walks down from {first} only", f.loc(), "nodes-first")
                rep.ob("nodes", "always", not bad, "INetwork.get_all_nodes() has a node only if " + ", ".join(f"{show(P.R(a), 4)[:80]} is {b}" for a, b in bad), f.loc(), "nodes-when")
    f = net.lookup("get_arc_roles")
    if f is not None:
        rep.saw("functions", f.fullname)
        w = Walk(p, P, net, "get_arc_roles")
        rt = roots(w.o)
        rs = receivers(w, "get_arc_role")
        deep = any(each_of(t, lambda x: is_call(x, "get_all_descendants") or is_call(x, "get_children") or is_call(x, "get_all_nodes")) for t in rs)
        if rs:
            rep.ob("arc roles", "of all nodes", deep, "INetwork.get_arc_roles() asks " + " and ".join(sorted(show(t, 4)[:80] for t in rs)) + " only", f.loc(), "arc-roles")
    for n in (0, 1, 2):
        k = Sized(P, n)
        for c in classes:
            f = c.methods.get("is_leaf")
            if f is None or f.is_abstract:
                continue
            rep.saw("functions", f.fullname)
            w = Walk(p, P, c, "is_leaf", k.oracle)
            try:
                r = {k.value(x) for x in vals(w.v)}
            except Unknown:
                continue
            rep.ob("shape", f"{c.name}.is_leaf with {n} children", {bool(x) for x in r} == {n == 0}, f"{c.name}.is_leaf() answers {sorted(map(str, r))} for a node with {n} children",
                   f.loc(), f"leaf:{c.name}")
        f = net.lookup("get_root")
        if f is not None and n:
            rep.saw("functions", f.fullname)
            w = Walk(p, P, net, "get_root", k.oracle)
            xs = [x for x in vals(w.v) if x.kind != "noret"]
            ok = not xs if n == 2 else bool(xs) and all(x is not NONE for x in xs)
            rep.ob("shape", f"get_root with {n} roots", ok, f"INetwork.get_root() {'answers with ' + show(P.R(xs[0]), 4)[:60] if xs else 'answers nothing'} for a network with {n} roots",
                   f.loc(), "get_root")
        f = net.lookup("get_arc_name")
        if f is not None:
            rep.saw("functions", f.fullname)
            w = Walk(p, P, net, "get_arc_name", k.oracle)
            xs = [x for x in vals(w.v) if x.kind != "noret"]
            if xs:
                ok = all((x is NONE) == (n == 0) for x in xs)
                rep.ob("shape", f"get_arc_name with {n} roots", ok, f"INetwork.get_arc_name() answers {show(P.R(xs[0]), 4)[:60]} for a network with {n} roots", f.loc(), "get_arc_name")
