"""C20: every parsing step runs after the steps whose results it reads, once,
on every path, and inline filings go through the steps XML filings go through."""
from __future__ import annotations
import ast
from .. import objs
from ..cfg import cfg_of, node_exprs
from ..project import AnalysisError
from ..steps import Tracer, meet

INNER = ("brel.parsers.XML", "brel.parsers.XHMTL", "brel.parsers.utils", "brel.services", "brel.data", "brel.qnames", "brel.networks", "brel.utils")
SKIP = {"ErrorRepository", "FileRepository"}


def check(p, rep, tier):
    rep.rule("R1-written-first", "a step reads a repository only after every other step that fills it has run", 12)
    rep.rule("R2-filled", "every repository a filing answers questions from is filled while parsing, for every kind of filing", 8)
    rep.rule("R3-every-stage-once", "every stage of a parser runs exactly once on every path", 8)
    rep.rule("R4-same-steps", "an inline filing goes through the steps an XML filing goes through", 8)
    rep.rule("R5-state", "what a stage reads from the parser has been stored by an earlier stage", 2)
    base = p.cls("FilingParser")
    kinds = [c for c in sorted(objs.concrete_subclasses(p, "FilingParser"), key=lambda c: c.name)]
    if len(kinds) < 2:
        raise AnalysisError("the parsers of the two kinds of filings were not found")
    opener = p.cls("Filing").lookup("open")
    if opener is None:
        raise AnalysisError("Filing.open not found")
    stages = stages_of(p, base)
    if len(stages) < 4:
        raise AnalysisError("the stages of FilingParser were not found")
    asked = asked_repositories(p)
    filled, traces = {}, {}
    for k in kinds:
        t = Tracer(p, base, k)
        ev = [e for e in t.events(opener) if e.repo not in SKIP]
        if len(ev) < 40:
            raise AnalysisError(f"only {len(ev)} repository operations found when opening a filing with {k.name}")
        traces[k] = (t, ev)
        written_first(p, rep, k, ev)
        w = {e.repo for e in ev if e.kind == "w"}
        for r in sorted(asked):
            rep.ob("R2-filled", f"{k.name}: {r}", r in w, f"opening a filing with {k.name} never fills the {r} that filings are asked about", k.lookup("parse").loc(), key=f"R2:{k.name}:{r}")
        once(p, rep, k, stages, t)
        state(p, rep, k, stages)
    same_steps(p, rep, kinds, stages, traces)
    rep.stats["repositories_asked"] = sorted(asked)
    rep.stats["operations"] = {k.name: len(v[1]) for k, v in traces.items()}
    rep.assume("calls are resolved by their static types; what a repository holds is changed only through its methods")


def stages_of(p, base):
    return [n for n, m in base.methods.items() if m.is_abstract and n.startswith("parse")]


def asked_repositories(p):
    """repositories the Filing class reads outside of parsing"""
    out = set()
    t = Tracer(p)
    c = p.cls("Filing")
    for n, m in c.methods.items():
        if n == "open":
            continue
        for k in p.calls_in(m):
            for g in t.callees(m, k):
                if g.cls in t.repos and g.name.startswith(("get", "has")):
                    out.add(t.repos[g.cls])
    return out - SKIP


def written_first(p, rep, k, ev):
    writers = {}
    for i, e in enumerate(ev):
        if e.kind == "w":
            writers.setdefault(e.repo, []).append((i, e))
    seen = {}
    for i, e in enumerate(ev):
        if e.kind != "r":
            continue
        ws = writers.get(e.repo, [])
        # a function that fills the repository itself may look at what it has put there
        own = {w.leaf for _, w in ws}
        if e.leaf in own:
            continue
        early, late = None, None
        for j, w in ws:
            m = meet(e, w)
            if m is None:
                continue
            f, ce, cw = m
            if f.module.name.startswith(INNER):
                # within a step: two passes of their own, the reading one first
                if not e.op.startswith("has") and passes(e, w, f):
                    if j > i:
                        late = late or (f, w)
                    else:
                        early = (f, w)
                continue
            both = shared_loop(e, w, f)
            if j > i or both:
                late = (f, w)
            else:
                early = (f, w)
        key = (e.repo, e.leaf)
        if late and early and late[0].module.name.startswith(INNER):
            late = None
        bad = late or seen.get(key, (None,))[0]
        seen[key] = (bad, e, early)
    for (r, leaf), (bad, e, early) in sorted(seen.items(), key=lambda x: (x[0][0], x[0][1].qualname)):
        msg = ""
        if bad:
            msg = f"{leaf.qualname} reads the {r} ({e.op}) before {bad[1].leaf.qualname} has filled it: order of the calls in {bad[0].qualname} for {k.name}"
        rep.ob("R1-written-first", f"{k.name}: {leaf.qualname} reads {r}", not bad, msg, bad[0].loc() if bad else leaf.loc(), key=f"R1:{leaf.qualname}:{r}")


def shared_loop(a, b, f):
    """do both run in one loop of an outer function, alternating?"""
    outer = [l for l in a.loops if any(l is x for x in b.loops)]
    return any(any(l is n for n in ast.walk(f.node)) for l in outer)


def passes(a, b, f):
    la = [l for l in a.loops if any(l is n for n in ast.walk(f.node))]
    lb = [l for l in b.loops if any(l is n for n in ast.walk(f.node))]
    la = la or [l for l in a.loops]
    lb = lb or [l for l in b.loops]
    return bool(la) and bool(lb) and not any(x is y for x in la for y in lb)


def call_nodes(p, t, f, match):
    """CFG nodes of f with a call that satisfies match(callee)"""
    g = cfg_of(f)
    out = []
    for n in g.nodes:
        for e in node_exprs(n):
            for c in ast.walk(e):
                if isinstance(c, ast.Call) and any(match(h) for h in t.callees(f, c)):
                    out.append(n)
    return g, out


def on_every_path(g, nodes):
    """no path from entry to exit avoids the nodes"""
    block = set(id(n) for n in nodes)
    todo, seen = [g.entry], set()
    while todo:
        n = todo.pop()
        if id(n) in seen or id(n) in block:
            continue
        seen.add(id(n))
        if n is g.exit:
            return False
        todo.extend(m for m, l in n.succ)
    return True


def twice(g, nodes):
    ids = {id(n) for n in nodes}
    if len(ids) < len(nodes):
        return True
    for n in nodes:
        todo, seen = [m for m, l in n.succ if l != "exc"], set()
        while todo:
            m = todo.pop()
            if id(m) in seen:
                continue
            seen.add(id(m))
            if id(m) in ids:
                return True
            todo.extend(x for x, l in m.succ)
    return False


def once(p, rep, k, stages, t):
    f = k.lookup("parse")
    if f is None:
        raise AnalysisError(f"{k.name}.parse not found")
    for s in stages:
        impl = k.lookup(s)
        paths = reach(p, t, f, impl)
        ok, why = paths
        rep.ob("R3-every-stage-once", f"{k.name}: {s}", ok, f"{k.name}.{f.name}: the stage {s} {why}", f.loc(), key=f"R3:{k.name}:{s}")


def reach(p, t, f, target, depth=0):
    """is target called exactly once on every path of f (possibly through a helper)?"""
    via = {target}
    if depth < 3:
        for c in p.calls_in(f):
            for h in t.callees(f, c):
                if h is not target and h is not f and h.cls is not None and t.family in h.cls.mro() and reach(p, t, h, target, depth + 1)[0]:
                    via.add(h)
    n = dynamic(p, f, target)
    if n[0]:
        return n
    g, nodes = call_nodes(p, t, f, lambda h: h in via)
    if not nodes:
        return dynamic(p, f, target)
    if not on_every_path(g, nodes):
        return False, "is skipped on some path"
    if twice(g, nodes):
        return False, "runs more than once on some path"
    return True, ""


def dynamic(p, f, target):
    """for step in (self.a, self.b): step()"""
    n = 0
    for x in p.own_nodes(f):
        if isinstance(x, ast.For) and isinstance(x.iter, (ast.Tuple, ast.List)):
            k = sum(1 for e in x.iter.elts if isinstance(e, ast.Attribute) and e.attr == target.name)
            if k and isinstance(x.target, ast.Name) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == x.target.id for c in ast.walk(x)):
                n += k
    if n == 1:
        return True, ""
    return (False, "is never run") if n == 0 else (False, "runs more than once")


def state(p, rep, k, stages):
    """attributes of the parser: assigned in the constructor or an earlier stage"""
    f = k.lookup("parse")
    order = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in stages:
            order.append((n.lineno, n.col_offset, n.attr))
    order = [a for _, _, a in sorted(order)]
    have = set()
    init = [m for c in k.mro() for n, m in c.methods.items() if n == "__init__"]
    reads, writes = {}, {}
    for s in stages:
        m = k.lookup(s)
        reads[s], writes[s] = attrs(p, m)
    for m in init:
        have |= attrs(p, m)[1]
    for s in order:
        for a, node, fn in reads[s]:
            if a in k_methods(k) or a in class_attrs(k):
                continue
            ok = a in have or a in writes[s] and written_before(fn, a, node)
            rep.ob("R5-state", f"{k.name}.{s}: {a}", ok, f"{k.name}.{s} reads {a}, which no earlier stage has stored", fn.loc(node), key=f"R5:{k.name}.{s}:{a}")
        have |= writes[s]
    rep.ob("R5-state", f"{k.name}: order", True)


def k_methods(k):
    out = set()
    for c in k.mro():
        for n in c.methods:
            out.add(n)
    return out


def class_attrs(k):
    out = set()
    for c in k.mro():
        for s in c.node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        out.add(t.id)
                        out.add(f"_{c.name.lstrip('_')}{t.id}")
    return out


def mangled(m, a):
    return f"_{m.cls.name.lstrip('_')}{a}" if a.startswith("__") and not a.endswith("__") else a


def attrs(p, m):
    r, w = [], set()
    for n in p.own_nodes(m):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            a = mangled(m, n.attr)
            if isinstance(n.ctx, ast.Store):
                w.add(a)
            elif isinstance(n.ctx, ast.Load):
                r.append((a, n, m))
    return r, w


def written_before(f, a, node):
    g = cfg_of(f)
    ws = [n for n in g.nodes for e in [n.ast] if e is not None and isinstance(e, (ast.Assign, ast.AnnAssign))
          and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and mangled(f, x.attr) == a for x in ast.walk(e))]
    return any(getattr(n.ast, "lineno", 0) < node.lineno for n in ws)


def same_steps(p, rep, kinds, stages, traces):
    """for every stage, the functions that fill a repository are those of the XML parser; the reading of facts differs by syntax, but fills the same repositories"""
    ref = next((k for k in kinds if not k.name.upper().startswith("XHTML")), None)
    if ref is None:
        raise AnalysisError("the XML parser was not found")

    def leaves(k, s):
        t, ev = traces[k]
        m = k.lookup(s)
        return [e for e in t.events(m) if e.repo not in SKIP and e.kind == "w"]
    for k in kinds:
        if k is ref:
            continue
        for s in stages:
            a, b = leaves(ref, s), leaves(k, s)
            la, lb = {(e.leaf, e.repo) for e in a}, {(e.leaf, e.repo) for e in b}
            inner_b = {e.leaf for e in b}
            common = {e.leaf for e in a} & inner_b
            for f, r in sorted(la, key=lambda x: (x[0].qualname, x[1])):
                syntax = "fact" in s
                ok = (f, r) in lb or syntax and any(r == y for x, y in lb) and (not common or f not in {g for g in common})
                rep.ob("R4-same-steps", f"{s}: {f.qualname} fills {r}", ok, f"{k.name}.{s} does not run {f.qualname}, which fills the {r} when an XML filing is parsed", k.lookup(s).loc(), key=f"R4:{k.name}.{s}:{f.qualname}:{r}")
            # steps common to both run on every path
            t, _ = traces[k]
            m, n = k.lookup(s), ref.lookup(s)
            shared = direct(p, t, m) & direct(p, traces[ref][0], n)
            for g in sorted(shared, key=lambda g: g.qualname):
                if not [e for e in t.events(g) if e.kind == "w" and e.repo not in SKIP]:
                    continue
                for kk, mm in ((k, m), (ref, n)):
                    ok, why = reach(p, traces[kk][0], mm, g)
                    rep.ob("R3-every-stage-once", f"{kk.name}.{s}: {g.qualname}", ok, f"{kk.name}.{s}: the step {g.qualname} {why}", mm.loc(), key=f"R3:{kk.name}.{s}:{g.qualname}")
        # outside of the stages (constructor): the same repositories are filled
        def prep(k):
            return {e.repo for e in traces[k][1] if e.kind == "w" and not any(f.name in stages for f, c in e.path)}
        for r in sorted(prep(ref)):
            rep.ob("R4-same-steps", f"before the stages: {r}", r in prep(k), f"creating {k.name} does not fill the {r} as creating {ref.name} does", k.lookup("__init__").loc(), key=f"R4:{k.name}:{r}")


def direct(p, t, f):
    out = set()
    for c in p.calls_in(f):
        out |= set(t.callees(f, c))
    return out
