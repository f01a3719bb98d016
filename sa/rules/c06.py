"""C06: every fact element (context, unit) is stored or reported, once, to the end."""
import ast
from ..project import AnalysisError
from .. import cfg as C, entry
from ..settle import Settle, ANY, TooMany, emptiness
from .. import select_facts


def methods(p, cls, names):
    c = p.cls(cls)
    return {m for k in [c] + list(c.all_subclasses()) for n, m in k.methods.items() if n in names}


class Sinks:
    def __init__(self, p):
        self.p = p
        self.report = methods(p, "ErrorRepository", {"insert"})
        self.fact = methods(p, "FactRepository", {"upsert", "insert", "add"})
        self.context = methods(p, "ContextRepository", {"insert_context", "upsert", "insert", "add"})
        self.char = methods(p, "CharacteristicRepository", {"upsert", "insert", "add"})
        if not (self.report and self.fact and self.context and self.char):
            raise AnalysisError("repositories of facts, contexts, units or errors not found")
        self.unit = p.cls("UnitCharacteristic")

    def boolean(self, g):
        r = g.node.returns
        return isinstance(r, ast.Name) and r.id == "bool"

    def done(self, g):
        return [(1, frozenset("T")), (0, frozenset("F"))] if self.boolean(g) else [(1, ANY)]

    def sink(self, kind):
        def s(f, call, g):
            if g is None:
                return None
            if g in self.report:
                return "report"
            if kind == "fact" and g in self.fact:
                return self.done(g)
            if kind == "context" and g in self.context:
                return self.done(g)
            if g in self.char:
                if kind == "unit" and self.is_unit(f, call):
                    return self.done(g)
                return [(0, ANY)]
            return None
        return s

    def is_unit(self, f, call):
        for a in list(call.args) + [k.value for k in call.keywords]:
            names = self.p.type_names(f.module, a) - {"None"}
            if names and all(n in self.p.classes and self.p.classes[n].is_subclass_of(self.unit) for n in names):
                return True
        return False


def reachable(p, f):
    """functions a parsing step reaches (nested functions and lambdas included)"""
    seen, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.append(g)
        for c in (n for n in ast.walk(g.node) if isinstance(n, ast.Call)):
            for h in p.callees(g, c):
                if h not in seen:
                    todo.append(h)
        todo.extend(g.nested.values())
    return seen


def heads(f):
    return [n for n in C.cfg_of(f).nodes if n.kind in ("for", "loop")]


KINDS = ("fact", "context", "unit")


def check(p, rep, tier):
    rep.rule("settled", "Each round of a loop that stores facts (contexts, units) ends with the element of that round stored or with an error reported.", floor=4)
    rep.rule("once", "No round of such a loop stores its element twice.", floor=4)
    rep.rule("to-the-end", "Such a loop, and every loop around it, is never left before its last element, except by raising.", floor=5)
    rep.rule("reached", "The loop is reached on every path through the parsing step that reports nothing and on which there is something to look at.", floor=4)
    rep.rule("sorted", "Where the children of a header element are sorted into lists, each is put into a list or reported.", floor=2)
    rep.rule("selected", "The elements facts are built from are all the fact elements of all documents, at any depth, found whatever prefixes a document uses.", floor=2)
    rep.rule("kept", "The fact store keeps every fact it is given and returns them all.", floor=1)
    S = Sinks(p)
    found = {}
    duties = []
    for c, f in entry.entries(p, "parse_facts"):
        fs = reachable(p, f)
        for g in fs:
            rep.saw("functions", g.fullname)
        for kind in KINDS:
            n = loops(p, rep, S, c, f, fs, kind, duties)
            found[(c.name, kind)] = n
        if not found[(c.name, "fact")]:
            raise AnalysisError(f"{c.name}.parse_facts: no loop that stores facts found")
        sorting(p, rep, S, c, fs)
        select_facts.selection(p, rep, S, c, duties, fs)
        duties.clear()
    select_facts.check(p, rep)


def loops(p, rep, S, c, entry_f, fs, kind, duties):
    A = Settle(p, S.sink(kind))
    duty = {}                   # f -> [heads with direct stores]
    for f in fs:
        for h in heads(f):
            try:
                r = A.run(f, h)
            except TooMany:
                rep.saw("given up", f"{f.fullname}:{h.lineno}")
                continue
            if r["mark"]:
                duty.setdefault(f, []).append((h, r))
    chain = set(duty)           # functions that contain such a loop, or call one
    again = True
    while again:
        again = False
        for f in fs:
            if f not in chain and any(g in chain for n in ast.walk(f.node) if isinstance(n, ast.Call) for g in p.callees(f, n)):
                chain.add(f)
                again = True
    total = 0
    for f, hs in duty.items():
        for h, r in hs:
            total += 1
            duties.append((f, h, kind))
            key = f"{kind}:{f.qualname}"
            where = f"{c.name}: {f.fullname} ({kind}s)"
            loc = f.loc(h.ast)
            bad = [(s, w) for s, w in r["iter"] if not s[0] and not s[1]]
            rep.ob("settled", where, not bad, f"{f.qualname}: a round of the loop over {kind} elements can end without storing and without reporting an error"
                   + path(r, bad), loc, key="settled:" + key)
            twice = [(s, w) for s, w in r["iter"] if s[0] > 1]
            rep.ob("once", where, not twice, f"{f.qualname}: a round of the loop over {kind} elements can store twice" + path(r, twice), loc, key="once:" + key)
    for f in chain:
        cg = C.cfg_of(f)
        dh = [h for h, _ in duty.get(f, [])]
        hot = set()
        for n in cg.nodes:
            if n in dh or any(g in chain for e in C.node_exprs(n) for x in ast.walk(e) if isinstance(x, ast.Call) for g in p.callees(f, x)):
                hot.add(n)
        around = [h for h in heads(f) if h in dh or any(id(h.ast) in n.loops for n in hot if n is not h)]
        for h in around:
            r = next((r for d, r in duty.get(f, []) if d is h), None) or A.run(f, h)
            early = [(s, w) for s, w in r["break"] + r["leave"] if not normal_exit(h, w)]
            rep.ob("to-the-end", f"{c.name}: {f.fullname} ({kind}s), loop over {ast.unparse(h.ast.iter)[:40] if h.kind == 'for' else 'while'}", not early,
                   f"{f.qualname}: the loop over the {kind} elements can be left before the last one" + path(r, early), f.loc(h.ast),
                   key=f"to-the-end:{kind}:{f.qualname}")
        try:
            r = A.run(f, None, avoid=hot | set(around), cut=lambda n, lab: emptiness(n, lab))
        except TooMany:
            continue
        missed = [o for o in r["return"] if not o[0] and not o[1]]
        rep.ob("reached", f"{c.name}: {f.fullname} ({kind}s)", not missed, f"{f.qualname} can return without looking at the {kind} elements and without reporting an error",
               f.loc(), key=f"reached:{kind}:{f.qualname}")
    return total


def normal_exit(h, w):
    """leaving a while loop because its own condition is false"""
    if h.kind != "loop" or w is None:
        return False
    return w[0].kind == "cond" and any(w[0].ast is x for x in ast.walk(h.ast.test))


def path(r, hits):
    if not hits:
        return ""
    steps = Settle.path(r, hits[0][1])
    return " (via line " + ", ".join(str(l) for _, l in steps) + ")" if steps else ""


def sorting(p, rep, S, c, fs):
    """loops that put their own variable into lists and report otherwise"""
    def sink(f, call, g):
        if g is not None and g in S.report:
            return "report"
        if g is None and isinstance(call.func, ast.Attribute) and call.func.attr in ("append", "add", "appendleft") and len(call.args) == 1 \
                and isinstance(call.args[0], ast.Name) and call.args[0].id in targets(f):
            return [(1, frozenset("N"))]
        return None
    A = Settle(p, sink)
    for f in fs:
        for h in heads(f):
            if h.kind != "for" or not isinstance(h.ast.target, ast.Name):
                continue
            try:
                r = A.run(f, h)
            except TooMany:
                continue
            own = [m for m in r["mark"] if m.args and isinstance(m.args[0], ast.Name) and m.args[0].id == h.ast.target.id]
            lists = {ast.unparse(m.func.value) for m in own}
            if len(lists) < 2 or not any(s[1] and not s[0] for s, _ in r["iter"]):
                continue
            bad = [(s, w) for s, w in r["iter"] if not s[0] and not s[1]]
            early = [(s, w) for s, w in r["break"] + r["leave"]]
            rep.ob("sorted", f"{c.name}: {f.fullname}", not bad and not early,
                   f"{f.qualname}: an element can be dropped while the children are sorted into {', '.join(sorted(lists))}" + path(r, bad + early),
                   f.loc(h.ast), key=f"sorted:{f.qualname}")


def targets(f):
    return {x.id for n in ast.walk(f.node) if isinstance(n, ast.For) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
