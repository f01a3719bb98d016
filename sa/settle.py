"""What has become of the element of one loop iteration when the iteration ends: stored, reported, both, or nothing.

A disjunctive abstract interpretation of the control-flow graph: a state is (times stored, reported?, what is known about
variables: None / false / true).  Calls are replaced by the set of outcomes of their callees."""
import ast
from . import cfg as C

ANY = frozenset("NFT")
LIMIT = 4000


class TooMany(Exception):
    pass


class Settle:
    stmt_sink = None            # (f, stmt) -> how often the statement itself stores

    def __init__(self, p, sink):
        """sink(f, call, g) -> None | 'report' | list of (stored, ret kinds)   for a callee g (None: unresolved)"""
        self.p, self.sink = p, sink
        self.memo = {}
        self.busy = set()
        self.live = {}
        self.mark = None

    # ---- values
    def truthy(self, cls):
        return not any(c.methods.get(m) for c in cls.mro() for m in ("__bool__", "__len__"))

    def kinds_of_type(self, f, e):
        names = self.p.type_names(f.module, e)
        if not names or names & {"Any", "?"}:
            return ANY
        out = set()
        for n in names:
            if n == "None":
                out.add("N")
            elif n in self.p.classes and all(self.truthy(c) for c in [self.p.classes[n]] + list(self.p.classes[n].all_subclasses())):
                out.add("T")
            else:
                out |= {"F", "T"}
        return frozenset(out)

    # ---- calls
    def outcomes(self, f, call):
        """[(stored, reported, ret)]"""
        p = self.p
        gs = p.callees(f, call)
        out = set()
        r = p.resolve_expr(f.module, call.func, f) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        special = False
        for g in gs or [None]:
            s = self.sink(f, call, g)
            if s == "report":
                out.add((0, True, ANY))
                special = True
            elif s is not None:
                out |= {(n, False, k) for n, k in s}
                special = True
        if special:
            return out
        if r is not None and r[0] == "class":
            return {(0, False, frozenset("T") if self.truthy(r[1]) else frozenset("FT"))}
        for g in gs:
            if g.is_abstract:
                continue
            out |= self.summary(g)
        if not out:
            return {(0, False, self.kinds_of_type(f, call))}
        return out

    def summary(self, g):
        if g in self.memo:
            return self.memo[g]
        if g in self.busy:
            return {(0, False, ANY)}
        self.busy.add(g)
        mark = self.mark
        try:
            fx = self.run(g)
            out = fx["return"] or {(0, False, ANY)}
        except TooMany:
            out = {(0, True, ANY)}
        finally:
            self.busy.discard(g)
            self.mark = mark
        self.memo[g] = out
        return out

    # ---- expressions: [(state, kinds)]; state = (stored, reported, env)
    def ev(self, f, e, s, count):
        if e is None:
            return [(s, frozenset("N"))]
        if isinstance(e, ast.Constant):
            return [(s, frozenset("N") if e.value is None else frozenset("T") if e.value else frozenset("F"))]
        if isinstance(e, ast.Name):
            k = dict(s[2]).get(e.id)
            return [(s, k if k is not None else self.kinds_of_type(f, e))]
        if isinstance(e, ast.Lambda):
            return [(s, frozenset("T"))]
        if isinstance(e, ast.NamedExpr):
            return [(self.bind(s1, e.target.id, k), k) for s1, k in self.ev(f, e.value, s, count)]
        if isinstance(e, ast.IfExp):
            out = []
            for lab, br in ((True, e.body), (False, e.orelse)):
                for s1 in self.branch(f, e.test, s, lab, count):
                    out += self.ev(f, br, s1, count)
            return out
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, cur = [], [s]
            for i, v in enumerate(e.values):
                nxt = []
                for s0 in cur:
                    for s1, k in self.ev(f, v, s0, count):
                        if i == len(e.values) - 1:
                            out.append((s1, k))
                            continue
                        stop = k & frozenset("NF") if isand else k & frozenset("T")
                        go = k - stop
                        if stop:
                            for s2 in self.refine(f, v, s1, not isand):
                                out.append((s2, stop))
                        if go:
                            nxt += self.refine(f, v, s1, isand)
                cur = list(dict.fromkeys(nxt))
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            flip = {"N": "T", "F": "T", "T": "F"}
            return [(s1, frozenset(flip[x] for x in k)) for s1, k in self.ev(f, e.operand, s, count)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = [s]
            sub = [g.iter for g in e.generators[:1]]
            for x in sub:
                cur = [s1 for s0 in cur for s1, _ in self.ev(f, x, s0, count)]
            rest = [g.iter for g in e.generators[1:]] + [c for g in e.generators for c in g.ifs] + ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])
            post = cur
            for x in rest:
                post = list(dict.fromkeys(s1 for s0 in post for s1, _ in self.ev(f, x, s0, False)))
            return [(x, frozenset("FT")) for x in dict.fromkeys(cur + post)]
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [(s1, frozenset("T") if e.elts else frozenset("F")) for s1 in self.seq(f, e.elts, s, count)]
        if isinstance(e, ast.Call):
            parts = ([e.func.value] if isinstance(e.func, ast.Attribute) else [] if isinstance(e.func, ast.Name) else [e.func]) + \
                    [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            res = []
            for s1 in self.seq(f, parts, s, count):
                for n, r, k in self.outcomes(f, e):
                    if n and self.mark is not None and count:
                        self.mark.append(e)
                    res.append(((min(2, s1[0] + (n if count else 0)), s1[1] or r, s1[2]), k))
            return list(dict.fromkeys(res))
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None:
            pos = isinstance(e.ops[0], ast.Is)
            out = []
            for s1, k in self.ev(f, e.left, s, count):
                for lab in (True, False):
                    hit = k & frozenset("N") if lab == pos else k - frozenset("N")
                    if hit:
                        out += [(s2, frozenset("T" if lab else "F")) for s2 in self.refine(f, e, s1, lab)]
            return out
        kids = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        k = frozenset("FT") if isinstance(e, (ast.Compare, ast.JoinedStr)) else self.kinds_of_type(f, e)
        return [(s1, k) for s1 in self.seq(f, kids, s, count)]

    def seq(self, f, es, s, count):
        cur = [s]
        for x in es:
            if isinstance(x, (ast.Constant, ast.Name)):
                continue
            cur = list(dict.fromkeys(s1 for s0 in cur for s1, _ in self.ev(f, x, s0, count)))
        return cur

    def bind(self, s, name, k):
        env = {n: v for n, v in s[2] if n != name and not (n.startswith("?") and name in n.split("|", 1)[0][1:].split(","))}
        if k is not None and k != ANY:
            env[name] = k
        return (s[0], s[1], frozenset(env.items()))

    def memo_key(self, f, e):
        if self.pure(e):
            names = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)})
            return "?" + ",".join(names) + "|" + ast.unparse(e)
        return None

    def pure(self, e):
        return isinstance(e, (ast.Compare, ast.Name, ast.Attribute)) and not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Subscript, ast.Await)) for x in ast.walk(e))

    def refine(self, f, e, s, lab):
        """states in which e has the truth value lab (e already evaluated)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(f, e.operand, s, not lab)
        if isinstance(e, ast.NamedExpr):
            return self.refine(f, e.target, s, lab)
        if isinstance(e, ast.Name):
            k = dict(s[2]).get(e.id) or self.kinds_of_type(f, e)
            k = k & (frozenset("T") if lab else frozenset("NF"))
            return [self.bind_keep(s, e.id, k)] if k else []
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            isn = isinstance(e.ops[0], (ast.Is, ast.Eq)) == lab
            k = dict(s[2]).get(e.left.id) or self.kinds_of_type(f, e.left)
            k = k & (frozenset("N") if isn else frozenset("FT"))
            return [self.bind_keep(s, e.left.id, k)] if k else []
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            if isand == lab:
                cur = [s]
                for v in e.values:
                    cur = [t for x in cur for t in self.refine(f, v, x, lab)]
                return cur
            return [s]
        mk = self.memo_key(f, e)
        if mk is not None:
            known = dict(s[2]).get(mk)
            if known is not None:
                return [s] if ("T" in known) == lab else []
            return [(s[0], s[1], s[2] | {(mk, frozenset("T" if lab else "F"))})]
        return [s]

    def bind_keep(self, s, name, k):
        env = dict(s[2])
        env[name] = k
        return (s[0], s[1], frozenset(env.items()))

    def branch(self, f, e, s, lab, count):
        out = []
        want = frozenset("T") if lab else frozenset("NF")
        for s1, k in self.ev(f, e, s, count):
            if k & want:
                out += self.refine(f, e, s1, lab)
        return list(dict.fromkeys(out))

    # ---- nodes
    def liveness(self, f):
        r = self.live.get(f)
        if r is None:
            c = C.cfg_of(f)
            use = {n: {x.id for x in C.uses(n)} for n in c.nodes}
            for n in c.nodes:
                if n.kind == "for":
                    use[n] = set()
            dfs = {n: C.defs(n) for n in c.nodes}
            lin = {n: set() for n in c.nodes}
            todo = list(c.nodes)
            while todo:
                n = todo.pop()
                out = set()
                for q, _ in n.succ:
                    out |= lin[q]
                new = use[n] | (out - dfs[n])
                if any(l == "exc" for _, l in n.succ):
                    new |= out
                if new != lin[n]:
                    lin[n] = new
                    todo += [q for q, _ in n.pred]
            texts = {}
            for n in c.nodes:
                if n.kind == "cond":
                    mk = self.memo_key(f, n.ast)
                    if mk:
                        texts[mk] = texts.get(mk, 0) + 1
            # a condition tested once is not worth remembering, unless it is inside a loop with others of the same text
            r = self.live[f] = (lin, {t for t, k in texts.items() if k > 1})
        return r

    def prune(self, f, n, s):
        lin, texts = self.liveness(f)
        l = lin[n]
        return (s[0], s[1], frozenset((k, v) for k, v in s[2] if (k[0] == "?" and k in texts and all(x in l for x in k[1:].split("|", 1)[0].split(",") if x)) or (k[0] != "?" and k in l)))

    def step(self, f, n, s, count):
        """{label: [states]} after node n; 'return' nodes give [(state, kinds)] under 'ret'"""
        a = n.ast
        if n.kind == "cond":
            return {True: self.branch(f, a, s, True, count), False: self.branch(f, a, s, False, count)}
        if n.kind == "for":
            for x in C.defs(n):
                s = self.bind(s, x, None)
            return {None: [s]}
        if n.kind in ("return",):
            return {"ret": self.ev(f, a.value, s, count)}
        if n.kind == "with":
            cur = [s]
            for i in a.items:
                cur = [s1 for s0 in cur for s1, _ in self.ev(f, i.context_expr, s0, count)]
            for x in C.defs(n):
                cur = [self.bind(s0, x, None) for s0 in cur]
            return {None: cur}
        if n.kind in ("handler", "def", "case"):
            for x in C.defs(n):
                s = self.bind(s, x, frozenset("T") if n.kind != "case" else None)
            return {None: [s]}
        if n.kind == "stmt":
            if isinstance(a, (ast.Assign, ast.AnnAssign)):
                if a.value is None:
                    return {None: [s]}
                tg = a.targets if isinstance(a, ast.Assign) else [a.target]
                out = []
                for s1, k in self.ev(f, a.value, s, count):
                    for t in tg:
                        if isinstance(t, ast.Name):
                            s1 = self.bind(s1, t.id, k)
                        else:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                    s1 = self.bind(s1, x.id, None)
                    out.append(s1)
                return {None: out}
            if isinstance(a, ast.AugAssign):
                out = []
                hit = self.stmt_sink(f, a) if self.stmt_sink and count else 0
                if hit and self.mark is not None:
                    self.mark.append(a)
                for s1, k in self.ev(f, a.value, s, count):
                    s1 = (min(2, s1[0] + hit), s1[1], s1[2])
                    out.append(self.bind(s1, a.target.id, None) if isinstance(a.target, ast.Name) else s1)
                return {None: out}
            e = a.value if isinstance(a, ast.Expr) else None
            if e is not None:
                return {None: [s1 for s1, _ in self.ev(f, e, s, count)]}
            for x in C.defs(n):
                s = self.bind(s, x, None)
            return {None: [s]}
        return {None: [s]}

    def may_raise(self, n):
        return any(isinstance(x, (ast.Call, ast.Subscript, ast.Raise, ast.BinOp)) for e in (C.node_exprs(n) or ([n.ast] if n.kind == "raisestmt" else [])) for x in ast.walk(e)) \
            or n.kind in ("raisestmt", "for", "with")

    def run(self, f, head=None, avoid=None, cut=None):
        """Run f (or the body of the loop with this head).
        -> {'return': {(stored, reported, kinds)}, 'iter': states at the end of an iteration, 'break': [...], 'leave': [...], 'mark': calls that store}"""
        c = C.cfg_of(f)
        base = (head.loops + (id(head.ast),)) if head is not None else ()
        s0 = (0, False, frozenset())
        seen = {}
        todo = []
        res = {"return": set(), "iter": [], "break": [], "leave": [], "mark": []}
        why = {}

        def push(n, s, prev):
            s = self.prune(f, n, s)
            if s in seen.setdefault(n, set()):
                return
            seen[n].add(s)
            why[(n, s)] = prev
            if sum(len(x) for x in seen.values()) > LIMIT:
                raise TooMany(f.fullname)
            todo.append((n, s))
        inside = lambda n: head is None or n.loops[:len(base)] == base

        def go(m, lab, s, n, pre):
            if head is not None and m is head:
                res["iter"].append((s, (n, pre)))
            elif m is c.raises:
                pass
            elif not inside(m):
                res["leave" if m is c.exit else "break"].append((s, (n, pre)))
            else:
                push(m, s, (n, pre))
        if head is None:
            push(c.entry, s0, None)
        else:
            for m, lab in head.succ:
                if lab == "body" or (head.kind == "loop"):
                    push(m, s0, None)
        while todo:
            n, s = todo.pop()
            if avoid is not None and n in avoid:
                continue
            direct = n.loops == base
            if n is c.exit:
                res["return"].add((s[0], s[1], frozenset("N")))
                continue
            self.mark = res["mark"] if direct else None
            out = self.step(f, n, s, direct)
            self.mark = None
            for m, lab in n.succ:
                if cut is not None and cut(n, lab):
                    continue
                if lab == "exc":
                    if self.may_raise(n):
                        go(m, lab, s, n, s)
                    continue
                if "ret" in out:
                    for s1, k in out["ret"]:
                        if head is None and m is c.exit:
                            res["return"].add((s1[0], s1[1], k))
                        else:
                            go(m, lab, s1, n, s)
                    continue
                key = lab if lab in out else None
                for s1 in dict.fromkeys(out.get(key, [])):
                    go(m, lab, s1, n, s)
        res["why"] = why
        return res

    @staticmethod
    def path(res, prev, limit=14):
        out = []
        while prev is not None:
            n = prev[0]
            if n.lineno and n.kind in ("cond", "for", "return", "handler"):
                lab = "?"
                out.append((n.kind, n.lineno))
            prev = res["why"].get(prev)
        out.reverse()
        return out[-limit:]


def emptiness(n, lab):
    """an edge taken only when a collection is empty: nothing to look at"""
    if n.kind != "cond":
        return False
    e = n.ast
    ln = lambda x: isinstance(x, ast.Name) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len")
    if isinstance(e, ast.Name) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "any", "bool")):
        return lab is False
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and ln(e.left) and isinstance(e.comparators[0], ast.Constant):
        v, op = e.comparators[0].value, e.ops[0]
        if v == 0 and isinstance(op, (ast.Eq, ast.LtE)) or v == 1 and isinstance(op, ast.Lt):
            return lab is True
        if v == 0 and isinstance(op, (ast.Gt, ast.NotEq)) or v == 1 and isinstance(op, ast.GtE):
            return lab is False
    return False
