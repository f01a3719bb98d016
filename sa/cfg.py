"""Control-flow graph of one function.  Conditions are decomposed into atoms;
statements inside try bodies have exceptional edges to their handlers."""
from __future__ import annotations
import ast


class Node:
    __slots__ = ("kind", "ast", "succ", "pred", "idx", "loops", "tries", "handlers")

    def __init__(self, kind, a, idx, loops):
        self.kind, self.ast, self.idx = kind, a, idx
        self.succ = []     # (node, label)
        self.pred = []
        self.loops = loops

    @property
    def lineno(self):
        return getattr(self.ast, "lineno", 0)

    def __repr__(self):
        return f"<{self.kind}@{self.lineno}>"


class CFG:
    """kinds: entry, exit, raise, stmt, cond, for, with, handler, return, except"""

    def __init__(self, func_node):
        self.nodes = []
        self.func = func_node
        self.loopstack = []
        self.entry = self.new("entry", func_node)
        self.exit = self.new("exit", func_node)
        self.raises = self.new("raise", func_node)
        self.trystack = []          # list of handler-entry lists
        self.finstack = []
        self.loop_nodes = {}        # ast loop -> head node
        body = func_node.body if isinstance(func_node.body, list) else [ast.Expr(value=func_node.body)]
        out = self.block(body, [(self.entry, None)])
        for n, l in out:
            self.edge(n, self.exit, l)

    def new(self, kind, a):
        n = Node(kind, a, len(self.nodes), tuple(self.loopstack))
        self.nodes.append(n)
        if getattr(self, "trystack", None) and kind in ("stmt", "cond", "for", "with", "return", "raisestmt"):
            for h in self.trystack[-1]:
                self.edge(n, h, "exc")
        return n

    def edge(self, a, b, label=None):
        if (b, label) not in a.succ:
            a.succ.append((b, label))
            b.pred.append((a, label))

    def link(self, outs, n):
        for a, l in outs:
            self.edge(a, n, l)

    def block(self, stmts, outs):
        for s in stmts:
            if not outs:
                break
            outs = self.stmt(s, outs)
        return outs

    def cond(self, e, outs):
        """-> (true outs, false outs)"""
        if isinstance(e, ast.BoolOp):
            t, f = [], []
            cur = outs
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                tt, ff = self.cond(v, cur)
                if isand:
                    f += ff
                    cur = tt
                else:
                    t += tt
                    cur = ff
            return (cur, f) if isand else (t, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, outs)
            return f, t
        if isinstance(e, ast.Constant):
            n = self.new("cond", e)
            self.link(outs, n)
            return ([(n, True)], []) if e.value else ([], [(n, False)])
        n = self.new("cond", e)
        self.link(outs, n)
        return [(n, True)], [(n, False)]

    def stmt(self, s, outs):
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, outs)
            a = self.block(s.body, t)
            b = self.block(s.orelse, f)
            return a + b
        if isinstance(s, ast.While):
            head = self.new("loop", s)
            self.link(outs, head)
            self.loop_nodes[id(s)] = head
            self.loopstack.append(id(s))
            self.brk = getattr(self, "brk", [])
            self.brk.append(([], head))
            t, f = self.cond(s.test, [(head, None)])
            b = self.block(s.body, t)
            self.loopstack.pop()
            for n, l in b:
                self.edge(n, head, l if l is not None else "back")
            br, _ = self.brk.pop()
            return self.block(s.orelse, f) + br
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.new("stmt", ast.copy_location(ast.Expr(value=s.iter), s.iter))
            self.link(outs, it)
            head = self.new("for", s)
            self.edge(it, head)
            self.loop_nodes[id(s)] = head
            self.loopstack.append(id(s))
            self.brk = getattr(self, "brk", [])
            self.brk.append(([], head))
            b = self.block(s.body, [(head, "body")])
            self.loopstack.pop()
            for n, l in b:
                self.edge(n, head, l if l is not None else "back")
            br, _ = self.brk.pop()
            return self.block(s.orelse, [(head, "exit")]) + br
        if isinstance(s, ast.Break):
            self.brk[-1][0].extend(outs)
            return []
        if isinstance(s, ast.Continue):
            self.link(outs, self.brk[-1][1])
            return []
        if isinstance(s, ast.Return):
            n = self.new("return", s)
            self.link(outs, n)
            o = [(n, None)]
            for fb in reversed(self.finstack):
                o = self.block(fb, o)
            self.link(o, self.exit)
            return []
        if isinstance(s, ast.Raise):
            n = self.new("raisestmt", s)
            self.link(outs, n)
            if not self.trystack:
                self.edge(n, self.raises)
            return []
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            heads = []
            hs = []
            for h in s.handlers:
                n = Node("handler", h, len(self.nodes), tuple(self.loopstack))
                self.nodes.append(n)
                heads.append(n)
                hs.append(h)
            if s.finalbody:
                fx = Node("handler", s, len(self.nodes), tuple(self.loopstack))
                self.nodes.append(fx)
            outer = list(self.trystack)
            catch_all = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")) for h in hs)
            targets = heads + ([fx] if s.finalbody and not catch_all else [])
            if not catch_all and outer and not s.finalbody:
                targets = targets + outer[-1]
            start = len(self.nodes)
            self.trystack.append(targets)
            if s.finalbody:
                self.finstack.append(s.finalbody)
            b = self.block(s.body, outs)
            self.trystack.pop()
            if not catch_all and not outer and not s.finalbody:
                for n in self.nodes[start:]:
                    if n.kind == "raisestmt":
                        self.edge(n, self.raises)
            b = self.block(s.orelse, b)
            res = list(b)
            for n, h in zip(heads, hs):
                res += self.block(h.body, [(n, None)])
            if s.finalbody:
                self.finstack.pop()
                res = self.block(s.finalbody, res)
                e = self.block(s.finalbody, [(fx, None)])
                for n, l in e:
                    self.edge(n, outer[-1][0] if outer and outer[-1] else self.raises, l)
            return res
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = self.new("with", s)
            self.link(outs, n)
            return self.block(s.body, [(n, None)])
        if isinstance(s, ast.Match):
            n = self.new("stmt", ast.copy_location(ast.Expr(value=s.subject), s))
            self.link(outs, n)
            res = []
            cur = [(n, None)]
            wild = False
            for c in s.cases:
                cn = self.new("case", c)
                self.link(cur, cn)
                t = [(cn, True)]
                ff = [(cn, False)]
                if c.guard is not None:
                    t, g = self.cond(c.guard, t)
                    ff = ff + g
                res += self.block(c.body, t)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    wild = True
                    break
                cur = ff
            return res + ([] if wild else cur)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            n = self.new("def", s)
            self.link(outs, n)
            return [(n, None)]
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, outs)
            for n, l in f:
                self.edge(n, self.raises, l)
            return t
        n = self.new("stmt", s)
        self.link(outs, n)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "exit":
            return []
        return [(n, None)]


def node_exprs(n):
    """expressions evaluated at a node"""
    a = n.ast
    if n.kind == "cond":
        return [a]
    if n.kind == "for":
        return []
    if n.kind == "with":
        return [i.context_expr for i in a.items]
    if n.kind in ("entry", "exit", "raise", "handler", "loop", "def", "case"):
        if n.kind == "def" and isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return []
        return []
    return [a]


def bound_in_comp(e):
    """names bound by comprehensions/lambdas inside e, per node id -> set (for scoping)"""
    return {}


def uses(n, into_defs=True):
    """names read at this node, with the ast.Name nodes (comprehension variables and lambda parameters excluded)"""
    out = []
    todo = [(x, frozenset()) for x in node_exprs(n)]
    if n.kind == "def" and into_defs:
        inner = {a.arg for a in n.ast.args.args + n.ast.args.kwonlyargs} if isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef)) else set()
        loc = inner | {x.id for x in ast.walk(n.ast) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        todo += [(b, frozenset(loc)) for b in n.ast.body]
    while todo:
        x, hide = todo.pop()
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) and x.id not in hide:
                out.append(x)
            continue
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.append(x.target)
            todo.append((x.value, hide))
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = hide | {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            todo.append((x.generators[0].iter, hide))
            for i, g in enumerate(x.generators):
                if i:
                    todo.append((g.iter, h))
                todo += [(c, h) for c in g.ifs]
            todo += [(x.key, h), (x.value, h)] if isinstance(x, ast.DictComp) else [(x.elt, h)]
            continue
        if isinstance(x, ast.Lambda):
            h = hide | {a.arg for a in x.args.args + x.args.kwonlyargs}
            todo.append((x.body, h))
            todo += [(d, hide) for d in x.args.defaults]
            continue
        todo += [(c, hide) for c in ast.iter_child_nodes(x)]
    return out


def defs(n):
    """names bound at this node"""
    a = n.ast
    if n.kind == "for":
        return {x.id for x in ast.walk(a.target) if isinstance(x, ast.Name)}
    if n.kind == "with":
        return {x.id for i in a.items if i.optional_vars is not None for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
    if n.kind == "handler":
        return {a.name} if isinstance(a, ast.ExceptHandler) and a.name else set()
    if n.kind == "def":
        return {a.name}
    if n.kind == "case":
        return {x.name for x in ast.walk(a.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
    out = set()
    if n.kind in ("stmt", "cond", "return"):
        todo = [a]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                todo += [y for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]
                continue
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(y.asname or y.name.split(".")[0]) for y in x.names}
            todo += list(ast.iter_child_nodes(x))
    return out


def cfg_of(f):
    c = getattr(f.node, "_cfg", None)
    if c is None:
        c = f.node._cfg = CFG(f.node)
    return c


def reaching(f):
    """{id(ast.Name load): [defining CFG nodes]} ('entry' node: parameter or unset)"""
    r = getattr(f.node, "_reach", None)
    if r is not None:
        return r
    c = cfg_of(f)
    ins = {n: {} for n in c.nodes}
    dd = {n: defs(n) for n in c.nodes}
    todo = list(c.nodes)
    while todo:
        n = todo.pop(0)
        cur = {}
        for q, lab in n.pred:
            src = dict(ins[q])
            if not (lab == "exc"):
                for v in dd[q]:
                    src[v] = frozenset({q})
            else:
                for v in dd[q]:
                    src[v] = src.get(v, frozenset()) | {q}
            for v, s in src.items():
                cur[v] = cur.get(v, frozenset()) | s
        if cur != ins[n]:
            ins[n] = cur
            todo.extend(s for s, _ in n.succ if s not in todo)
    out = {}
    for n in c.nodes:
        for x in uses(n):
            out[id(x)] = sorted(ins[n].get(x.id, frozenset({c.entry})), key=lambda z: z.idx)
    f.node._reach = out
    return out
