"""Forward may-analysis on the control-flow graph: values, keys and positions a
function has found missing (or cannot rule out missing) and goes on to use."""
from __future__ import annotations
import ast
from .cfg import cfg_of, defs, node_exprs
from .project import dotted

SAFE_CALLS = {"str", "repr", "bool", "isinstance", "type", "print", "id", "cast", "format", "hash", "callable"}
CRASH_CALLS = {"int", "float", "len", "iter", "next", "list", "set", "tuple", "dict", "sorted", "sum", "max", "min", "enumerate", "zip", "map", "filter", "reversed", "any", "all", "abs", "round"}


def opt_annotation(a):
    """does an annotation admit None?  None: unknown"""
    if a is None:
        return None
    s = ast.unparse(a)
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        s = a.value
    if "Optional" in s or "None" in s or s in ("Any", "object", "typing.Any") or "Any" == s.split("[")[0]:
        return True
    return False


def path(e):
    """stable access path of an expression: names and attribute chains"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = path(e.value)
        return b + "." + e.attr if b else None
    return None


class Null:
    def __init__(self, p, f, report_names=("insert",)):
        self.p, self.f = p, f
        self.c = cfg_of(f)
        self.single = {}
        cnt = {}
        for n in self.c.nodes:
            for v in defs(n):
                cnt[v] = cnt.get(v, 0) + 1
                a = n.ast
                if n.kind == "stmt" and isinstance(a, (ast.Assign, ast.AnnAssign)):
                    t = a.targets[0] if isinstance(a, ast.Assign) else a.target
                    if isinstance(t, ast.Name) and a.value is not None:
                        self.single[v] = a.value
        params = {n for n, k, a, d in f.params}
        self.single = {v: e for v, e in self.single.items() if cnt[v] == 1 and v not in params}
        self.hits = []       # (rule, ast node, text)
        self.origin = {}
        self.stats = {"refinements": 0, "uses": 0}

    # ---- optional origins
    def optional(self, e, st=frozenset()):
        """may the value of e be None (as declared by the project or known of lxml)?"""
        if isinstance(e, ast.Constant):
            return e.value is None
        if isinstance(e, ast.Call):
            cal = self.p.callees(self.f, e)
            if cal:
                return any(opt_annotation(g.node.returns) is True for g in cal if g.name != "__init__")
            if isinstance(e.func, ast.Attribute) and e.func.attr == "find" and e.args and not isinstance(e.args[0], ast.Constant) or \
                    isinstance(e.func, ast.Attribute) and e.func.attr == "find" and e.args and isinstance(e.args[0], ast.Constant) and self.is_element(e.func.value):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("getparent", "getnext", "getprevious"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr == "get" and len(e.args) == 1 and not e.keywords:
                t = self.p.type_names(self.f.module, e.func.value)
                if t & {"builtins.dict", "collections.defaultdict"} or self.is_element(e.func.value):
                    return True
            if dotted(e.func) in ("re.match", "re.search", "re.fullmatch") or (isinstance(e.func, ast.Attribute) and e.func.attr in ("fullmatch",) and False):
                return True
        if path(e) and ("ok", path(e)) in st:
            return False
        if isinstance(e, ast.Attribute) and e.attr in ("text", "tail") and self.is_element(e.value):
            return True
        if isinstance(e, ast.IfExp):
            return self.optional(e.body, self.refine(e.test, True, st)) or self.optional(e.orelse, self.refine(e.test, False, st))
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            return self.optional(e.values[-1], st)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            return any(self.optional(v, st) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.optional(e.value, st)
        return False

    def is_element(self, e):
        """is e an xml element?  By annotation, or iteration over one, or a search result"""
        if isinstance(e, ast.Name):
            for n, k, a, d in self.f.params:
                if n == e.id:
                    return a is not None and "_Element" in ast.unparse(a)
            v = self.single.get(e.id)
            if v is not None:
                return self.is_element(v)
            for n in self.c.nodes:
                if n.kind == "for" and isinstance(n.ast.target, ast.Name) and n.ast.target.id == e.id:
                    it = n.ast.iter
                    return self.is_element(it) or self.is_elements(it)
            return False
        if isinstance(e, ast.Call):
            cal = self.p.callees(self.f, e)
            if cal:
                return any(g.node.returns is not None and "_Element" in ast.unparse(g.node.returns) and "ist[" not in ast.unparse(g.node.returns) for g in cal)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("find", "getroot", "getparent"):
                return True
        if isinstance(e, ast.Subscript):
            return self.is_element(e.value) or self.is_elements(e.value)
        return False

    def is_elements(self, e):
        if isinstance(e, ast.Name):
            for n, k, a, d in self.f.params:
                if n == e.id:
                    return a is not None and "_Element" in ast.unparse(a)
            v = self.single.get(e.id)
            return v is not None and self.is_elements(v)
        if isinstance(e, ast.Call):
            cal = self.p.callees(self.f, e)
            if cal:
                return any(g.node.returns is not None and "_Element" in ast.unparse(g.node.returns) for g in cal)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("findall", "iterfind", "iter", "iterdescendants", "getchildren"):
                return True
            if dotted(e.func) == "list" and e.args:
                return self.is_element(e.args[0]) or self.is_elements(e.args[0])
        if isinstance(e, ast.ListComp):
            return len(e.generators) == 1 and isinstance(e.elt, ast.Name) and self.is_element(e.generators[0].iter)
        return False

    # ---- facts
    # state: frozenset of ("null", path) | ("absent", container text, key text, kind) | ("short", path, lower bound)
    def keytext(self, e):
        if isinstance(e, ast.Name) and e.id in self.single:
            v = self.single[e.id]
            if isinstance(v, (ast.Name, ast.Attribute)) or (isinstance(v, ast.Call) and len(ast.unparse(v)) < 200 and self.stable_call(v)):
                return self.keytext(v)
        return ast.unparse(e)

    def stable_call(self, e):
        return isinstance(e.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Lambda) for x in ast.walk(e))

    def names_in(self, text):
        try:
            return {x.id for x in ast.walk(ast.parse(text, mode="eval")) if isinstance(x, ast.Name)}
        except SyntaxError:
            return set()

    def refine(self, atom, val, st, depth=0):
        """state after atom evaluated to val"""
        if depth > 4:
            return st
        e = atom
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not val, st, depth)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for v in e.values:
                    st = self.refine(v, val, st, depth)
                return st
            outs = []
            cur = st
            for v in e.values:
                outs.append(self.refine(v, val, cur, depth))
                cur = self.refine(v, not val, cur, depth)
            out = outs[0]
            for o in outs[1:]:
                out = self.join(out, o)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.refine(e.target, val, st, depth)
        if isinstance(e, ast.Name) and e.id in self.single and isinstance(self.single[e.id], (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
            v = self.single[e.id]
            if not (isinstance(v, ast.Call) and not self.has_call(v) and dotted(v.func) not in ("isinstance", "bool")):
                st = self.refine(v, val, st, depth + 1)
        if isinstance(e, ast.Call) and dotted(e.func) == "bool" and len(e.args) == 1:
            return self.refine(e.args[0], val, st, depth)
        pt = path(e)
        if pt is not None:
            self.stats["refinements"] += 1
            if val:
                return self.with_len(self.nonnull(st, pt), pt, 1)
            return self.with_len(st, pt, 0)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                pt = path(l)
                isnull = isinstance(op, (ast.Is, ast.Eq)) == val
                if pt is None and isinstance(l, ast.NamedExpr):
                    pt = path(l.target)
                if pt is not None:
                    self.stats["refinements"] += 1
                    return frozenset(st | {("null", pt)}) if isnull else self.nonnull(st, pt)
                if isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr.startswith("get") and l.args:
                    # R.get_optional(k) is None: k is absent from R
                    t = self.absent(l)
                    return frozenset(st | {t}) if isnull else self.drop_absent(st, t)
                return st
            if isinstance(op, (ast.In, ast.NotIn)):
                inn = isinstance(op, ast.In) == val
                t = ("absent", ast.unparse(r), self.keytext(l), "[]")
                return self.drop_absent(st, t) if inn else frozenset(st | {t})
            n = self.len_of(l)
            if n is not None and isinstance(r, ast.Constant) and isinstance(r.value, int):
                return self.with_len(st, n, self.lower(op, r.value, val))
            n = self.len_of(r)
            if n is not None and isinstance(l, ast.Constant) and isinstance(l.value, int):
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                return self.with_len(st, n, self.lower(sw.get(type(op), type(op))(), l.value, val))
            # x == [] / x == ""
            if isinstance(r, (ast.List, ast.Constant)) and isinstance(op, (ast.Eq, ast.NotEq)):
                pt = path(l)
                if pt and isinstance(r, ast.Constant) and r.value is not None and (isinstance(op, ast.Eq) == val):
                    return self.nonnull(st, pt)
            return st
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d == "isinstance" and len(e.args) == 2:
                pt = path(e.args[0])
                if pt and val and "None" not in ast.unparse(e.args[1]):
                    return self.nonnull(st, pt)
                return st
            if d == "len" and e.args:
                pt = path(e.args[0])
                return self.with_len(st, pt, 1 if val else 0) if pt else st
            if self.has_call(e):
                t = self.absent(e)
                return self.drop_absent(st, t) if val else frozenset(st | {t})
        return st

    def has_call(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (e.func.attr == "has" or e.func.attr.startswith("has_")) and e.args or (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (e.func.id.startswith("has_") or e.func.id.startswith("is_")) and len(e.args) >= 2)

    def absent(self, e):
        kind = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id
        for pre in ("has_", "get_", "is_"):
            if kind.startswith(pre):
                kind = kind[len(pre):]
        if kind in ("has", "get"):
            kind = ""
        kind = kind.replace("_optional", "")
        recv = ast.unparse(e.func.value) if isinstance(e.func, ast.Attribute) else ""
        return ("absent", recv, ", ".join(self.keytext(a) for a in e.args), kind)

    def drop_absent(self, st, t):
        return frozenset(x for x in st if not (x[0] == "absent" and x[1] == t[1] and x[2].split(", ")[0] == t[2].split(", ")[0]))

    def len_of(self, e):
        if isinstance(e, ast.Call) and dotted(e.func) == "len" and len(e.args) == 1:
            return path(e.args[0])
        if isinstance(e, ast.Name) and e.id in self.single:
            return self.len_of(self.single[e.id]) if isinstance(self.single[e.id], ast.Call) else None
        return None

    def lower(self, op, k, val):
        t = type(op)
        if not val:
            t = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}.get(t, t)
        if t in (ast.Eq, ast.GtE):
            return k
        if t is ast.Gt:
            return k + 1
        if t is ast.NotEq and k == 0:
            return 1
        return 0

    def with_len(self, st, pt, k):
        cur = [x[2] for x in st if x[0] == "short" and x[1] == pt]
        m = max(cur + [k])
        return frozenset({x for x in st if not (x[0] == "short" and x[1] == pt)} | {("short", pt, m)})

    def nonnull(self, st, pt):
        return frozenset({x for x in st if not (x[0] == "null" and x[1] == pt)} | {("ok", pt)})

    def join(self, a, b):
        out = {x for x in a | b if x[0] not in ("short", "ok")} | {x for x in a & b if x[0] == "ok"}
        sa = {x[1]: x[2] for x in a if x[0] == "short"}
        sb = {x[1]: x[2] for x in b if x[0] == "short"}
        for k in set(sa) | set(sb):
            # no information on one side: that side has not been considered yet
            if k in sa and k in sb:
                out.add(("short", k, min(sa[k], sb[k])))
            else:
                out.add(("short", k, sa.get(k, sb.get(k))))
        return frozenset(out)

    def kill(self, st, v):
        return frozenset(x for x in st if not (
            (x[0] in ("null", "short", "ok") and (x[1] == v or x[1].startswith(v + "."))) or
            (x[0] == "absent" and v in self.names_in(x[1]) | self.names_in("(" + x[2] + ",)"))))

    # ---- transfer and sinks
    def transfer(self, n, st):
        a = n.ast
        for e in node_exprs(n):
            st = self.scan(e, st)
        for v in defs(n):
            st = self.kill(st, v)
        if n.kind == "stmt" and isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                pt = path(t)
                if pt is not None:
                    if isinstance(t, ast.Attribute):
                        st = self.kill(st, pt)
                    vp = path(a.value)
                    if self.optional(a.value, st) or (vp and ("null", vp) in st):
                        # an expression refined beforehand is not null
                        if not (isinstance(a.value, ast.Attribute) and vp and vp in getattr(self, "checked", {}).get(n.idx, ())):
                            st = frozenset(st | {("null", pt)})
                            self.origin[pt] = a
                elif isinstance(t, ast.Subscript):
                    st = frozenset(x for x in st if not (x[0] == "absent" and x[1] == ast.unparse(t.value)))
        return st

    def hit(self, rule, node, text):
        if self.final:
            self.hits.append((rule, node, text))

    def scan(self, e, st):
        """walk an expression in evaluation order, check sinks, return the state after it"""
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return st
        if isinstance(e, ast.BoolOp):
            cur = st
            for i, v in enumerate(e.values):
                self.scan(v, cur)
                cur = self.refine(v, isinstance(e.op, ast.And), cur)
            return st
        if isinstance(e, ast.IfExp):
            self.scan(e.test, st)
            self.scan(e.body, self.refine(e.test, True, st))
            self.scan(e.orelse, self.refine(e.test, False, st))
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = st
            for g in e.generators:
                self.use_iter(g.iter, cur)
                self.scan(g.iter, cur)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        cur = self.kill(cur, x.id)
                for c in g.ifs:
                    self.scan(c, cur)
                    cur = self.refine(c, True, cur)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.scan(x, cur)
            return st
        if isinstance(e, ast.Attribute):
            if not (e.attr.startswith("__") and e.attr.endswith("__")):
                self.null_use(e.value, st, "." + e.attr)
        elif isinstance(e, ast.Subscript):
            if isinstance(e.ctx, ast.Load):
                self.null_use(e.value, st, "[...]")
                self.index(e, st)
        elif isinstance(e, ast.Call):
            st = self.call(e, st)
        elif isinstance(e, ast.BinOp) and not isinstance(e.op, ast.Mod):
            self.null_use(e.left, st, "operand")
            self.null_use(e.right, st, "operand")
        elif isinstance(e, ast.Compare):
            for op, l, r in zip(e.ops, [e.left] + e.comparators, e.comparators):
                if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                    self.null_use(l, st, "ordering")
                    self.null_use(r, st, "ordering")
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.null_use(r, st, "membership")
        elif isinstance(e, ast.Starred):
            self.null_use(e.value, st, "iteration")
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr) or isinstance(x, ast.keyword) or isinstance(x, ast.stmt):
                st = self.scan(x, st)
        return st

    def use_iter(self, e, st):
        self.null_use(e, st, "iteration")

    def null_use(self, e, st, how):
        pt = path(e)
        self.stats["uses"] += 1
        if pt is not None and ("null", pt) in st:
            self.hit("null", e, f"'{pt}' may be missing where it is used ({how})")
        elif pt is None and isinstance(e, (ast.Call, ast.IfExp)) and self.optional(e) and self.strict(e):
            self.hit("null", e, f"the result of {ast.unparse(e)[:60]} may be missing where it is used ({how})")

    def strict(self, e):
        """direct use of a possibly missing result: project functions and element searches only"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("getparent", "get") and not self.p.callees(self.f, e):
            return False
        return True

    def call(self, e, st):
        fn = e.func
        d = dotted(fn) or ""
        self.null_use(fn, st, "call") if not isinstance(fn, ast.Attribute) else None
        cal = self.p.callees(self.f, e)
        if d in CRASH_CALLS and not cal:
            for a in e.args[:1]:
                self.null_use(a, st, d + "()")
        if d == "datetime.date.fromisoformat" or d.endswith("fromisoformat"):
            for a in e.args:
                self.null_use(a, st, d)
        if isinstance(fn, ast.Attribute) and fn.attr == "join" and e.args:
            self.null_use(e.args[0], st, "join")
        # project parameters that do not admit None
        for g in cal:
            ps = list(g.params)
            if g.cls is not None and not g.is_static and ps and (isinstance(fn, ast.Attribute) or g.name == "__init__"):
                ps = ps[1:]
            for i, a in enumerate(e.args):
                if isinstance(a, ast.Starred) or i >= len(ps) or ps[i][1] != "pos":
                    break
                self.param(g, ps[i], a, st)
            for kw in e.keywords:
                q = [x for x in ps if x[0] == kw.arg and x[1] in ("pos", "kw")]
                if q:
                    self.param(g, q[0], kw.value, st)
        # lookups that fail for an absent key
        if isinstance(fn, ast.Attribute) and (fn.attr == "get" or fn.attr.startswith("get_")) and e.args and not fn.attr.endswith("_optional") and cal and not all(
                opt_annotation(g.node.returns) for g in cal) and not any(len(e.args) + len(e.keywords) < 2 and False for g in cal):
            t = self.absent(e)
            for x in st:
                if x[0] == "absent" and x[1] == t[1] and x[2].split(", ")[0] == t[2].split(", ")[0] and x[3] != "[]" and same_kind(x[3], t[3]):
                    if fn.attr == "get_or_create":
                        continue
                    self.hit("absent", e, f"'{t[2]}' is looked up in {t[1] or d} on a path on which it is known to be absent")
        if isinstance(fn, ast.Name) and fn.id.startswith("get_") and e.args and cal and not fn.id.endswith("_optional") and len(e.args) == 2:
            t = self.absent(e)
            for x in st:
                if x[0] == "absent" and x[1] == "" and x[2] == t[2] and same_kind(x[3], t[3]):
                    self.hit("absent", e, f"{ast.unparse(e)} on a path on which it is known to be missing")
        # adding makes a key present
        if isinstance(fn, ast.Attribute) and fn.attr in ("upsert", "insert", "add", "append", "update", "setdefault", "extend") or (isinstance(fn, ast.Attribute) and fn.attr.startswith(("upsert", "insert", "add", "_add"))):
            recv = ast.unparse(fn.value)
            st = frozenset(x for x in st if not (x[0] == "absent" and x[1] == recv))
            if isinstance(fn.value, ast.Name) and fn.attr in ("append", "insert", "add", "extend"):
                st = frozenset(x for x in st if not (x[0] == "short" and x[1] == fn.value.id))
        # a call that may change the receiver
        if isinstance(fn, ast.Attribute) and cal and not fn.attr.startswith(("get", "has", "is_", "find")):
            recv = ast.unparse(fn.value)
            st = frozenset(x for x in st if not (x[0] == "absent" and x[1] == recv))
        # handing a container or repository to another function may fill it
        for a in e.args:
            pt = path(a)
            if pt is not None and cal:
                st = frozenset(x for x in st if not (x[0] == "absent" and x[1] == pt) and not (x[0] == "short" and x[1] == pt))
        return st

    def param(self, g, q, a, st):
        if opt_annotation(q[2]) is not False or q[2] is None:
            return
        if q[3] is not None and isinstance(q[3], ast.Constant) and q[3].value is None:
            return
        pt = path(a)
        if pt is not None and ("null", pt) in st:
            self.hit("null", a, f"'{pt}' may be missing but {g.qualname} needs {q[0]}")
        elif pt is None and isinstance(a, ast.Call) and self.optional(a):
            self.hit("null", a, f"the result of {ast.unparse(a)[:60]} may be missing but {g.qualname} needs {q[0]}")

    def index(self, e, st):
        pt = path(e.value)
        ks = e.slice
        if pt is not None and isinstance(ks, ast.Constant) and isinstance(ks.value, int):
            need = ks.value + 1 if ks.value >= 0 else -ks.value
            low = [x[2] for x in st if x[0] == "short" and x[1] == pt]
            if low and low[0] < need:
                self.hit("short", e, f"{ast.unparse(e)} is read on a path on which only {low[0]} items are known to be there")
        if not isinstance(ks, ast.Slice):
            t = (ast.unparse(e.value), self.keytext(ks))
            for x in st:
                if x[0] == "absent" and x[3] == "[]" and (x[1], x[2]) == t and not self.default_dict(e.value):
                    self.hit("absent", e, f"{ast.unparse(e)} is read on a path on which the key is known to be absent")

    def default_dict(self, e):
        if "collections.defaultdict" in self.p.type_names(self.f.module, e):
            return True
        made = lambda v: any(isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "defaultdict" for c in ast.walk(v))
        fs = [self.f] if isinstance(e, ast.Name) else list(self.f.cls.methods.values()) if isinstance(e, ast.Attribute) and self.f.cls is not None else []
        for g in fs:
            for n in self.p.own_nodes(g):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and made(n.value):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if ast.unparse(t) == ast.unparse(e):
                            return True
        return False

    def run(self):
        self.final = False
        st = {self.c.entry.idx: frozenset()}
        todo = [self.c.entry]
        rounds = 0
        while todo:
            n = todo.pop()
            rounds += 1
            if rounds > 20000:
                break
            cur = st[n.idx]
            if n.kind == "for":
                for x in ():
                    pass
            after = self.transfer(n, cur)
            for s, lab in n.succ:
                o = after
                if lab == "exc":
                    o = self.join(cur, after) if cur != after else cur
                elif n.kind == "cond":
                    o = self.refine(n.ast, lab, after) if lab in (True, False) else after
                elif n.kind == "for" and lab == "exit":
                    o = cur
                old = st.get(s.idx)
                new = o if old is None else self.join(old, o)
                if new != old:
                    st[s.idx] = new
                    todo.append(s)
        self.final = True
        for n in self.c.nodes:
            if n.idx in st:
                cur = st[n.idx]
                if n.kind == "stmt" and isinstance(n.ast, ast.Expr) and any(m.kind == "for" and m.ast.iter is n.ast.value for m, l in n.succ):
                    self.null_use(n.ast.value, cur, "iteration")
                self.transfer(n, cur)
        self.states = st
        return self.hits


def same_kind(a, b):
    """has_id / get_by_id, has_typed_qname / get_typed_by_qname, has / get"""
    norm = lambda s: s.replace("by_", "").replace("typed_", "").strip("_")
    a, b = norm(a), norm(b)
    return a == b or a.startswith(b) or b.startswith(a)
