"""C30: every file the library opens is closed again on every path, including
paths on which reading or parsing it fails.  A may-open analysis over the
structured control flow of each function that opens a file."""
from __future__ import annotations
import ast
from ..project import AnalysisError

OPENERS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "zipfile.ZipFile", "tarfile.open", "tarfile.TarFile", "tarfile.TarFile.open",
           "urllib.request.urlopen", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "builtins.open", "fs.open_fs"}
OPEN_METHODS = {"open", "openbin", "makefile", "urlopen"}
SESSION_SINGLETON = {"fs.open_fs"}
CLOSING = {"closing", "enter_context", "enter_async_context", "push", "aclosing"}
CLOSE = {"close", "__exit__", "shutdown"}
ALL_EXC = {"Exception", "BaseException"}


class Files:
    def __init__(self, p):
        self.p = p
        self.producers = set()
        self.closers = set()        # (function, parameter) closed on every path
        for _ in range(6):
            before = (len(self.producers), len(self.closers))
            for f in p.all_functions():
                if not self.opens(f) and not any(True for _ in ()):
                    pass
                w = Walk(self, f)
                w.run()
                if w.returns_open:
                    self.producers.add(f)
                for prm in w.closed_params:
                    self.closers.add((f, prm))
            if (len(self.producers), len(self.closers)) == before:
                break

    def opens(self, f):
        return any(self.is_open(f, c) for c in self.p.calls_in(f))

    def is_open(self, f, c):
        gs = list(self.p.callees(f, c))
        if gs:
            return any(g in self.producers or any(h in self.producers for h in overrides(g)) for g in gs)
        if isinstance(c.func, ast.Name) and c.func.id in ("open",):
            return True
        r = self.p.resolve_expr(f.module, c.func, f)
        if r is not None and r[0] == "ext":
            return r[1] in OPENERS and r[1] not in SESSION_SINGLETON
        if r is not None:
            return False
        if isinstance(c.func, ast.Attribute):
            if c.func.attr in OPEN_METHODS and not any(n.startswith("brel.") for n in self.p.type_names(f.module, c.func.value)):
                return True
            if c.func.attr in ("get", "request", "post") and any(k.arg == "stream" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in c.keywords):
                return True
        return False


def overrides(g):
    if g.cls is None:
        return
    for s in g.cls.all_subclasses():
        h = s.methods.get(g.name)
        if h is not None:
            yield h


class St:
    """vars: name -> frozenset of sites; open: frozenset of sites that may be open"""
    __slots__ = ("vars", "open")

    def __init__(self, vars=None, open=frozenset()):
        self.vars, self.open = dict(vars or {}), frozenset(open)

    def copy(self):
        return St(self.vars, self.open)


def join(a, b):
    if a is None:
        return b.copy() if b is not None else None
    if b is None:
        return a.copy()
    v = dict(a.vars)
    for k, s in b.vars.items():
        v[k] = v.get(k, frozenset()) | s
    return St(v, a.open | b.open)


class Out:
    def __init__(self):
        self.fall = self.exc = self.ret = self.brk = self.cont = None

    def add(self, kind, st):
        setattr(self, kind, join(getattr(self, kind), st))


class Walk:
    def __init__(self, files, f):
        self.F, self.f, self.p = files, f, files.p
        self.sites = {}             # site id -> call
        self.direct = []            # opened and used without a name
        self.returns_open = False
        self.leaks = {}             # (site, kind)
        self.closed_params = set()
        self.calls = {id(c) for c in files.p.calls_in(f)}
        self.stack_names = set()

    def run(self):
        f = self.f
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(value=f.node.body)]
        st = St()
        params = [n for n, k, a, d in f.params if n not in ("self", "cls")]
        for n in params:
            st.vars[n] = frozenset([("param", n)])
        st.open = frozenset(("param", n) for n in params)
        o = self.block(body, st)
        ends = [s for s in (o.fall, o.ret, o.exc) if s is not None]
        for n in params:
            if ends and not any(("param", n) in s.open for s in ends):
                self.closed_params.add(n)
        for kind, s in (("normally", o.fall), ("normally", o.ret), ("on failure", o.exc)):
            if s is not None:
                for x in s.open:
                    if x[0] == "site":
                        self.leaks.setdefault(x, set()).add(kind)
        return self

    # -- statements ---------------------------------------------------------
    def block(self, stmts, st):
        o = Out()
        cur = st
        for s in stmts:
            if cur is None:
                break
            r = self.stmt(s, cur)
            for k in ("exc", "ret", "brk", "cont"):
                if getattr(r, k) is not None:
                    o.add(k, getattr(r, k))
            cur = r.fall
        o.fall = cur
        return o

    def raising(self, e):
        return e is not None and any(isinstance(n, (ast.Call, ast.Subscript, ast.Await)) and not self.is_close(n) for n in walk(e))

    def is_close(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CLOSE

    def stmt(self, s, st):
        o = Out()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            o.fall = st
            return o
        if isinstance(s, ast.Break):
            o.brk = st
            return o
        if isinstance(s, ast.Continue):
            o.cont = st
            return o
        if isinstance(s, ast.If):
            st2 = self.expr(s.test, st, o)
            a, b = self.split(s.test, st2)
            ra, rb = self.block(s.body, a), self.block(s.orelse, b)
            self.merge(o, ra)
            self.merge(o, rb)
            o.fall = join(ra.fall, rb.fall) if ra.fall or rb.fall else None
            return o
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            head = self.expr(s.iter if not isinstance(s, ast.While) else s.test, st, o)
            cur = head
            brk = None
            for _ in range(3):
                t = self.split(s.test, cur)[0] if isinstance(s, ast.While) else cur
                r = self.block(s.body, t)
                for k in ("exc", "ret"):
                    if getattr(r, k) is not None:
                        o.add(k, getattr(r, k))
                brk = join(brk, r.brk) if r.brk or brk else None
                cur = join(cur, join(r.fall, r.cont) if r.fall or r.cont else None)
            done = self.block(s.orelse, self.split(s.test, cur)[1] if isinstance(s, ast.While) else cur)
            self.merge(o, done)
            endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            fall = None if endless else done.fall
            o.fall = join(fall, brk) if fall or brk else None
            return o
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            return self.try_(s, st)
        if isinstance(s, ast.Return):
            st2 = self.expr(s.value, st, o, tail=True)
            if s.value is not None:
                st2 = self.give_away(s.value, st2)
            o.ret = st2
            return o
        if isinstance(s, ast.Raise):
            st2 = self.expr(s.exc, st, o)
            o.add("exc", st2)
            return o
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                o.fall = st
                return o
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            st2 = self.expr(s.value, st, o, bound=True)
            src = self.sites_of(s.value, st2)
            for t in ts:
                if isinstance(t, ast.Name):
                    st2 = st2.copy()
                    st2.vars[t.id] = src
                elif src:
                    # an attribute or container keeps it
                    st2 = self.close_sites(src, st2) if self.kept(t) else st2
            o.fall = st2
            return o
        if isinstance(s, ast.Match):
            st2 = self.expr(s.subject, st, o)
            fall = st2
            for c in s.cases:
                r = self.block(c.body, st2)
                self.merge(o, r)
                fall = join(fall, r.fall) if r.fall else fall
            o.fall = fall
            return o
        cur = st
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                cur = self.expr(e, cur, o)
        o.fall = cur
        return o

    def merge(self, o, r):
        for k in ("exc", "ret", "brk", "cont"):
            if getattr(r, k) is not None:
                o.add(k, getattr(r, k))

    def kept(self, t):
        """stored in an attribute that some method of the class closes or hands out"""
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and self.f.cls is not None:
            for m in self.f.cls.methods.values():
                for n in self.p.own_nodes(m):
                    if isinstance(n, ast.Attribute) and n.attr in CLOSE and isinstance(n.value, ast.Attribute) and n.value.attr == t.attr:
                        return True
            return False
        return isinstance(t, (ast.Subscript, ast.Attribute))

    def with_(self, s, st):
        o = Out()
        cur = st
        owned = frozenset()
        for it in s.items:
            e = it.context_expr
            cur = self.expr(e, cur, o, bound=True)
            src = self.sites_of(e, cur) | self.wrapped(e, cur)
            owned |= src
            if isinstance(it.optional_vars, ast.Name):
                cur = cur.copy()
                cur.vars[it.optional_vars.id] = src
        r = self.block(s.body, cur)
        for k in ("exc", "ret", "brk", "cont", "fall"):
            x = getattr(r, k)
            if x is not None:
                o.add(k, self.close_sites(owned, x))
        sup = any(isinstance(n, ast.Call) and "suppress" in ast.unparse(n.func) for it in s.items for n in walk(it.context_expr))
        if sup and o.exc is not None:
            o.add("fall", o.exc)
        return o

    def try_(self, s, st):
        o = Out()
        body = self.block(s.body, st)
        inner = Out()
        for k in ("ret", "brk", "cont"):
            if getattr(body, k) is not None:
                inner.add(k, getattr(body, k))
        covered = False
        if body.exc is not None:
            for h in s.handlers:
                if h.type is None or any(ast.unparse(t).split(".")[-1] in ALL_EXC for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])):
                    covered = True
                r = self.block(h.body, body.exc.copy())
                self.merge(inner, r)
                if r.fall is not None:
                    inner.add("fall", r.fall)
            if not covered:
                inner.add("exc", body.exc)
        if body.fall is not None:
            r = self.block(s.orelse, body.fall)
            self.merge(inner, r)
            if r.fall is not None:
                inner.add("fall", r.fall)
        if not s.finalbody:
            return inner
        for k in ("fall", "exc", "ret", "brk", "cont"):
            x = getattr(inner, k)
            if x is None:
                continue
            r = self.block(s.finalbody, x)
            self.merge(o, r)
            if r.fall is not None:
                o.add(k, r.fall)
        return o

    # -- expressions --------------------------------------------------------
    def split(self, test, st):
        """states of the true and the false branch: a None is not an open file"""
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.BoolOp):
            a, b = st, st
            if isinstance(t.op, ast.And) != neg:
                for v in t.values:
                    a = self.split(v, a)[0 if not neg else 1]
            else:
                for v in t.values:
                    b = self.split(v, b)[1 if not neg else 0]
            return a, b
        name = none = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            name, none = t.left, isinstance(t.ops[0], (ast.Is, ast.Eq))
        elif isinstance(t, (ast.Name, ast.NamedExpr)):
            name, none = t, False
        if isinstance(name, ast.NamedExpr):
            name = name.target
        if not isinstance(name, ast.Name) or name.id not in st.vars:
            return st, st
        src = st.vars[name.id]
        if any(st.vars[k] & src for k in st.vars if k != name.id):
            pass
        closed = self.close_sites(src, st)
        if neg:
            none = not none
        return (closed, st) if none else (st, closed)

    def close_sites(self, src, st):
        st = st.copy()
        st.open = st.open - src
        return st

    def sites_of(self, e, st):
        """the open files an expression's value may be"""
        if isinstance(e, ast.Name):
            return st.vars.get(e.id, frozenset()) & st.open
        if isinstance(e, ast.NamedExpr):
            return self.sites_of(e.value, st)
        if isinstance(e, ast.IfExp):
            return self.sites_of(e.body, st) | self.sites_of(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            r = frozenset()
            for v in e.values:
                r |= self.sites_of(v, st)
            return r
        if isinstance(e, ast.Await):
            return self.sites_of(e.value, st)
        if isinstance(e, ast.Call):
            k = ("site", id(e))
            if k in st.open:
                return frozenset([k])
            if self.is_cast(e):
                return self.sites_of(e.args[-1], st)
            if self.is_wrapper(e):
                return self.wrapped(e, st)
        return frozenset()

    def is_cast(self, e):
        return ast.unparse(e.func).split(".")[-1] == "cast" and len(e.args) == 2

    def is_wrapper(self, e):
        return ast.unparse(e.func).split(".")[-1] in CLOSING | {"TextIOWrapper", "BufferedReader", "BufferedWriter", "GzipFile", "closing"}

    def wrapped(self, e, st):
        if isinstance(e, ast.Call) and self.is_wrapper(e):
            r = frozenset()
            for a in e.args:
                r |= self.sites_of(a, st)
            return r
        return frozenset()

    def give_away(self, e, st):
        """a returned file is the caller's to close"""
        es = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        for x in es:
            src = self.sites_of(x, st)
            if any(k[0] == "site" for k in src):
                self.returns_open = True
            st = self.close_sites(src, st)
        return st

    def expr(self, e, st, o, bound=False, tail=False):
        """evaluate: opened files become open, closing calls close them; what may raise leaves with the files open before it"""
        if e is None:
            return st
        # sub-expressions first, in evaluation order (post-order)
        cur = st
        if self.raising(e):
            # calls other than the opening one itself may raise while earlier files are open
            exc = st
        else:
            exc = None
        for c in post(e):
            if isinstance(c, ast.NamedExpr) and isinstance(c.target, ast.Name):
                cur = cur.copy()
                cur.vars[c.target.id] = self.sites_of(c.value, cur)
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                if c.value is not None:
                    src = self.sites_of(c.value, cur)
                    if any(k[0] == "site" for k in src):
                        self.returns_open = True
                    cur = self.close_sites(src, cur)
                continue
            if not isinstance(c, ast.Call):
                continue
            if self.is_close(c):
                src = self.sites_of(c.func.value, cur)
                cur = self.close_sites(src, cur)
                continue
            # ownership passed to a callee that closes it, or to an exit stack
            fn = ast.unparse(c.func).split(".")[-1]
            if fn in ("enter_context", "push", "callback", "enter_async_context"):
                for a in c.args:
                    src = self.sites_of(a, cur)
                    if isinstance(a, ast.Attribute) and a.attr in CLOSE:
                        src |= self.sites_of(a.value, cur)
                    cur = self.close_sites(src, cur)
                continue
            gs = list(self.p.callees(self.f, c)) if id(c) in self.calls else []
            gave = frozenset()
            if gs:
                for i, a in enumerate(c.args):
                    if all(self.takes(g, i, None) for g in gs):
                        gave |= self.sites_of(a, cur)
                for k in c.keywords:
                    if k.arg and all(self.takes(g, None, k.arg) for g in gs):
                        gave |= self.sites_of(k.value, cur)
            cur = self.close_sites(gave, cur)
            if not self.pure(c):
                exc = join(exc, cur)
            if self.F.is_open(self.f, c) and id(c) in self.calls:
                k = ("site", id(c))
                self.sites[k] = c
                cur = cur.copy()
                cur.open = cur.open | {k}
        if exc is not None:
            o.add("exc", exc)
        # files opened inside the expression that nothing names
        mine = {("site", id(c)) for c in walk(e) if isinstance(c, ast.Call)} & set(cur.open)
        named = self.sites_of(e, cur) if bound or tail else frozenset()
        if tail and isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                named |= self.sites_of(x, cur)
        if bound:
            named |= self.wrapped(e, cur)
            if isinstance(e, (ast.Tuple, ast.List)):
                for x in e.elts:
                    named |= self.sites_of(x, cur)
        for v in cur.vars.values():
            named |= v
        for k in mine - named:
            self.direct.append(self.sites[k])
            cur = self.close_sites(frozenset([k]), cur)
        return cur

    def pure(self, c):
        return isinstance(c.func, ast.Name) and c.func.id in ("len", "isinstance", "str", "print", "bool", "hasattr")

    def takes(self, g, i, name):
        ps = [n for n, k, a, d in g.params]
        if g.cls is not None and not g.is_static and ps:
            ps = ps[1:]
        n = name if name is not None else (ps[i] if i is not None and i < len(ps) else None)
        return n is not None and (g, n) in self.F.closers


def walk(e):
    """the expression, without the bodies of lambdas"""
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.Lambda):
            continue
        todo.extend(ast.iter_child_nodes(n))


def post(e):
    if isinstance(e, ast.Lambda):
        return
    for c in ast.iter_child_nodes(e):
        yield from post(c)
    yield e


def check(p, rep, tier):
    rep.rule("R1-closed", "a file a function opens, or receives from one that opens it, is closed or handed on, on every path including failing ones", 6)
    rep.rule("R2-named", "an opened file is not used up inside an expression that leaves nothing to close", 0)
    F = Files(p)
    n = 0
    for f in p.all_functions():
        w = Walk(F, f).run()
        for k, c in sorted(w.sites.items(), key=lambda x: x[1].lineno):
            n += 1
            txt = ast.unparse(c)[:80]
            rep.saw("opening calls analysed", f"{f.qualname}: {txt}")
            d = any(x is c for x in w.direct)
            rep.ob("R2-named", f"{f.qualname}: {txt}", not d, f"{f.qualname}: the file opened by {txt} is used without a name and never closed", f.loc(c), key=f"R2:{f.qualname}:{txt}")
            kinds = w.leaks.get(k, set())
            rep.ob("R1-closed", f"{f.qualname}: {txt}", not kinds,
                   f"{f.qualname}: the file opened by {txt} is still open when the function ends {' and '.join(sorted(kinds))}", f.loc(c), key=f"R1:{f.qualname}:{txt}")
    if n < 4:
        raise AnalysisError(f"only {n} places that open files were recognised")
    rep.stats["functions_returning_open_files"] = sorted(f.qualname for f in F.producers)
    rep.assume("the file system object of the cache (fs.open_fs), requests sessions and in-memory streams are not files; statements without a call or subscript do not fail")
