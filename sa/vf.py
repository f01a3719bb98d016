"""Value-flow interpreter.

Every variable, field and container content is described by a hash-consed
symbolic term; project functions are inlined at their call sites (bounded,
recursion cut).  Branches are joined into guarded alternatives; no path is
handed to a solver and nothing is executed.  Calls to functions outside the
package, to interfaces, and to functions listed as opaque become events.
"""
from __future__ import annotations
import ast
import re
import string
from .project import Project, ClassInfo, FuncInfo, Module, dotted, names_of_type, is_main_guard

_table = {}
_counter = [0]


KEEP = {}


class Term:
    __slots__ = ("kind", "args", "id", "_lv", "_lvc", "size")

    def __repr__(self):
        return show(self)


def T(kind, *args):
    key = (kind,) + tuple(("T", a.id) if isinstance(a, Term) else
                          tuple(("T", x.id) if isinstance(x, Term) else x for x in a) if isinstance(a, tuple) else
                          (type(a).__name__, a) for a in args)
    try:
        t = _table.get(key)
    except TypeError:
        key = (kind, repr(args))
        t = _table.get(key)
    if t is None:
        t = Term()
        t.kind, t.args = kind, args
        _counter[0] += 1
        t.id = _counter[0]
        t._lv = t._lvc = None
        _table[key] = t
    return t


def K(v):
    return T("k", v, type(v).__name__)


NONE = K(None)
UNDEF = T("undef")
TRUE, FALSE = K(True), K(False)


def _guard_key(g):
    return tuple(sorted((c.id, p) for c, p in g))


_phis = {}


def phi(alts):
    """alts: iterable of (guards, term) -> term.  Flattens nested phis."""
    out = {}
    kept = None
    for g, t in alts:
        k = t.args[0][0][0] if t.kind == "phi" and len(t.args[0]) == 1 else frozenset()
        kept = k if kept is None else kept & k
        if t.kind == "phi":
            for g2, t2 in t.args[0]:
                gg = g | g2
                if not contradictory(gg):
                    out[(_guard_key(gg), t2.id)] = (gg, t2)
        else:
            out[(_guard_key(g), t.id)] = (g, t)
    if not out:
        return UNDEF
    ts = {t.id for g, t in out.values()}
    if len(ts) == 1:
        return guarded(kept, next(iter(out.values()))[1])
    # merge alternatives of one term: keep guards only common to all of them
    if len(out) > 24:
        by = {}
        for g, t in out.values():
            by[t.id] = (by[t.id][0] & g, t) if t.id in by else (g, t)
        out = {(_guard_key(g), t.id): (g, t) for g, t in by.values()}
    key = frozenset(out)
    p = _phis.get(key)
    if p is None:
        p = Term()
        p.kind, p.args = "phi", (tuple(out[k] for k in sorted(out, key=lambda k: (k[1], k[0]))),)
        _counter[0] += 1
        p.id = _counter[0]
        p._lv = p._lvc = None
        _phis[key] = p
    return p


def contradictory(g):
    for c, p in g:
        if (c, not p) in g:
            return True
    return False


def guarded(g, t):
    """one alternative that is known to be chosen by a condition"""
    if t.kind == "phi" or not g:
        return t
    key = ("guarded", _guard_key(g), t.id)
    p = _phis.get(key)
    if p is None:
        p = Term()
        p.kind, p.args = "phi", (((g, t),),)
        _counter[0] += 1
        p.id = _counter[0]
        p._lv = p._lvc = None
        _phis[key] = p
    return p


def pick(ents, r):
    """one value taken out of a container all of whose entries are r: keep what is known about it"""
    gs = [e[2] for e in ents]
    return guarded(frozenset((c, b) for c, b in frozenset.intersection(*gs) if any(x is r for x in subterms(c))), r) if gs else r


def alts(t):
    """[(guards, non-phi term)]"""
    if t.kind == "phi":
        return list(t.args[0])
    return [(frozenset(), t)]


def vals(t):
    return [x for _, x in alts(t)]


def children(t, guards=False):
    if t.kind == "phi":
        for g, x in t.args[0]:
            yield x
            if guards:
                for c, _ in g:
                    yield c
        return
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    yield x
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term):
                            yield y


def subterms(t, guards=False):
    """All terms reachable from t (data; with guards=True control as well)."""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        todo.extend(children(x, guards))
    return out


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    k, a = t.kind, t.args
    if k == "k":
        return repr(a[0])
    if k == "p":
        return f"{a[1]}"
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k == "xa":
        return f"{s(a[0])}/@{s(a[1])}"
    if k in ("text", "tag", "nsmap"):
        return f"{s(a[0])}/{k}()"
    if k == "elem":
        return f"each({s(a[0])})"
    if k == "call":
        r = (s(a[1]) + ".") if a[1] is not None else ""
        return f"{r}{a[0]}({', '.join(s(x) for x in a[2])}{', ' if a[3] else ''}{', '.join(n + '=' + s(x) for n, x in a[3])})"
    if k == "op":
        return f"({a[0]} {' '.join(s(x) for x in a[1:])})"
    if k == "phi":
        return "{" + " | ".join(s(x) for _, x in a[0][:6]) + (" …" if len(a[0]) > 6 else "") + "}"
    if k in ("new", "list", "dict", "set"):
        return f"{k}:{a[0].name if isinstance(a[0], ClassInfo) else ''}#{a[-1] if k != 'new' else t.id}"
    if k == "tup":
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if k == "fstr":
        return "f'" + "".join(str(x.args[0]) if x.kind == "k" else "{" + s(x) + "}" for x in a[0]) + "'"
    if k == "cls":
        return a[0].name
    if k in ("fn",):
        return a[0].name
    return f"{k}({', '.join(s(x) if isinstance(x, Term) else getattr(x, 'name', str(x)) for x in a)})"


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kwargs", "guards", "loops", "func", "node", "chain", "result", "seq", "bound", "state")

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.func.loc(self.node)}>"

    @property
    def loc(self):
        return self.func.loc(self.node)

    def arg(self, i, name=None):
        if name is not None:
            for n, t in self.kwargs:
                if n == name:
                    return t
        if i is not None and i < len(self.args):
            return self.args[i]
        return None


class State:
    __slots__ = ("frames", "heap")

    def __init__(self, frames=None, heap=None):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap))


class Frame:
    __slots__ = ("fid", "func", "module", "cls", "returns", "captured", "parent_fid", "entry_guards", "loopctl", "self_term", "yields")


EMPTY = frozenset()


class Interp:
    MAXDEPTH = 22
    FROMKEYS = False            # take dict.fromkeys(x) for the list of its keys
    inline_str = False     # evaluate str(object of the package) by its __str__
    split = False          # evaluate loops once per alternative of their element
    inline_methods = {'get_or_create'}

    def __init__(self, project: Project, opaque=(), inline=None, max_events=200000, on_new=None, split=False):
        self.p = project
        self.split = split
        self.opaque = set(opaque)          # fullnames (or predicate results) never inlined
        self.inline_pred = inline          # optional predicate FuncInfo -> bool
        self.events = []
        self.guards = []                   # stack of (cond, polarity)
        self.loops = []                    # stack of loop ids
        self.stack = []                    # frames
        self.fidc = 0
        self.closures = {}
        self.nalloc = {}
        self.modvars = {}
        self.types = {}                    # term id -> set of class fullnames
        self.mute = 0
        self.max_events = max_events
        self.functions_seen = set()
        self.dict_entries_guard = {}
        self.alloc_loops = {}              # container/object term id -> loops it is created in
        self.loop_elems = {}               # loop id -> terms of its elements

    # ------------------------------------------------------------ helpers
    def chain(self):
        return tuple(id(f.func.node) if f.func else 0 for f in self.stack) + tuple(self.callsites)

    callsites = ()

    def alloc(self, kind, node, *pre):
        KEEP[id(node)] = node             # ids in keys stay unique while the node lives
        key = (kind, id(node), self.callsites)
        n = self.nalloc.setdefault(key, len(self.nalloc))
        t = T(kind, *pre, n)
        self.alloc_loops[t.id] = tuple(self.loops)
        return t

    def cur(self, st):
        return st.frames[self.stack[-1].fid]

    def event(self, kind, name, recv, args, kwargs, node, result=None, bound=None):
        e = Event()
        e.kind, e.name, e.recv, e.args, e.kwargs, e.node, e.result, e.bound = kind, name, recv, tuple(args), tuple(kwargs), node, result, bound
        e.guards = tuple(self.guards)
        e.loops = tuple(self.loops)
        e.func = self.stack[-1].func
        e.chain = tuple(f.func for f in self.stack)
        e.seq = len(self.events)
        e.state = None
        if not self.mute:
            self.events.append(e)
            if len(self.events) > self.max_events:
                raise RuntimeError("event budget exceeded")
        return e

    # ------------------------------------------------------------ heap
    def entries(self, st, obj):
        return st.heap.get((obj.id, "#c"), ())

    def put(self, st, obj, key, val, front=False):
        """append an entry to a container term (or each alternative)"""
        for g, o in alts(obj):
            e = (key, val, frozenset(self.guards) | g, tuple(self.loops))
            cur = st.heap.get((o.id, "#c"), ())
            if e not in cur:
                st.heap[(o.id, "#c")] = cur + (e,)
            st.heap[(o.id, "#o")] = ("front" if front else "append",)

    def setfield(self, st, obj, name, val):
        a = alts(obj)
        for g, o in a:
            if len(a) == 1:
                st.heap[(o.id, name)] = val
            else:
                old = self.getfield(st, o, name, None)
                st.heap[(o.id, name)] = phi([(g, val), (EMPTY, old)])

    def getfield(self, st, o, name, node):
        v = st.heap.get((o.id, name))
        if v is not None:
            return v
        return T("attr", o, name)

    # ------------------------------------------------------------ joins
    def join(self, a, b, cond=None):
        if a is None:
            return b
        if b is None:
            return a
        ga = frozenset(flat_guard(cond, True)) if cond is not None else EMPTY
        gb = frozenset(flat_guard(cond, False)) if cond is not None else EMPTY
        return self.joinmany([(ga, a), (gb, b)])

    def joinmany(self, lst):
        lst = [(g, s) for g, s in lst if s is not None]
        if not lst:
            return None
        if len(lst) == 1:
            return lst[0][1]
        out = State()
        fids = []
        for g, s in lst:
            for f in s.frames:
                if f not in fids:
                    fids.append(f)
        for f in fids:
            ds = [(g, s.frames[f]) for g, s in lst if f in s.frames]
            d0 = ds[0][1]
            res = {}
            names = {}
            for _, d in ds:
                for n in d:
                    names[n] = None
            for n in names:
                vs = [(g, d.get(n, UNDEF)) for g, d in ds]
                v0 = vs[0][1]
                if all(v is v0 for _, v in vs):
                    res[n] = v0
                else:
                    res[n] = phi(vs)
            out.frames[f] = res
        keys = {}
        for _, s in lst:
            for k in s.heap:
                keys[k] = None
        for k in keys:
            vs = [(g, s.heap.get(k)) for g, s in lst]
            v0 = vs[0][1]
            if all(v is v0 or v == v0 for _, v in vs):
                out.heap[k] = v0
            elif k[1] == "#c":
                ent = []
                for _, v in vs:
                    for e in v or ():
                        if e not in ent:
                            ent.append(e)
                out.heap[k] = tuple(ent)
            elif k[1] == "#o":
                vv = [v for _, v in vs if v is not None]
                out.heap[k] = vv[0] if len(vv) == len(vs) and all(v == vv[0] for v in vv) else ("mixed", tuple(vv))
            else:
                oid, nm = k
                base = self.term_by_id.get(oid)
                out.heap[k] = phi([(g, v if v is not None else (T("attr", base, nm) if base is not None else UNDEF)) for g, v in vs])
        return out

    term_by_id = {}

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec(s, st)
        return st

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def x_Expr(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            fr = self.stack[-1]
            v = self.ev(s.value.value, st) if s.value.value is not None else NONE
            if isinstance(s.value, ast.YieldFrom):
                v = self.element(v, st, s)
            obj = fr.yields
            if obj is None:
                fr.yields = obj = self.alloc("list", fr.func.node)
            self.put(st, obj, None, v)
            return st
        self.ev(s.value, st)
        return st if not self.noreturn(s.value) else None

    def noreturn(self, e):
        return isinstance(e, ast.Call) and dotted(e.func) in ("sys.exit", "exit", "quit")

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def x_AugAssign(self, s, st):
        old = self.ev(_load(s.target), st)
        v = self.ev(s.value, st)
        opn = type(s.op).__name__.lower()
        cont = [o for o in vals(old) if o.kind in ("list", "set", "dict")]
        if cont and opn in ("add", "bitor"):
            self.extend(old, v, st, s)
            self.event("mutate", "+=", old, [v], [], s)
            return st
        if opn in ("add", "bitor") and self.typenames(old, _load_expr(s.target)) & {"builtins.list", "builtins.set", "builtins.dict"}:
            self.extend(old, v, st, s)
            self.event("mutate", "+=", old, [v], [], s)
            return st
        self.assign(s.target, T("op", opn, old, v), st, s)
        return st

    def extend(self, obj, v, st, node):
        for g, o in alts(v):
            if o.kind in ("list", "set", "dict") or (o.id, "#c") in st.heap:
                for e in self.entries(st, o):
                    for g2, tgt in alts(obj):
                        en = (e[0], e[1], e[2] | g | g2 | frozenset(self.guards), tuple(self.loops) + tuple(x for x in e[3] if x not in self.loops))
                        cur = st.heap.get((tgt.id, "#c"), ())
                        if en not in cur:
                            st.heap[(tgt.id, "#c")] = cur + (en,)
                        st.heap[(tgt.id, "#o")] = ("append",)
                if o.kind not in ("list", "set", "dict"):
                    self.put(st, obj, None, T("elem", o, "ext"))
            elif o.kind == "tup":
                for x in o.args[0]:
                    self.put(st, obj, None, x)
            else:
                self.put(st, obj, None, T("elem", o, "ext"))

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fr = self.stack[-1]
            if t.id in getattr(fr.func.node, "_nonlocals", ()) if fr.func else False:
                fid = fr.parent_fid
                while fid is not None and fid in st.frames and t.id not in st.frames[fid]:
                    fid = None
                if fid is not None:
                    st.frames[fid][t.id] = v
                    return
            self.cur(st)[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            n = self.mangle(t.attr)
            for x in vals(o):
                self.term_by_id[x.id] = x
            self.setfield(st, o, n, v)
            self.event("setattr", n, o, [v], [], node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.put(st, o, k, v)
            self.event("setitem", "[]=", o, [k, v], [], node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, T("slice", v, i), st, node)
                else:
                    self.assign(x, self.index(v, K(i), st, node, unpack=len(t.elts)), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__"):
            c = self.stack[-1].cls
            if c is not None:
                return "_" + c.name.lstrip("_") + n
        return n

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        fr = self.stack[-1]
        fr.returns.append((tuple(self.guards[len(fr.entry_guards):]), v, st))
        self.event("return", "return", None, [v], [], s)
        return None

    def x_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        self.event("raise", "raise", None, [v], [], s)
        return None

    def x_Pass(self, s, st):
        return st

    def x_Import(self, s, st):
        return st
    x_ImportFrom = x_Import
    x_Global = x_Import

    def x_Nonlocal(self, s, st):
        f = self.stack[-1].func
        f.node._nonlocals = set(getattr(f.node, "_nonlocals", ())) | set(s.names)
        return st

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.assume(c, True)
        return st

    def assume(self, c, pol):
        """add guard for the rest of the enclosing block (popped by the enclosing construct)"""
        for a, p in flat_guard(c, pol):
            self.guards.append((a, p))

    def x_FunctionDef(self, s, st):
        fi = getattr(s, "_fi", None)
        if fi is not None:
            self.cur(st)[s.name] = T("fn", fi, self.stack[-1].fid)
            self.stack[-1].captured = True
        return st

    def x_ClassDef(self, s, st):
        return st

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                self.event("delitem", "del", o, [self.ev(t.slice, st)], [], s)
            elif isinstance(t, ast.Name):
                self.cur(st)[t.id] = UNDEF
        return st

    def x_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, T("enter", v) if v.kind not in ("new",) else v, st, s)
        return self.exec_block(s.body, st)

    def cond(self, e, st):
        return self.ev(e, st)

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        tv = truth(c)
        if tv is True:
            return self.exec_block(s.body, st)
        if tv is False:
            return self.exec_block(s.orelse, st)
        n0 = len(self.guards)
        known = known_guard(self.guards, c)
        if known is True:
            return self.exec_block(s.body, st)
        if known is False:
            return self.exec_block(s.orelse, st)
        a = st.copy()
        self.assume(c, True)
        a = self.exec_block(s.body, a)
        del self.guards[n0:]
        b = st
        self.assume(c, False)
        b = self.exec_block(s.orelse, b)
        del self.guards[n0:]
        if a is None and b is not None:
            self.assume(c, False)
        elif b is None and a is not None:
            self.assume(c, True)
        if a is None and b is None:
            return None
        return self.join(a, b, c)

    def _assigned(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return out

    def loop(self, s, st, bind, cond=None):
        lid = (id(s), self.callsites)
        n0 = len(self.guards)
        fr = self.stack[-1]
        saved = fr.loopctl
        pre = st.copy()
        # pass 1: discover loop-carried values (events muted)
        self.mute += 1
        self.loops.append(lid)
        fr.loopctl = ([], [])
        nret = len(fr.returns)
        s1 = st.copy()
        bind(s1)
        if cond is not None:
            c = self.cond(cond, s1)
            self.assume(c, True)
        e1 = self.exec_block(s.body, s1)
        del self.guards[n0:]
        conts = [x for x in fr.loopctl[0]]
        del fr.returns[nret:]
        self.mute -= 1
        head = self.joinmany([(EMPTY, pre)] + [(EMPTY, x) for x in ([e1] if e1 is not None else []) + conts])
        # pass 2
        fr.loopctl = ([], [])
        s2 = head.copy()
        bind(s2)
        cterm = None
        if cond is not None:
            cterm = self.cond(cond, s2)
            self.assume(cterm, True)
        e2 = self.exec_block(s.body, s2)
        del self.guards[n0:]
        conts, breaks = fr.loopctl
        fr.loopctl = saved
        self.loops.pop()
        normal = self.joinmany([(EMPTY, pre)] + [(EMPTY, x) for x in ([e2] if e2 is not None else []) + conts])
        if cond is not None and truth(cterm) is True:
            normal = None
        if s.orelse and normal is not None:
            normal = self.exec_block(s.orelse, normal)
            del self.guards[n0:]
        return self.joinmany([(EMPTY, x) for x in [normal] + breaks if x is not None])

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        items = self.unroll(it, st)
        if items is not None and not _has_loopctl(s.body):
            for x in items:
                self.assign(s.target, x, st, s)
                st = self.exec_block(s.body, st)
                if st is None:
                    return None
            return self.exec_block(s.orelse, st) if s.orelse else st

        def bind(x):
            el = self.element(it, x, s)
            self.loop_elems.setdefault((id(s), self.callsites), set()).update(vals(el))
            self.assign(s.target, el, x, s)
        self.event("loop", "for", it, [], [], s)
        els = self.split_element(it, st, s)
        if els is not None:
            for g, x in els:
                n0 = len(self.guards)
                self.guards.extend(g)
                st = self.loop(s, st, lambda y, x=x: self.assign(s.target, x, y, s))
                del self.guards[n0:]
                if st is None:
                    return None
            return st
        return self.loop(s, st, bind)

    def split_element(self, it, st, node):
        if not self.split:
            return None
        els = alts(self.element(it, st, node))
        els = [(g, x) for g, x in els]
        flat = []
        for g, x in els:
            if x.kind == "tup" and any(y.kind == "phi" for y in x.args[0]):
                import itertools
                for combo in itertools.product(*[alts(y) for y in x.args[0]]):
                    gg = g
                    for c in combo:
                        gg = gg | c[0]
                    if not contradictory(gg):
                        flat.append((gg, T("tup", tuple(c[1] for c in combo))))
            else:
                flat.append((g, x))
        return flat if 2 <= len(flat) <= 6 else None

    def unroll(self, it, st):
        if it.kind == "tup" and len(it.args[0]) <= 12:
            return list(it.args[0])
        if it.kind == "list":
            es = self.entries(st, it)
            if es and len(es) <= 12 and all(e[0] is None and not e[3][len(self.loops):] and not (e[2] - frozenset(self.guards)) and e[1].kind in ("k", "cls", "fn", "enum", "tup", "lam", "bm", "new") for e in es) \
                    and st.heap.get((it.id, "#lit")):
                return [e[1] for e in es]
        return None

    def element(self, it, st, node):
        """term for one element of an iterable"""
        res = []
        for g, o in alts(it):
            ents = self.entries(st, o)
            if o.kind in ("list", "set"):
                if ents:
                    for e in ents:
                        res.append((g | e[2], e[1]))
                else:
                    res.append((g, T("elem", o, "empty")))
            elif o.kind == "dict":
                for e in ents:
                    if e[0] is not None:
                        res.append((g | e[2], e[0]))
                if not ents:
                    res.append((g, T("elem", o, "empty")))
            elif o.kind == "tup":
                for x in o.args[0]:
                    res.append((g, x))
            elif o.kind == "call" and o.args[0] == "enumerate" and o.args[2]:
                res.append((g, T("tup", (T("counter", o.args[2][0]), self.element(o.args[2][0], st, node)))))
            elif o.kind == "call" and o.args[0] == "zip":
                res.append((g, T("tup", tuple(self.element(x, st, node) for x in o.args[2]))))
            elif o.kind == "call" and o.args[0] == "items" and o.args[1] is not None:
                d = o.args[1]
                es = self.entries(st, d)
                for e in es:
                    res.append((g | e[2], T("tup", (e[0] if e[0] is not None else T("key", d), e[1]))))
                if not es:
                    res.append((g, T("tup", (T("key", d), T("value", d)))))
            elif o.kind == "call" and o.args[0] == "values" and o.args[1] is not None:
                d = o.args[1]
                es = self.entries(st, d)
                for e in es:
                    res.append((g | e[2], e[1]))
                if not es:
                    res.append((g, T("value", d)))
            elif o.kind == "call" and o.args[0] == "keys" and o.args[1] is not None:
                d = o.args[1]
                es = self.entries(st, d)
                for e in es:
                    res.append((g | e[2], e[0] if e[0] is not None else T("key", d)))
                if not es:
                    res.append((g, T("key", d)))
            else:
                res.append((g, T("elem", o, "x")))
                for e in ents:
                    res.append((g | e[2], e[1]))
        return phi(res)

    def x_While(self, s, st):
        return self.loop(s, st, lambda x: None, s.test)

    def x_Break(self, s, st):
        fr = self.stack[-1]
        if fr.loopctl:
            fr.loopctl[1].append(st)
        return None

    def x_Continue(self, s, st):
        fr = self.stack[-1]
        if fr.loopctl:
            fr.loopctl[0].append(st)
        return None

    def x_Try(self, s, st):
        n0 = len(self.guards)
        pre = st.copy()
        body = self.exec_block(s.body, st)
        gb = list(self.guards[n0:])
        if body is not None and s.orelse:
            body = self.exec_block(s.orelse, body)
        del self.guards[n0:]
        outs = [(EMPTY, body)] if body is not None else []
        for i, h in enumerate(s.handlers):
            hs = self.joinmany([(EMPTY, pre.copy())] + ([(EMPTY, body.copy())] if body is not None else []))
            if h.name:
                self.cur(hs)[h.name] = T("exc", id(h))
            exc = T("excguard", dotted(h.type) if h.type is not None and dotted(h.type) else "exc", id(h))
            self.guards.append((exc, True))
            hs = self.exec_block(h.body, hs)
            del self.guards[n0:]
            if hs is not None:
                outs.append((frozenset([(exc, True)]), hs))
        res = self.joinmany(outs) if outs else None
        if s.finalbody:
            if res is not None:
                res = self.exec_block(s.finalbody, res)
            else:
                self.exec_block(s.finalbody, pre)
        del self.guards[n0:]
        return res

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return T("unk", type(e).__name__, id(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return K(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, e, st)

    def name(self, n, node, st):
        fr = self.stack[-1]
        d = st.frames[fr.fid]
        if n in d:
            return d[n]
        fid = fr.parent_fid
        seen = 0
        while fid is not None and seen < 20:
            d = st.frames.get(fid) or self.closures.get(fid)
            if d is not None and n in d:
                return d[n]
            fid = self.parent_of.get(fid)
            seen += 1
        r = self.p.resolve_expr(fr.module, ast.Name(id=n, ctx=ast.Load()), fr.func)
        t = self.entity(r)
        if t is not None:
            return t
        return T("ext", n)

    parent_of = {}

    def entity(self, r):
        if r is None:
            return None
        if r[0] == "class":
            return T("cls", r[1])
        if r[0] == "func":
            return T("fn", r[1], None)
        if r[0] == "mod":
            return T("mod", r[1])
        if r[0] == "ext":
            return T("ext", r[1])
        if r[0] == "classvar":
            return self.classvar(r[1], r[2])
        if r[0] == "var":
            mod = r[2]
            key = (mod.name, id(r[1]))
            if key not in self.modvars:
                self.modvars[key] = T("gv", mod.name, [n for n, s in mod.symbols.items() if s is r][0] if any(s is r for s in mod.symbols.values()) else "?")
                ex = [x for x in r[1] if x is not None]
                if len(ex) == 1:
                    v = self.static_const(ex[0], mod)
                    if v is not None:
                        self.modvars[key] = v
            return self.modvars[key]
        return None

    def static_const(self, x, mod, scope=None, depth=0):
        """value of an expression made of constants only (module and class variables), or None"""
        if depth > 8:
            return None
        rec = lambda y: self.static_const(y, mod, scope, depth + 1)
        if isinstance(x, ast.Constant):
            return K(x.value)
        if isinstance(x, (ast.Name, ast.Attribute)):
            r2 = self.p.resolve_expr(mod, x)
            if r2 is None and isinstance(x, ast.Name) and scope is not None and x.id in scope.classvars:
                return rec(scope.classvars[x.id])
            if r2 and r2[0] == "var":
                v = self.entity(r2)
                return None if v.kind == "gv" else v
            return self.entity(r2) if r2 and not (r2[0] == "ext" and isinstance(x, ast.Name) and False) else None
        if isinstance(x, (ast.Tuple, ast.List)):
            vs = [rec(y) for y in x.elts]
            return None if any(v is None for v in vs) or (isinstance(x, ast.List) and not all(isinstance(y, ast.Constant) for y in x.elts)) else T("tup", tuple(vs))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            v = rec(x.operand)
            return K(-v.args[0]) if v is not None and v.kind == "k" and isinstance(v.args[0], (int, float)) else None
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
            a, b = rec(x.left), rec(x.right)
            if a is not None and b is not None and a.kind == b.kind == "k" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
                return K(a.args[0] + b.args[0])
            return None
        if isinstance(x, ast.JoinedStr):
            out = ""
            for y in x.values:
                if isinstance(y, ast.FormattedValue):
                    if y.conversion != -1 or y.format_spec is not None:
                        return None
                    y = y.value
                v = rec(y)
                if v is None or v.kind != "k" or not isinstance(v.args[0], str):
                    return None
                out += v.args[0]
            return K(out)
        if isinstance(x, ast.Call) and not x.keywords:
            r = self.p.resolve_expr(mod, x.func) if isinstance(x.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "ext" and r[1] == "re.compile":
                vs = [rec(y) for y in x.args]
                return None if any(v is None for v in vs) else T("call", "re.compile", None, tuple(vs), ())
        return None

    def classvar(self, c, n):
        if c.is_enum:
            return T("enum", c, n)
        for k in c.mro():
            if n in k.classvars:
                v = k.classvars[n]
                c0 = self.static_const(v, k.module, k) if v is not None else None
                return c0 if c0 is not None else T("cv", k, n)
        return T("cv", c, n)

    def class_of(self, o, expr=None):
        """possible classes of a term"""
        if o.kind == "new":
            return [o.args[0]]
        names = self.types.get(o.id)
        if names:
            return [self.p.classes[n] for n in names if n in self.p.classes]
        if expr is not None and self.stack and not getattr(expr, "_synthetic", False):
            return self.p.classes_of(self.stack[-1].module, expr)
        return []

    def typenames(self, o, expr):
        if o.kind in ("list", "dict", "set"):
            return {"builtins." + o.kind}
        if o.kind == "new":
            return {o.args[0].fullname}
        names = self.types.get(o.id)
        if names:
            return names
        if expr is not None and not getattr(expr, "_synthetic", False):
            return self.p.type_names(self.stack[-1].module, expr)
        return set()

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return phi([(g, self.getattr(o, e.attr, st, e, e.value)) for g, o in alts(b)])

    def getattr(self, o, attr, st, node, recv_expr=None):
        n = self.mangle(attr)
        if o.kind == "mod":
            r = self.p.lookup_in_module(o.args[0], attr)
            t = self.entity(r)
            return t if t is not None else T("ext", o.args[0] + "." + attr)
        if o.kind == "ext":
            return T("ext", o.args[0] + "." + attr)
        if o.kind == "cls":
            c = o.args[0]
            f = c.lookup(n) or c.lookup(attr)
            if f:
                if f.is_classmethod:
                    return T("bm", o, f)
                return T("fn", f, None)
            if attr == "__name__":
                return K(c.name)
            v = st.heap.get((o.id, n))
            if v is not None:
                return v
            return self.classvar(c, attr)
        if o.kind == "enum":
            return T("attr", o, attr)
        if o.kind == "super":
            recv, c = o.args
            mro = (recv.args[0].mro() if recv.kind == "new" else (self.class_of(recv) or [c])[0].mro())
            if c in mro:
                mro = mro[mro.index(c) + 1:]
            for k in mro:
                if n in k.methods:
                    return T("bm", recv, k.methods[n])
            return T("ext", "super." + attr)
        self.term_by_id[o.id] = o
        v = st.heap.get((o.id, n))
        if v is not None:
            return v
        cl = self.class_of(o, recv_expr)
        if o.kind == "new":
            f = cl[0].lookup(n)
            if f:
                if f.is_property:
                    return self.call_func(f, [o], [], st, node)
                return T("bm", o, f) if not f.is_static else T("fn", f, None)
            for k in cl[0].mro():
                if n in k.classvars:
                    return self.classvar(k, n)
        elif cl:
            f = cl[0].lookup(n)
            if f and f.is_property and not f.is_abstract and len(cl) == 1:
                return self.call_func(f, [o], [], st, node)
            if f:
                return T("meth", o, n, tuple(cl))
            for k in cl[0].mro():
                if n in k.classvars and k.is_enum:
                    return self.classvar(k, n)
        if attr in ("text", "tag", "nsmap", "tail", "attrib") :
            t = T(attr, o)
            return t
        return T("attr", o, n)

    def e_Call(self, e, st):
        # method call on receiver
        f = e.func
        args, kwargs = [], []
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            args, kwargs = self.args(e, st)
            return phi([(g, self.call_method(o, f.attr, args, kwargs, st, e, f.value)) for g, o in alts(b)])
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fr = self.stack[-1]
            x = fr
            i = len(self.stack) - 1
            while x.cls is None and i > 0:
                i -= 1
                x = self.stack[i]
            return T("super", x.self_term, x.cls) if x.self_term is not None else T("ext", "super")
        fn = self.ev(f, st)
        args, kwargs = self.args(e, st)
        return phi([(g, self.call_value(o, args, kwargs, st, e)) for g, o in alts(fn)])

    def args(self, e, st):
        args, kwargs = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.kind == "tup":
                    args.extend(v.args[0])
                else:
                    args.append(T("star", v))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.kind == "dict":
                    for en in self.entries(st, v):
                        if en[0] is not None and en[0].kind == "k":
                            kwargs.append((str(en[0].args[0]), en[1]))
                    if not all(en[0] is not None and en[0].kind == "k" for en in self.entries(st, v)):
                        kwargs.append(("**", v))
                else:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        return args, kwargs

    def call_value(self, o, args, kwargs, st, node):
        if o.kind == "fn":
            return self.call_func(o.args[0], args, kwargs, st, node, closure=o.args[1])
        if o.kind == "lam":
            return self.call_lambda(o, args, kwargs, st, node)
        if o.kind == "bm":
            return self.call_func(o.args[1], [o.args[0]] + list(args), kwargs, st, node)
        if o.kind == "meth":
            return self.opaque_method(o.args[0], o.args[1], list(o.args[2]), args, kwargs, st, node)
        if o.kind == "cls":
            return self.construct(o.args[0], args, kwargs, st, node)
        if o.kind == "ext":
            return self.builtin(o.args[0], args, kwargs, st, node)
        if o.kind == "attr" and o.args[1] in ("get_or_create",):
            pass
        r = T("call", "()", o, tuple(args), tuple(kwargs))
        self.event("call", "()", o, args, kwargs, node, r)
        return r

    def method_name(self, cl, n):
        """canonical interface-qualified name"""
        for c in cl:
            owner = None
            for k in c.mro():
                if n in k.methods:
                    owner = k
            if owner is not None:
                return owner.name + "." + n
        return n

    def opaque_method(self, o, n, cl, args, kwargs, st, node):
        f = cl[0].lookup(n) if cl else None
        # self-calls and explicitly inlined methods of opaque receivers
        if f is not None and (not f.is_abstract or _has_body(f)) and self.may_inline(f) and \
                (any(fr.self_term is o for fr in self.stack) and not any(n in s.methods for s in cl[0].all_subclasses())
                 or f.name in self.inline_methods or (f.cls.name + "." + f.name) in self.inline_methods):
            if f.is_static:
                return self.call_func(f, args, kwargs, st, node)
            return self.call_func(f, [o] + list(args), kwargs, st, node)
        name = self.method_name(cl, n)
        bound = None
        if f is not None:
            bound = bind_args(f, [o] + list(args) if not f.is_static else args, kwargs)
        # callable arguments may be invoked by the callee
        cargs = tuple(args)
        r = T("call", name, o, cargs, tuple(kwargs))
        ty = self.ret_types(f)
        if ty:
            self.types[r.id] = ty
        self.event("call", name, o, args, kwargs, node, r, bound)
        return r

    _rt = {}

    def ret_types(self, f):
        if f is None:
            return None
        if f in self._rt:
            return self._rt[f]
        out = set()
        r = f.node.returns
        if r is not None:
            names = _ann_classes(self.p, f.module, r, f)
            out = {c.fullname for c in names}
        self._rt[f] = out
        return out

    def may_inline(self, f):
        if f.fullname in self.opaque or f.name in self.opaque or (f.cls and (f.cls.name + "." + f.name) in self.opaque):
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(f)
            if r is not None:
                return r
        return True

    def call_method(self, o, attr, args, kwargs, st, node, recv_expr):
        n = self.mangle(attr)
        if o.kind in ("mod", "ext", "cls", "super"):
            t = self.getattr(o, attr, st, node, recv_expr)
            return self.call_value(t, args, kwargs, st, node)
        if attr == "findtext" and o.kind != "new" and len(args) == 1 and not any(k == "default" for k, _ in kwargs):
            return T("text", self.call_method(o, "find", args, kwargs, st, node, recv_expr))
        if o.kind == "new":
            f = o.args[0].lookup(n)
            if f:
                if f.is_static:
                    return self.call_func(f, args, kwargs, st, node)
                return self.call_func(f, [o] + list(args), kwargs, st, node)
            v = st.heap.get((o.id, n))
            if v is not None:
                return phi([(g, self.call_value(x, args, kwargs, st, node)) for g, x in alts(v)])
            if o.args[0].external_bases or True:
                r = T("call", n, o, tuple(args), tuple(kwargs))
                self.event("call", n, o, args, kwargs, node, r)
                return r
        if o.kind in ("list", "set", "dict"):
            return self.container_method(o, n, args, kwargs, st, node)
        if o.kind == "k" and isinstance(o.args[0], str):
            return self.str_method(o, n, args, kwargs, st, node)
        cl = self.class_of(o, recv_expr)
        if cl:
            f = cl[0].lookup(n)
            if f:
                return self.opaque_method(o, n, cl, args, kwargs, st, node)
        v = st.heap.get((o.id, n))
        if v is not None and v.kind in ("fn", "lam", "bm", "cls"):
            return self.call_value(v, args, kwargs, st, node)
        tn = self.typenames(o, recv_expr)
        if tn & {"builtins.list", "builtins.dict", "builtins.set", "collections.defaultdict"} and n in MUTATORS:
            return self.container_method(o, n, args, kwargs, st, node)
        if tn & {"builtins.dict", "collections.defaultdict", "typing.Mapping"}:
            return self.container_method(o, n, args, kwargs, st, node)
        if "builtins.str" in tn:
            return self.str_method(o, n, args, kwargs, st, node)
        # lxml-like element API
        if n == "get" and len(args) in (1, 2) and not kwargs:
            base = o.args[0] if o.kind == "attrib" else o
            if o.kind == "attrib" or not tn - {"Any", "None", "?"} or any("lxml" in x for x in tn):
                v = T("xa", base, args[0])
                if len(args) == 2 and args[1] is not NONE:
                    c = T("op", "is", v, NONE)
                    return phi([(frozenset([(c, False)]), v), (frozenset([(c, True)]), args[1])])
                return v
        if n in ("getroot",):
            return T("root", o)
        if n in ("append", "add", "extend", "update", "insert", "setdefault", "pop", "remove", "discard", "clear") and ("list" in str(tn) or o.kind in ("attr", "p", "value", "call", "idx")):
            return self.container_method(o, n, args, kwargs, st, node)
        r = T("call", n, o, tuple(args), tuple(kwargs))
        self.event("call", n, o, args, kwargs, node, r)
        return r

    def str_method(self, o, n, args, kwargs, st, node):
        if o.kind == "k" and all(a.kind == "k" for a in args) and not kwargs and n in ("upper", "lower", "strip", "replace", "split", "startswith", "endswith", "title", "capitalize"):
            try:
                v = getattr(o.args[0], n)(*[a.args[0] for a in args])
                if isinstance(v, list):
                    return T("tup", tuple(K(x) for x in v))
                return K(v)
            except Exception:
                pass
        if n == "join" and o.kind == "k" and len(args) == 1 and args[0].kind == "tup" and not any(x.kind == "star" for x in args[0].args[0]):
            xs = args[0].args[0]
            return self.concat([y for i, x in enumerate(xs) for y in ((o, x) if i and o.args[0] else (x,))])
        if n == "format" and o.kind == "k":
            try:
                out, auto = [], 0
                for lit, field, spec, conv in string.Formatter().parse(o.args[0]):
                    if lit:
                        out.append(K(lit))
                    if field is not None:
                        if spec or conv or "." in field or "[" in field:
                            raise ValueError
                        if field == "" or field.isdigit():
                            x = args[auto if field == "" else int(field)]
                            auto += 1
                        else:
                            x = dict(kwargs)[field]
                        if x.kind == "star":
                            raise ValueError
                        out.append(x)
                return self.concat(out)
            except (ValueError, KeyError, IndexError):
                pass
        r = T("call", "str." + n, o, tuple(args), tuple(kwargs))
        self.event("call", "str." + n, o, args, kwargs, node, r)
        return r

    def container_method(self, o, n, args, kwargs, st, node):
        kw = dict(kwargs)
        if n in ("append", "add"):
            self.put(st, o, None, args[0] if args else UNDEF)
            self.event("mutate", n, o, args, kwargs, node)
            return NONE
        if n == "insert":
            self.put(st, o, None, args[1] if len(args) > 1 else UNDEF, front=True)
            self.event("mutate", n, o, args, kwargs, node)
            return NONE
        if n == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            hit = [e for e in self.entries(st, o) if e[0] is args[0]]
            if not hit:
                self.put(st, o, args[0], d)
                hit = [(args[0], d, EMPTY, ())]
            self.event("mutate", n, o, args, kwargs, node)
            return phi([(EMPTY, e[1]) for e in hit])
        if n in ("extend", "update"):
            if args:
                self.extend(o, args[0], st, node)
            for k, v in kwargs:
                self.put(st, o, K(k), v)
            self.event("mutate", n, o, args, kwargs, node)
            return NONE
        if n == "sort":
            st.heap[(o.id, "#o")] = ("sorted", kw.get("key"), kw.get("reverse"))
            self.event("mutate", n, o, args, kwargs, node)
            return NONE
        if n == "reverse":
            st.heap[(o.id, "#o")] = ("reversed",)
            self.event("mutate", n, o, args, kwargs, node)
            return NONE
        if n in ("pop", "remove", "discard", "clear", "popitem", "popleft"):
            self.event("mutate", n, o, args, kwargs, node)
            if n in ("remove", "discard", "clear"):
                return NONE
            if args and o.kind == "dict":
                return self.index(o, args[0], st, node)
            return self.element(o, st, node)
        if n == "copy":
            return self.copy_container(o, st, node)
        if n == "get" and args:
            ents = self.entries(st, o)
            hit = [(EMPTY, e[1]) for e in ents if e[0] is not None and (e[0] is args[0])]
            if not hit:
                hit = [(e[2], e[1]) for e in ents if e[0] is None or not (e[0].kind == "k" and args[0].kind == "k")]
                d = args[1] if len(args) > 1 else NONE
                c = T("op", "in", args[0], o)
                if not hit and o.kind == "dict":
                    return d
                hit = [(g | {(c, True)}, v) for g, v in hit] or [(frozenset([(c, True)]), T("idx", o, args[0]))]
                hit.append((frozenset([(c, False)]), d))
            return phi(hit)
        if n in ("items", "values", "keys"):
            return T("call", n, o, (), ())
        if n == "union":
            r = self.copy_container(o, st, node)
            for a in args:
                self.extend(r, a, st, node)
            return r
        r = T("call", o.kind + "." + n, o, tuple(args), tuple(kwargs))
        self.event("call", o.kind + "." + n, o, args, kwargs, node, r)
        return r

    def copy_container(self, o, st, node, kind=None):
        kind = kind or (o.kind if o.kind in ("list", "set", "dict") else "list")
        r = self.alloc(kind, node)
        res = []
        st.heap[(r.id, "#c")] = ()
        for g, x in alts(o):
            if kind == "dict" and x.kind != "dict":
                for e in self.entries(st, x):
                    self._putg(st, r, e[0], e[1], e[2] | g)
                if x.kind not in ("dict",) :
                    self._putg(st, r, T("key", x), T("value", x), g)
            elif kind == "dict":
                for e in self.entries(st, x):
                    self._putg(st, r, e[0], e[1], e[2] | g)
            elif x.kind in ("list", "set", "tup", "dict") or (x.kind == "call" and x.args[0] in ("items", "values", "keys", "enumerate", "zip")):
                if x.kind in ("list", "set"):
                    for e in self.entries(st, x):
                        self._putg(st, r, None, e[1], e[2] | g, e[3])
                else:
                    el = self.element(x, st, node)
                    if el.kind == "elem" and el.args[1] == "empty":
                        continue
                    for g2, y in alts(el):
                        self._putg(st, r, None, y, g | g2)
            else:
                self._putg(st, r, None, T("elem", x, "x"), g)
                for e in self.entries(st, x):
                    self._putg(st, r, None, e[1], e[2] | g)
        st.heap[(r.id, "#src")] = o
        oo = st.heap.get((o.id, "#o"))
        if oo is not None and kind == "list":
            st.heap[(r.id, "#o")] = oo
        return r

    def _putg(self, st, obj, key, val, g, loops=()):
        e = (key, val, frozenset(self.guards) | g, tuple(self.loops) + tuple(x for x in loops if x not in self.loops))
        cur = st.heap.get((obj.id, "#c"), ())
        if e not in cur:
            st.heap[(obj.id, "#c")] = cur + (e,)

    def keep_order(self, st, r, src):
        """an order-preserving, element-identical view keeps the order of its source"""
        srcs = vals(src)
        if len(srcs) != 1:
            return
        sv = {e[1].id for e in self.entries(st, srcs[0])} | {T("elem", srcs[0], "x").id, T("elem", srcs[0], "empty").id}
        if all(x.id in sv for e in self.entries(st, r) for x in vals(e[1])):
            o = st.heap.get((srcs[0].id, "#o"))
            if o is not None:
                st.heap[(r.id, "#o")] = o

    # ---- construct
    def construct(self, c, args, kwargs, st, node):
        if c.is_enum:
            return T("call", c.name, None, tuple(args), tuple(kwargs))
        if any(x.split(".")[-1] in ("TypedDict", "dict") for x in c.external_bases):
            return self.builtin("dict", args, kwargs, st, node)
        o = self.alloc("new", node, c)
        self.term_by_id[o.id] = o
        init = c.lookup("__init__")
        bound = None
        if init is not None:
            bound = bind_args(init, [o] + list(args), kwargs)
        elif c.is_dataclass:
            bound = {}
            names = [n for k in reversed(c.mro()) for n in k.classvars]
            for nme, v in zip(names, args):
                bound[nme] = v
            bound.update(dict(kwargs))
        ev = self.event("new", c.name, o, args, kwargs, node, o, bound)
        if init is not None and self.may_inline(init):
            self.call_func(init, [o] + list(args), kwargs, st, node)
        elif c.is_dataclass:
            for n, v in bound.items():
                st.heap[(o.id, n)] = v
        return o

    # ---- function inlining
    def call_func(self, f, args, kwargs, st, node, closure=None, as_entry=False):
        if not as_entry:
            rec = sum(1 for fr in self.stack if fr.func is f)
            if rec >= 1 or len(self.stack) > self.MAXDEPTH or not self.may_inline(f) or \
                    (f.is_abstract and not _has_body(f)) :
                name = (self.method_name([f.cls], f.name) if f.cls else f.name)
                recv = None
                a = list(args)
                if f.cls is not None and not f.is_static and a:
                    recv = a.pop(0)
                r = T("call", name, recv, tuple(a), tuple(kwargs))
                ty = self.ret_types(f)
                if ty:
                    self.types[r.id] = ty
                self.event("call" if rec == 0 else "reccall", name, recv, a, kwargs, node, r, bind_args(f, args, kwargs))
                return r
        self.functions_seen.add(f)
        b = bind_args(f, args, kwargs)
        fr = Frame()
        self.fidc += 1
        fr.fid, fr.func, fr.module, fr.cls = self.fidc, f, f.module, f.cls
        fr.returns, fr.captured, fr.loopctl, fr.yields = [], False, None, None
        fr.parent_fid = closure
        p = f
        if fr.cls is None:
            while p.parent is not None:
                p = p.parent
            fr.cls = p.cls
        fr.entry_guards = tuple(self.guards)
        fr.self_term = args[0] if (f.cls is not None and not f.is_static and args) else None
        self.parent_of[fr.fid] = closure
        oldcs = self.callsites
        oldloops_n = len(self.loops)
        if not as_entry:
            KEEP[id(node)] = node
            self.callsites = self.callsites + (id(node),)
            self.event("enter", f.fullname, fr.self_term, args, kwargs, node, None, b)
        d = {}
        st.frames[fr.fid] = d
        self.stack.append(fr)
        for (n, kind, ann, default) in f.params:
            if n in b:
                d[n] = b[n]
            elif kind == "var":
                d[n] = b.get("*" + n, T("tup", ()))
            elif kind == "kwvar":
                if as_entry or any(k == "**" and v.kind != "p" for k, v in kwargs):
                    d[n] = next((v for k, v in kwargs if k == "**"), T("p", f.fullname, n))
                else:
                    kd = next((v for k, v in kwargs if k == "**"), None)
                    if kd is None:
                        kd = self.alloc("dict", f.node, "kw")
                        st.heap[(kd.id, "#c")] = tuple((K(k[2:]), v, EMPTY, ()) for k, v in b.items() if k.startswith("**"))
                    d[n] = kd
            elif default is not None:
                # defaults are evaluated in the defining scope
                d[n] = self.ev(default, st)
            else:
                d[n] = T("p", f.fullname, n)
            if kind in ("pos", "kw") and ann is not None and d[n].kind not in ("new", "list", "dict", "set", "k", "phi") and not self.types.get(d[n].id):
                cs = _ann_classes(self.p, f.module, ann, f)
                if cs:
                    self.types[d[n].id] = {c.fullname for c in cs}
        n0 = len(self.guards)
        end = self.exec_block(f.node.body, st)
        del self.guards[n0:]
        rets = [(frozenset(g), v, s) for g, v, s in fr.returns]
        if fr.yields is not None:
            rets = [(EMPTY, fr.yields, s) for _, _, s in fr.returns]
            if end is not None:
                rets.append((EMPTY, fr.yields, end))
        elif end is not None:
            rets.append((EMPTY if not rets else EMPTY, NONE, end))
        self.stack.pop()
        self.callsites = oldcs
        if not rets:
            # function never returns normally
            out = st
            val = T("noret", f.fullname)
        else:
            j = self.joinmany([(g, s) for g, _, s in rets])
            val = phi([(g, v) for g, v, _ in rets])
            if len(rets) > 1 and end is not None and fr.yields is None:
                pass
            out = j
        if out is not st:
            st.frames.clear()
            st.frames.update(out.frames)
            st.heap.clear()
            st.heap.update(out.heap)
        if not fr.captured:
            st.frames.pop(fr.fid, None)
        else:
            self.closures[fr.fid] = dict(st.frames.get(fr.fid, d))
            st.frames.pop(fr.fid, None)
        if not as_entry:
            self.event("leave", f.fullname, None, [val], [], node)
        return val

    def e_Lambda(self, e, st):
        fr = self.stack[-1]
        fr.captured = True
        self.lamsnap[(id(e), fr.fid)] = fr
        self.lamnode[id(e)] = e
        KEEP[id(e)] = e
        return T("lam", id(e), fr.fid)

    lamsnap = {}
    lamnode = {}

    def call_lambda(self, o, args, kwargs, st, node):
        e = self.lamnode[o.args[0]]
        if sum(1 for x in self.stack if x.func is not None and x.func.node is e) > 1 or len(self.stack) > self.MAXDEPTH:
            return T("call", "lambda", o, tuple(args), tuple(kwargs))
        deffr = self.lamsnap.get((o.args[0], o.args[1]))
        fr = Frame()
        self.fidc += 1
        fr.fid, fr.func, fr.module, fr.cls = self.fidc, deffr.func, deffr.module, deffr.cls
        fr.returns, fr.captured, fr.loopctl, fr.yields = [], False, None, None
        fr.parent_fid = deffr.fid
        fr.entry_guards = tuple(self.guards)
        fr.self_term = deffr.self_term
        self.parent_of[fr.fid] = deffr.fid
        d = {}
        pos = [a.arg for a in e.args.posonlyargs + e.args.args]
        dn = len(pos) - len(e.args.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                d[n] = args[i]
            elif n in dict(kwargs):
                d[n] = dict(kwargs)[n]
            elif i >= dn:
                d[n] = self.ev(e.args.defaults[i - dn], st)
            else:
                d[n] = T("p", "lambda", n)
        for a, dflt in zip(e.args.kwonlyargs, e.args.kw_defaults):
            d[a.arg] = dict(kwargs).get(a.arg, self.ev(dflt, st) if dflt is not None else T("p", "lambda", a.arg))
        if e.args.vararg:
            d[e.args.vararg.arg] = T("tup", tuple(args[len(pos):]))
        if e.args.kwarg:
            d[e.args.kwarg.arg] = T("p", "lambda", e.args.kwarg.arg)
        st.frames[fr.fid] = d
        oldcs = self.callsites
        KEEP[id(node)] = node
        self.callsites = self.callsites + (id(node),)
        self.stack.append(fr)
        v = self.ev(e.body, st)
        self.stack.pop()
        self.callsites = oldcs
        if not fr.captured:
            st.frames.pop(fr.fid, None)
        return v

    # ---- builtins and externals
    def builtin(self, n, args, kwargs, st, node):
        kw = dict(kwargs)
        a0 = args[0] if args else None
        base = n.split(".")[-1]
        if n in ("typing.cast", "cast") and len(args) == 2:
            return args[1]
        if n in ("list", "set", "tuple", "frozenset", "dict", "collections.deque", "collections.OrderedDict", "collections.defaultdict") or base in ("defaultdict", "OrderedDict", "deque"):
            kind = "dict" if "dict" in n.lower() else ("set" if "set" in n else "list")
            fact = None
            if base == "defaultdict":
                fact = args[0] if args else None
                a0 = args[1] if len(args) > 1 else None
            if a0 is None:
                r = self.alloc(kind, node)
                if fact is not None:
                    st.heap[(r.id, "#default")] = fact
                st.heap.setdefault((r.id, "#c"), ())
                if not self.loops:
                    st.heap[(r.id, "#c")] = ()
                for k, v in kwargs:
                    self.put(st, r, K(k), v)
                return r
            if n == "tuple" and a0.kind == "tup":
                return a0
            r = self.copy_container(a0, st, node, kind)
            if kind == "set":
                st.heap[(r.id, "#o")] = ("set",)
            return r
        if n in ("copy.copy", "copy.deepcopy", "copy", "deepcopy") and a0 is not None:
            if a0.kind in ("list", "dict", "set"):
                return self.copy_container(a0, st, node)
            return T("copy", a0, base)
        if n == "sorted" and a0 is not None:
            r = self.copy_container(a0, st, node, "list")
            st.heap[(r.id, "#o")] = ("sorted", kw.get("key"), kw.get("reverse"))
            self.event("call", "sorted", None, args, kwargs, node, r)
            return r
        if self.FROMKEYS and n in ("dict.fromkeys", "builtins.dict.fromkeys") and a0 is not None and len(args) == 1:
            return self.copy_container(a0, st, node, "list")    # its keys, in order
        if n == "reversed" and a0 is not None:
            r = self.copy_container(a0, st, node, "list")
            st.heap[(r.id, "#o")] = ("reversed",)
            return r
        if n == "iter" and a0 is not None:
            return a0
        if n == "next" and a0 is not None:
            v = self.element(a0, st, node)
            es = self.entries(st, a0) if a0.kind in ("list", "set") else ()
            if es and v.kind != "phi":
                v = pick(es, v)
            if len(args) > 1:
                return phi([(EMPTY, v), (frozenset([(T("op", "empty", a0), True)]), args[1])])
            return v
        if n == "filter" and len(args) == 2:
            r = self.alloc("list", node)
            st.heap[(r.id, "#c")] = ()
            el = self.element(args[1], st, node)
            for g, x in alts(el):
                n0 = len(self.guards)
                if args[0] is NONE:
                    c = x
                else:
                    c = phi([(gg, self.call_value(fo, [x], [], st, node)) for gg, fo in alts(args[0])])
                if truth(c) is False:
                    continue
                self.guards.extend(flat_guard(c, True))
                self._putg(st, r, None, x, g)
                del self.guards[n0:]
            st.heap[(r.id, "#src")] = args[1]
            self.keep_order(st, r, args[1])
            return r
        if n == "map" and len(args) >= 2:
            r = self.alloc("list", node)
            st.heap[(r.id, "#c")] = ()
            for g, x in alts(self.element(args[1], st, node)):
                v = phi([(gg, self.call_value(fo, [x] + [self.element(y, st, node) for y in args[2:]], [], st, node)) for gg, fo in alts(args[0])])
                self._putg(st, r, None, v, g)
            st.heap[(r.id, "#src")] = args[1]
            self.keep_order(st, r, args[1])
            return r
        if n == "isinstance" and len(args) == 2:
            cls = [x.args[0] for x in (args[1].args[0] if args[1].kind == "tup" else [args[1]]) if x.kind == "cls"]
            if a0.kind == "new" and cls:
                return TRUE if any(a0.args[0].is_subclass_of(c) for c in cls) else FALSE
            if a0.kind in ("list", "dict", "set", "k", "tup") and cls and args[1].kind == "cls":
                return FALSE
            return T("op", "isinstance", a0, args[1])
        if n == "getattr" and len(args) >= 2 and args[1].kind == "k":
            return self.getattr(a0, args[1].args[0], st, node)
        if n in ("bisect.insort", "insort", "bisect.insort_right", "bisect.insort_left") and len(args) >= 2:
            old = st.heap.get((a0.id, "#o"))
            self.put(st, a0, None, args[1])
            st.heap[(a0.id, "#o")] = ("insort", kw.get("key"), old)
            self.event("mutate", "insort", a0, args, kwargs, node)
            return NONE
        if n == "itertools.chain" or n == "chain":
            r = self.alloc("list", node)
            st.heap[(r.id, "#c")] = ()
            for a in args:
                self.extend(r, a, st, node)
            return r
        if n == "str" and self.inline_str and len(args) == 1 and not kwargs:
            out = []
            for g, x in alts(a0):
                m = x.args[0].lookup("__str__") if x.kind == "new" and hasattr(x.args[0], "lookup") else None
                out.append((g, self.call_func(m, [x], [], st, node) if m is not None and m.cls is not None else
                            (K(str(x.args[0])) if x.kind == "k" else T("call", "str", None, (x,), ()))))
            return phi(out)
        if n == "str" and a0 is not None and a0.kind == "k":
            return K(str(a0.args[0]))
        if n == "bool" and a0 is not None:
            return a0 if a0.kind == "op" else T("op", "bool", a0)
        if n == "len" and a0 is not None:
            return T("call", "len", None, (a0,), ())
        if n in ("any", "all") and a0 is not None:
            el = [e for e in self.entries(st, a0)]
            src = st.heap.get((a0.id, "#src"))
            r = T("quant", n, tuple(e[1] for e in el), src if src is not None else a0)
            return r
        if n == "functools.partial" and a0 is not None:
            return T("partial", a0, tuple(args[1:]), tuple(kwargs))
        r = T("call", n, None, tuple(args), tuple(kwargs))
        self.event("call", n, None, args, kwargs, node, r)
        # callables passed to unknown externals are assumed to be invoked once with unknown arguments
        return r

    # ---- other expressions
    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, st)
                if v.format_spec is not None or v.conversion not in (-1, None):
                    x = T("fmt", x, ast.unparse(v.format_spec) if v.format_spec is not None else str(v.conversion))
                parts.append(x)
        return self.concat(parts)

    def concat(self, parts):
        # merge constants
        out = []
        for x in parts:
            if x.kind == "fstr":
                xs = list(x.args[0])
            else:
                xs = [x]
            for y in xs:
                if out and out[-1].kind == "k" and y.kind == "k":
                    out[-1] = K(str(out[-1].args[0]) + str(y.args[0]))
                else:
                    out.append(y)
        if len(out) == 1 and out[0].kind == "k":
            return K(str(out[0].args[0]))
        if not out:
            return K("")
        return T("fstr", tuple(out))

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        op = type(e.op).__name__.lower()
        if a.kind == "k" and b.kind == "k":
            try:
                if op == "add":
                    return K(a.args[0] + b.args[0])
                if op == "sub":
                    return K(a.args[0] - b.args[0])
            except Exception:
                pass
        ak = {x.kind for x in vals(a)}
        bk = {x.kind for x in vals(b)}
        if op in ("add", "bitor", "sub", "bitand") and ({"list", "set", "dict"} & (ak | bk)):
            kind = next(iter(k for k in ("list", "set", "dict") if k in ak | bk))
            r = self.copy_container(a, st, e, kind)
            if op in ("add", "bitor"):
                self.extend(r, b, st, e)
            st.heap[(r.id, "#o")] = ("append",) if kind == "list" else ("set",)
            return r
        if op == "add" and (is_str(a) or is_str(b)):
            return self.concat([a, b])
        if op == "mod" and a.kind == "k" and isinstance(a.args[0], str):
            bs = list(b.args[0]) if b.kind == "tup" else [b]
            ps = re.split(r"%s", a.args[0])
            if len(ps) == len(bs) + 1 and not any("%" in x for x in ps) and not any(x.kind in ("star", "dict") for x in bs):
                return self.concat([y for x, z in zip(ps, bs + [None]) for y in ((K(x),) if z is None else (K(x), z)) if not (y.kind == "k" and y.args[0] == "")])
        return T("op", op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        op = type(e.op).__name__.lower()
        if op == "not":
            t = truth(v)
            if t is not None:
                return K(not t)
            return neg(v)
        if op == "usub" and v.kind == "k" and isinstance(v.args[0], (int, float)):
            return K(-v.args[0])
        return T("op", op, v)

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        n0 = len(self.guards)
        vs = []
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            t = truth(v)
            if op == "and" and t is False:
                if not vs:
                    del self.guards[n0:]
                    return v
                vs.append(v)
                break
            if op == "or" and t is True:
                vs.append(v)
                break
            if t is not None and i < len(e.values) - 1:
                continue      # neutral constant
            vs.append(v)
            self.guards.extend(flat_guard(v, op == "and"))
        del self.guards[n0:]
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 2 and {x.kind for x in vals(vs[1])} & {"list", "dict", "set", "new", "tup"}:
            # 'x or <container>' used as a value: alternatives
            pol = op == "or"
            return phi([(frozenset([(vs[0], pol)]), vs[0]), (frozenset([(vs[0], not pol)]), vs[1])])
        flat = []
        for v in vs:
            if v.kind == "op" and v.args[0] == op:
                flat.extend(v.args[1:])
            else:
                flat.append(v)
        return T("op", op, *flat)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            out.append(compare(type(op).__name__, left, right, self, st))
            left = right
        if len(out) == 1:
            return out[0]
        return T("op", "and", *out)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        t = truth(c)
        if t is True:
            return self.ev(e.body, st)
        if t is False:
            return self.ev(e.orelse, st)
        n0 = len(self.guards)
        self.assume(c, True)
        a = self.ev(e.body, st)
        del self.guards[n0:]
        self.assume(c, False)
        b = self.ev(e.orelse, st)
        del self.guards[n0:]
        return phi([(frozenset(flat_guard(c, True)), a), (frozenset(flat_guard(c, False)), b)])

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.append(T("star", self.ev(x.value, st)))
            else:
                out.append(self.ev(x, st))
        return T("tup", tuple(out))

    def _coll(self, e, st, kind):
        r = self.alloc(kind, e)
        st.heap[(r.id, "#c")] = ()
        lit = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.extend(r, self.ev(x.value, st), st, e)
                lit = False
            else:
                v = self.ev(x, st)
                self._putg(st, r, None, v, EMPTY)
        st.heap[(r.id, "#o")] = ("set",) if kind == "set" else ("append",)
        if lit and e.elts:
            st.heap[(r.id, "#lit")] = TRUE
        return r

    def e_List(self, e, st):
        return self._coll(e, st, "list")

    def e_Set(self, e, st):
        return self._coll(e, st, "set")

    def e_Dict(self, e, st):
        r = self.alloc("dict", e)
        st.heap[(r.id, "#c")] = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.extend(r, self.ev(v, st), st, e)
            else:
                self.put(st, r, self.ev(k, st), self.ev(v, st))
        return r

    def _comp(self, e, st, kind):
        r = self.alloc(kind, e)
        st.heap[(r.id, "#c")] = ()
        saved = dict(self.cur(st))
        srcs = []

        def gens(i):
            if i == len(e.generators):
                if kind == "dict":
                    self._putg(st, r, self.ev(e.key, st), self.ev(e.value, st), EMPTY)
                else:
                    self._putg(st, r, None, self.ev(e.elt, st), EMPTY)
                return
            gen = e.generators[i]
            it = self.ev(gen.iter, st)
            srcs.append(it)
            self.event("loop", "for", it, [], [], e)
            for g, x in self.split_element(it, st, e) or [(EMPTY, self.element(it, st, e))]:
                n0, l0 = len(self.guards), len(self.loops)
                self.guards.extend(g)
                self.loops.append((id(gen), self.callsites))
                self.assign(gen.target, x, st, e)
                dead = False
                for c in gen.ifs:
                    cv = self.cond(c, st)
                    if truth(cv) is False:
                        dead = True
                    self.assume(cv, True)
                if not dead:
                    gens(i + 1)
                del self.guards[n0:]
                del self.loops[l0:]
        gens(0)
        src = srcs[0] if srcs else None
        d = self.cur(st)
        for gen in e.generators:
            for n in ast.walk(gen.target):
                if isinstance(n, ast.Name):
                    if n.id in saved:
                        d[n.id] = saved[n.id]
                    else:
                        d.pop(n.id, None)
        st.heap[(r.id, "#src")] = src
        st.heap[(r.id, "#o")] = ("set",) if kind == "set" else ("append",)
        if kind == "list" and len(e.generators) == 1:
            self.keep_order(st, r, src)
        return r

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict")

    def e_Starred(self, e, st):
        return T("star", self.ev(e.value, st))

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else NONE
            stp = self.ev(e.slice.step, st) if e.slice.step is not None else NONE
            if lo is NONE and hi is NONE and stp is NONE:
                if b.kind in ("list", "attr"):
                    return self.copy_container(b, st, e)
            return T("slice", b, lo, hi, stp)
        k = self.ev(e.slice, st)
        if b.kind in ("cls", "ext"):
            return b       # generic alias
        return phi([(g, self.index(o, k, st, e)) for g, o in alts(b)])

    def index(self, o, k, st, node, unpack=None):
        if o.kind == "phi":
            return phi([(g, self.index(x, k, st, node, unpack)) for g, x in alts(o)])
        if o.kind == "tup" and k.kind == "k" and isinstance(k.args[0], int) and not any(x.kind == "star" for x in o.args[0]):
            i = k.args[0]
            if -len(o.args[0]) <= i < len(o.args[0]):
                return o.args[0][i]
        if o.kind == "attrib":
            return T("xa", o.args[0], k)
        ents = self.entries(st, o)
        if o.kind == "dict" or (ents and any(e[0] is not None for e in ents)):
            hit = [(EMPTY, e[1]) for e in ents if e[0] is k]
            if hit:
                return phi(hit)
            hit = [(e[2], e[1]) for e in ents if e[0] is None or not (e[0].kind == "k" and k.kind == "k")]
            fact = st.heap.get((o.id, "#default"))
            if fact is not None:
                for g, fo in alts(fact):
                    if fo.kind == "ext" and fo.args[0].split(".")[-1].lower() in ("list", "set", "dict"):
                        v = T(fo.args[0].split(".")[-1].lower(), f"dd{o.id}:{k.id}")
                        st.heap.setdefault((v.id, "#c"), ())
                    elif fo.kind in ("lam", "fn", "cls"):
                        v = self.call_value(fo, [], [], st, node)
                    else:
                        v = T("idx", o, k)
                    self._putg(st, o, k, v, EMPTY)
                    return v
            if o.kind != "dict":
                hit.append((EMPTY, T("idx", o, k)))
            if hit:
                return phi(hit)
            return T("idx", o, k)
        if o.kind == "list" and ents:
            if k.kind == "k" and isinstance(k.args[0], int) and st.heap.get((o.id, "#lit")) and 0 <= k.args[0] < len(ents):
                return ents[k.args[0]][1]
            r = phi([(e[2], e[1]) for e in ents])
            if r.kind != "phi":
                r = pick(ents, r)
            return r
        if unpack is not None:
            return T("unpack", o, k.args[0], unpack)
        return T("idx", o, k)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------ entry
    def push_module_frame(self, module, func=None, cls=None):
        fr = Frame()
        self.fidc += 1
        fr.fid, fr.func, fr.module, fr.cls = self.fidc, func or _ModFunc(module), module, cls
        fr.returns, fr.captured, fr.loopctl, fr.yields = [], True, None, None
        fr.parent_fid, fr.entry_guards, fr.self_term = None, (), None
        self.stack.append(fr)
        return fr

    def run_module(self, module):
        """Interpret the top-level statements of a module (definitions and assignments)."""
        st = State()
        fr = self.push_module_frame(module)
        st.frames[fr.fid] = {}
        for s in module.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or is_main_guard(s):
                continue
            st = self.exec(s, st)
        self.final = st
        return st, st.frames[fr.fid]

    def run(self, f: FuncInfo, args=None, self_term=None, heap=None):
        """Analyse f with symbolic parameters. args: dict name->term."""
        args = dict(args or {})
        st = State()
        if heap:
            st.heap.update(heap)
        # closure parents: symbolic
        params = [n for n, k, a, d in f.params]
        pos = []
        kw = []
        first = True
        for n, k, a, d in f.params:
            if k in ("var", "kwvar"):
                continue
            if n in args:
                v = args[n]
            elif first and f.cls is not None and not f.is_static:
                v = self_term if self_term is not None else T("p", f.fullname, n)
                if f.cls is not None and not f.is_classmethod:
                    self.types.setdefault(v.id, {f.cls.fullname})
                if f.is_classmethod:
                    v = T("cls", f.cls)
            else:
                v = T("p", f.fullname, n)
            first = False
            kw.append((n, v))
            self.term_by_id[v.id] = v
        top = Frame()
        self.fidc += 1
        top.fid, top.func, top.module, top.cls = self.fidc, f, f.module, f.cls
        top.returns, top.captured, top.loopctl, top.yields = [], False, None, None
        top.parent_fid, top.entry_guards, top.self_term = None, (), None
        st.frames[top.fid] = {}
        self.stack.append(top)
        self.callsites = ()
        if f.cls is not None and not f.is_static:
            a = [kw[0][1]]
            k = kw[1:]
        else:
            a, k = [], kw
        closure = None
        val = self.call_func(f, a, k, st, f.node, closure=closure, as_entry=True)
        self.stack.pop()
        self.final = st
        return val, st


class _ModFunc:
    """stands for module-level code where a FuncInfo is expected"""
    def __init__(self, module):
        self.module, self.name, self.qualname, self.cls, self.parent, self.nested = module, "<module>", "<module>", None, None, {}
        self.node = module.tree
        self.fullname = module.name + ".<module>"
        self.params = []

    def loc(self, node=None):
        return f"{self.module.relpath}:{getattr(node, 'lineno', 0)}"


MUTATORS = {"append", "add", "extend", "update", "insert", "setdefault", "pop", "remove", "discard", "clear", "sort", "reverse", "popitem"}


def _load_expr(t):
    return t


def _load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    n = ast.copy_location(n, t)
    return n


def _has_loopctl(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


def _has_body(f):
    for s in f.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Raise):
            continue
        return True
    return False


def bind_args(f, args, kwargs):
    """bind to parameter names -> dict (extra positional under '*name')"""
    out = {}
    pos = [n for n, k, a, d in f.params if k == "pos"]
    var = [n for n, k, a, d in f.params if k == "var"]
    rest = []
    for i, a in enumerate(args):
        if a.kind == "star":
            break
        if i < len(pos):
            out[pos[i]] = a
        else:
            rest.append(a)
    if var and rest:
        out["*" + var[0]] = T("tup", tuple(rest))
    names = {n for n, k, a, d in f.params if k in ("pos", "kw")}
    for n, v in kwargs:
        if n in names:
            out[n] = v
        else:
            out["**" + n] = v
    return out


def is_str(t):
    return t.kind == "fstr" or (t.kind == "k" and isinstance(t.args[0], str)) or (t.kind == "call" and str(t.args[0]).startswith("str"))


ORACLE = None               # decides conditions about attributes whose values are given (sa/known.py)


def truth(c):
    if c.kind == "k":
        return bool(c.args[0])
    if c.kind in ("fn", "cls", "lam", "bm", "mod", "enum"):
        return True
    if c.kind == "new" and not (c.args[0].lookup("__bool__") or c.args[0].lookup("__len__")):
        return True
    if c.kind == "tup":
        return bool(c.args[0])
    if c.kind == "phi":
        vs = {truth(x) for x in vals(c)}
        if len(vs) == 1:
            return vs.pop()
    if c.kind == "op" and c.args[0] in ("and", "or"):
        vs = [truth(x) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if c.kind == "op" and c.args[0] == "not":
        v = truth(c.args[1])
        if v is not None:
            return not v
    if ORACLE is not None:
        return ORACLE(c)
    return None


def neg(v):
    if v.kind == "op":
        o = v.args[0]
        if o == "not":
            return v.args[1]
    return T("op", "not", v)


def flat_guard(c, pol):
    """decompose a condition into (atom, polarity) conjuncts"""
    if c.kind == "op":
        o = c.args[0]
        if o == "not":
            return flat_guard(c.args[1], not pol)
        if o == "and" and pol:
            out = []
            for x in c.args[1:]:
                out += flat_guard(x, True)
            return out
        if o == "or" and not pol:
            out = []
            for x in c.args[1:]:
                out += flat_guard(x, False)
            return out
        if o == "bool":
            return flat_guard(c.args[1], pol)
    return [(c, pol)]


def known_guard(guards, c):
    want = flat_guard(c, True)
    gs = {(x.id, p) for x, p in guards}
    if all((x.id, p) in gs for x, p in want):
        return True
    if len(want) == 1 and (want[0][0].id, not want[0][1]) in gs:
        return False
    return None


def compare(op, a, b, I, st):
    # canonical forms: is/eq/in/lt/le with negation outside
    if op in ("IsNot",):
        return neg_fold(compare("Is", a, b, I, st))
    if op == "NotEq":
        return neg_fold(compare("Eq", a, b, I, st))
    if op == "NotIn":
        return neg_fold(compare("In", a, b, I, st))
    if op == "Gt":
        return T("op", "lt", b, a)
    if op == "GtE":
        return T("op", "le", b, a)
    if op == "Lt":
        return T("op", "lt", a, b)
    if op == "LtE":
        return T("op", "le", a, b)
    if op == "Is":
        if a.kind == "k" and b.kind != "k":
            a, b = b, a
        if a is b and a.kind in ("k", "cls", "enum"):
            return TRUE
        if b is NONE:
            r = is_none(a)
            if r is not None:
                return K(r)
        if a.kind in ("cls", "enum") and b.kind in ("cls", "enum"):
            return K(a is b)
        return T("op", "is", a, b)
    if op == "Eq":
        if a.kind in ("k", "enum") and b.kind not in ("k", "enum"):
            a, b = b, a
        if a.kind == "k" and b.kind == "k":
            return K(a.args[0] == b.args[0])
        if a.kind in ("enum", "cls") and b.kind in ("enum", "cls"):
            return K(a is b)
        if b is NONE:
            r = is_none(a)
            if r is not None:
                return K(r)
            return T("op", "is", a, b)
        if a.kind == "phi" and b.kind in ("k", "enum"):
            vs = vals(a)
            if all(x.kind == b.kind for x in vs) and all(x is not b for x in vs):
                return FALSE
        return T("op", "eq", a, b)
    if op == "In":
        if a.kind == "k" and b.kind in ("tup",) and all(x.kind == "k" for x in b.args[0]):
            return K(any(x is a for x in b.args[0]))
        if a.kind == "k" and b.kind in ("list", "set") and st.heap.get((b.id, "#lit")):
            es = I.entries(st, b)
            if all(e[1].kind == "k" for e in es):
                return K(any(e[1] is a for e in es))
        if b.kind in ("list", "set") and st.heap.get((b.id, "#lit")):
            es = I.entries(st, b)
            b = T("tup", tuple(e[1] for e in es))
        if b.kind == "k" and a.kind == "k" and isinstance(b.args[0], str) and isinstance(a.args[0], str):
            return K(a.args[0] in b.args[0])
        if b.kind == "attrib":
            return neg(T("op", "is", T("xa", b.args[0], a), NONE))
        if b.kind == "call" and b.args[0] == "keys":
            b = b.args[1]
        return T("op", "in", a, b)
    return T("op", op.lower(), a, b)


def neg_fold(c):
    t = truth(c)
    if t is not None and c.kind == "k":
        return K(not t)
    return neg(c)


def is_none(a):
    if a is NONE:
        return True
    if a.kind in ("k", "new", "list", "dict", "set", "tup", "fstr", "fn", "lam", "cls", "enum", "mod"):
        return False
    if a.kind == "sym" and a.args[0] == "given":
        return False
    if a.kind == "phi":
        vs = {is_none(x) for x in vals(a)}
        if len(vs) == 1:
            return vs.pop()
    return None


_ac = {}


def _ann_classes(p, module, ann, func=None):
    """project classes named in an annotation (top-level union / Optional members only)"""
    key = (module.name, ast.dump(ann))
    if key in _ac:
        return _ac[key]
    out = []

    def go(a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return
        if isinstance(a, ast.BinOp):
            go(a.left)
            go(a.right)
        elif isinstance(a, ast.Subscript):
            d = dotted(a.value) or ""
            if d.split(".")[-1] in ("Optional", "Union", "Final"):
                for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]):
                    go(x)
            else:
                r = p.resolve_expr(module, a.value, func)
                if r and r[0] == "class":
                    out.append(r[1])
        elif isinstance(a, (ast.Name, ast.Attribute)):
            r = p.resolve_expr(module, a, func)
            if r and r[0] == "class":
                out.append(r[1])
    go(ann)
    _ac[key] = out
    return out
