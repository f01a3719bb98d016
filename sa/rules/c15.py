"""C15: nothing parsed is kept in places shared by all filings of a process."""
import ast
from ..project import AnalysisError, dotted
from ..flow import Flow, mutation_sites, EMPTY

# user settings whose documented purpose is to hold for the whole process, and the operation that changes them
SETTINGS = {("cv", "BrelConfig", "output_params")}
PROCESS_WIDE = {"os.chdir", "os.putenv", "os.unsetenv", "os.umask", "locale.setlocale", "socket.setdefaulttimeout", "urllib.request.install_opener",
                "lxml.etree.set_default_parser", "lxml.etree.register_namespace", "sys.setrecursionlimit", "random.seed", "decimal.setcontext",
                "builtins.setattr", "importlib.reload", "etree.set_default_parser"}
CACHES = {"lru_cache", "cache", "cached", "memoize", "cachedmethod"}
IMMUTABLE = {"builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.bytes", "None", "builtins.tuple", "re.Pattern", "datetime.date", "builtins.frozenset"}


def immutable_value(v):
    if v is None or isinstance(v, ast.Constant):
        return True
    if isinstance(v, ast.Tuple):
        return all(immutable_value(x) for x in v.elts)
    if isinstance(v, (ast.JoinedStr, ast.Compare, ast.Lambda)):
        return True
    if isinstance(v, ast.UnaryOp):
        return immutable_value(v.operand)
    return False


class Shared(Flow):
    def __init__(self, p):
        super().__init__(p)
        self.inst = {}
        for c in p.classes.values():
            s = set()
            for f in c.methods.values():
                if f.name == "__init__" or f.name == "__new__":
                    for n in p.own_nodes(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params[0][0]:
                            s.add(n.attr)
            self.inst[c] = s
        self.roots = {}
        self.memo = {}

    def root(self, *r):
        self.roots.setdefault(r, True)
        return frozenset({(r, 0)})

    def source(self, f, e):
        k = (id(e), f.fullname)
        if isinstance(e, (ast.Name, ast.Attribute)):
            if k not in self.memo:
                self.memo[k] = self._source(f, e)
            return self.memo[k]
        return EMPTY

    def _source(self, f, e):
        p = self.p
        if isinstance(e, ast.Name):
            if self.var_key(f, e.id)[0] == "v":
                return EMPTY
            r = p.resolve_expr(f.module, e, f)
            if r is not None and r[0] == "var":
                if all(immutable_value(x) for x in r[1]):
                    return EMPTY
                m = r[2] if len(r) > 2 else f.module
                return self.root("gv", m.name, e.id)
            if r is not None and r[0] == "class":
                return self.root("class", r[1].name, "")
            return EMPTY
        r = p.resolve_expr(f.module, e, f)
        if r is not None and r[0] == "var" and not all(immutable_value(x) for x in r[1]):
            return self.root("gv", (r[2] if len(r) > 2 else f.module).name, e.attr)
        if r is not None and r[0] == "classvar":
            v = r[1].classvars[r[2]]
            if r[1].is_enum or (v is not None and immutable_value(v)):
                return EMPTY
            return self.root("cv", r[1].name, r[2])
        if isinstance(e.value, ast.Name):
            g = f
            while g is not None and not (g.cls is not None and g.params and g.params[0][0] == e.value.id and not g.is_static):
                g = g.parent
            c = g.cls if g is not None else None
            if c is not None:
                for k in c.mro():
                    if e.attr in k.classvars and not k.is_enum and not k.is_dataclass:
                        if any(e.attr in self.inst[x] for x in c.mro()) and not g.is_classmethod:
                            return EMPTY
                        v = k.classvars[e.attr]
                        if v is None or immutable_value(v):
                            return EMPTY
                        return self.root("cv", k.name, e.attr)
        return EMPTY

    def params(self, f):
        for n, k, a, d in f.params:
            if d is not None and not immutable_value(d):
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                    self.add(("v", f.fullname, id(f.node), n), self.root("default", f.qualname, n))
        if f.cls is not None and f.is_classmethod and f.params:
            self.add(("v", f.fullname, id(f.node), f.params[0][0]), self.root("class", f.cls.name, ""))

    def unknown_call(self, f, call, name, recv, args):
        if name in ("type",) and isinstance(call.func, ast.Name) and len(call.args) == 1:
            if f.cls is not None and isinstance(call.args[0], ast.Name) and f.params and call.args[0].id == f.params[0][0]:
                return self.root("class", f.cls.name, "")
        return None


def describe(r):
    k, a, b = r
    return {"gv": f"the module-level {a}.{b}", "cv": f"the class-level {a}.{b}", "class": f"the class {a} itself",
            "default": f"the default value of parameter {b} of {a}", "cached": f"the remembered result of {a}"}[k]


def check(p, rep, tier):
    rep.rule("R1-no-shared-mutation", "no function changes an object rooted in a module variable, a class variable, a class or a default argument", 500)
    rep.rule("R2-no-global-write", "no function rebinds a module variable or a class attribute", 500)
    rep.rule("R3-no-remembering", "no result is remembered for the whole process unless arguments and result are immutable", 500)
    rep.rule("R4-process-settings", "no function changes process-wide settings", 500)
    rep.rule("R5-lazy-cache", "each object a filing creates on first use is remembered under a name of its own, in the filing itself", 8)
    rep.rule("R6-settings", "process-wide output settings are only changed through class-level operations", 2)
    F = Shared(p)
    rounds = F.run()
    rep.stats["propagation_rounds"] = rounds
    for r in F.roots:
        rep.saw("shared objects", describe(r))
    for f in F.funcs:
        hit = []
        for n, ls, t, what in mutation_sites(F, f):
            for r, d in ls:
                if d not in (0, 1):
                    continue
                if r in SETTINGS and f.cls is not None and f.cls.name == r[1]:
                    continue
                if r[0] == "class":
                    if d == 0 and what.startswith("attribute") and ("cv", r[1], what.split()[1]) in SETTINGS:
                        continue
                    if d == 1:
                        continue      # an attribute reached through a class is a root of its own
                hit.append((r, what, n))
        rep.ob("R1-no-shared-mutation", f.qualname, not hit, f"{f.qualname} changes {describe(hit[0][0]) if hit else ''} ({hit[0][1] if hit else ''})",
               f.loc(hit[0][2]) if hit else f.loc(), key=f"R1:{f.qualname}:{':'.join(hit[0][0]) if hit else ''}")
        bad = None
        for n in p.own_nodes(f):
            if isinstance(n, ast.Global):
                stores = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                if stores & set(n.names):
                    bad = (n, sorted(stores & set(n.names))[0])
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute):
                        r = p.resolve_expr(f.module, t.value, f)
                        if r is not None and r[0] == "mod" and not (isinstance(t.value, ast.Name) and F.var_key(f, t.value.id)[0] == "v"):
                            bad = (n, r[1] + "." + t.attr)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Call) and dotted(t.value.func) in ("globals", "vars"):
                        bad = (n, "globals()")
        rep.ob("R2-no-global-write", f.qualname, bad is None, f"{f.qualname} rebinds {bad[1] if bad else ''}", f.loc(bad[0]) if bad else f.loc(), key=f"R2:{f.qualname}")
        dec = [d for d in f.decorators if d.split(".")[-1] in CACHES]
        ok = True
        if dec:
            ann = [a for n, k, a, d in f.params if not (f.cls is not None and n == f.params[0][0])] + [f.node.returns]
            ok = f.cls is None and all(a is not None and ast.unparse(a).strip("'\"") in ("str", "int", "float", "bool", "bytes", "None", "Optional[str]", "re.Pattern", "tuple[str, ...]", "str | None") for a in ann)
        rep.ob("R3-no-remembering", f.qualname, ok, f"{f.qualname} remembers its results for the whole process ({dec})", f.loc(), key=f"R3:{f.qualname}")
        bad = None
        for c in p.calls_in(f):
            r = p.resolve_expr(f.module, c.func, f)
            d = r[1] if r is not None and r[0] == "ext" else None
            if d in PROCESS_WIDE:
                bad = (c, d)
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.Delete, ast.AugAssign)):
                for t in getattr(n, "targets", None) or [n.target]:
                    if isinstance(t, ast.Subscript):
                        r = p.resolve_expr(f.module, t.value, f)
                        if r is not None and r[0] == "ext" and r[1] in ("os.environ", "sys.modules", "sys.path"):
                            bad = (n, r[1])
        rep.ob("R4-process-settings", f.qualname, bad is None, f"{f.qualname} changes {bad[1] if bad else ''} for the whole process", f.loc(bad[0]) if bad else f.loc(), key=f"R4:{f.qualname}")
        rep.saw("functions analysed", f.fullname)
    # an operation on one filing never changes a process-wide setting
    names = {r[1] for r in SETTINGS}
    setters = {f for f in F.funcs if f.cls is not None and f.cls.name in names and any(
        {r for r, d in ls} & (SETTINGS | {("class", n, "") for n in names}) for n2, ls, t, w in mutation_sites(F, f))}
    if not setters:
        raise AnalysisError("the operations that change the process-wide settings were not found")
    reach = set(setters)
    grow = True
    while grow:
        grow = False
        for f in F.funcs:
            if f not in reach and any(g in reach for c in p.calls_in(f) for g in p.callees(f, c)):
                reach.add(f)
                grow = True
    for f in reach:
        ok = f in setters or (f.cls is not None and (f.is_classmethod or f.is_static))
        rep.ob("R6-settings", f.qualname, ok, f"{f.qualname} works on one filing but changes a setting of the whole process", f.loc(), key=f"R6:{f.qualname}")
    lazy(p, rep)
    rep.assume("a container reached only through another unrelated container is not followed; lxml and requests keep no state between filings of their own")


def lazy(p, rep):
    from ..vf import Interp, K, vals, show
    from .. import objs
    c = p.cls("FilingContext")
    I = Interp(p, max_events=60000)
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    got = {}
    for n, f in c.methods.items():
        if not n.startswith("get_") or len(f.params) != 1:
            continue
        r = objs.call(I, st, o, n)
        got[n] = r
        rep.saw("lazily created parts of a filing", n)
    if len(got) < 8:
        raise AnalysisError("FilingContext: accessors not found")
    keys = {}
    for (oid, nm), ents in list(st.heap.items()):
        if nm == "#c" and oid == getattr(st.heap.get((o.id, "_FilingContext__cache")), "id", None):
            for e in ents:
                if e[0] is not None and e[0].kind == "k":
                    keys.setdefault(e[0].args[0], set()).update(x.id for x in vals(e[1]) if x.kind not in ("idx", "value"))
    # two accessors must not share an object, two different objects must not share a key
    for n, r in got.items():
        clash = [m for m, s in got.items() if m != n and {x.id for x in vals(r) if x.kind == "new"} & {x.id for x in vals(s) if x.kind == "new"}]
        kinds = {x.args[0].name for x in vals(r) if x.kind == "new"}
        want = None
        f = c.methods[n]
        if f.node.returns is not None:
            rr = p.resolve_expr(f.module, f.node.returns, f)
            want = rr[1] if rr and rr[0] == "class" else None
        bad = [k for k in kinds if want is not None and not p.cls(k).is_subclass_of(want)]
        rep.ob("R5-lazy-cache", n, not clash and not bad, f"FilingContext.{n} may answer with the object of {clash or bad}", f.loc(), key=f"R5:{n}")
        # created anew for every filing
        I2, again = I, objs.construct(I, st, c)[0]
        r2 = objs.call(I2, st, again, n)
        same = {x.id for x in vals(r) if x.kind == "new"} & {x.id for x in vals(r2) if x.kind == "new"}
        rep.ob("R5-lazy-cache", n + " (second filing)", not same, f"two filings share the object FilingContext.{n} answers with", f.loc(), key=f"R5b:{n}")
    for k, v in keys.items():
        rep.ob("R5-lazy-cache", f"name '{k}'", len(v) <= 1, f"two different objects are remembered under '{k}'", c.node and c.methods['__init__'].loc(), key=f"R5c:{k}")
