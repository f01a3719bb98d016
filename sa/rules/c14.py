"""C14: queries leave the filing as it is, and hand out nothing through which it can be changed."""
import ast, re
from ..project import AnalysisError
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms, EMPTY, _ann_classes
from .. import objs

ROOTS = ["Filing", "Component", "Fact", "Context", "INetwork", "INetworkNode", "IReportElement", "IResource", "ICharacteristic", "Aspect", "QName",
         "ErrorInstance", "FactRepository", "AspectRepository", "ComponentRepository", "ErrorRepository", "NamespaceRepository", "NetworkRepository",
         "ReportElementRepository", "TableLinkbaseRepository", "FilingContext", "ReportElementService", "Table"]
# operations whose documented purpose is to change something
CHANGERS = re.compile(r"^(_*)(set|add|insert|upsert|update|load|download|append|remove|clear|register|close|open|parse|init|create|rewrite|make|propagate|_add|_set)(_|$)")
CONTAINERS = {"builtins.list", "builtins.dict", "builtins.set", "collections.defaultdict", "typing.List", "typing.Dict", "collections.deque"}
FRESHCALL = {"sorted", "list", "dict", "set"}


def classes(p):
    out = []
    for r in ROOTS:
        b = p.cls(r)
        for c in [b] + b.all_subclasses():
            if c not in out:
                out.append(c)
    return out


def is_query(f):
    if f.name in ("__init__", "__new__", "__setattr__", "__init_subclass__", "__setitem__", "__delitem__"):
        return False
    if f.is_abstract:
        return False
    n = f.name
    if n.startswith("_") and not n.startswith("__"):
        return False                       # internal operations: covered through the public ones that call them
    if n.startswith("__") and not n.endswith("__"):
        return False
    return not CHANGERS.match(n)


def ctor_terms(p, I, st, c):
    try:
        return objs.construct(I, st, c)
    except RecursionError:
        raise


def container_type(p, f, ann):
    if ann is None:
        return None
    try:
        d = ast.unparse(ann).replace("'", "").replace('"', "")
    except Exception:
        return None
    d = re.sub(r"^(Optional|Union)\[", "", d)
    m = re.match(r"^(typing\.)?(list|List|dict|Dict|set|Set|defaultdict|DefaultDict|MutableMapping|MutableSequence)\b", d)
    return m.group(2) if m else None


class Analysis:
    def __init__(self, p):
        self.p = p
        self.leaks = {}       # (class, method) -> description | None
        self.effects = {}     # (class, method) -> [(description, loc, key)]
        self.pending = {}

    def analyse(self, c, f):
        k = (c, f.name)
        if k in self.leaks:
            return
        self.leaks[k] = None
        self.effects[k] = []
        p = self.p
        I = Interp(p, max_events=60000)
        st = objs.begin(I, c.module)
        if c.is_enum:
            return
        if f.is_static or f.is_classmethod:
            o = T("cls", c)
            syms = {}
        else:
            o, syms = ctor_terms(p, I, st, c)
        if not (f.is_static or f.is_classmethod):
            # bring the object into a state in which its stores hold something
            for g in {g.name: g for k2 in reversed(c.mro()) for g in k2.methods.values()}.values():
                if re.match(r"^(upsert|insert|add|set)(_|$)", g.name) and not g.is_abstract and not g.is_static and not g.is_classmethod:
                    kws = [(n, objs.annotated(I, g, n, T("sym", "stored", n))) for n, kk, a, d in g.params[1:] if kk not in ("var", "kwvar")]
                    for n, kk, a, d in g.params[1:]:
                        if kk == "kwvar":
                            kws += [(n2, T("sym", "given", n2)) for n2 in objs.typed_dict_keys(p, g, a)]
                    objs.call(I, st, o, g.name, [], kws)
        containers = set()
        init = c.lookup("__init__")
        if init is not None:
            for n, kk, a, d in init.params:
                if n in syms and container_type(p, init, a):
                    containers.add(syms[n])
        fresh0 = {t for t in _heap_ids(st)}
        n0 = len(I.events)
        nalloc0 = set(I.nalloc.values())
        args = []
        kwargs = []
        ps = f.params if f.is_static else f.params[1:]
        for n, kk, a, d in ps:
            if kk in ("var", "kwvar"):
                continue
            s = objs.annotated(I, f, n, T("sym", "arg", n))
            kwargs.append((n, s))
        try:
            if f.is_static:
                r = I.call_func(f, [], kwargs, st, objs.node())
            else:
                r = I.call_func(f, [o], kwargs, st, objs.node())
        except RuntimeError as e:
            raise AnalysisError(f"{f.qualname}: {e}")
        # --- effects
        for e in I.events[n0:]:
            if e.kind in ("mutate", "setitem", "delitem", "setattr"):
                for g, x in alts(e.recv):
                    w = self.old(x, fresh0, o, e)
                    if w is None:
                        continue
                    if e.kind in ("setattr", "setitem") and _memo(e, x):
                        continue
                    self.effects[k].append((f"{e.func.qualname} changes {w} ({e.name})", e.loc, f"{f.qualname}:{e.func.qualname}:{e.kind}:{e.name}", x))
            elif e.kind == "call" and e.recv is not None and e.name and "." in e.name:
                self.pending.setdefault(k, []).append(("effect", e))
        # --- returned value
        for v in vals(r):
            if v in containers or (v.kind in ("list", "dict", "set") and v.id in fresh0):
                self.leaks[k] = f"the container stored in the object itself ({self.field(st, o, v)})"
            elif v.kind in ("attr", "idx", "value") and returns_container(p, f) and self.old(v, fresh0, o, None) is not None:
                self.leaks[k] = f"the stored container {show(v)}"
            elif v.kind in ("list", "dict", "set") and any(e[1] is not None and v in vals(e[1]) for (oid, n), es in st.heap.items() if n == "#c" and oid in fresh0 for e in es):
                self.leaks[k] = "a container kept inside the object"
            elif v.kind in ("list", "dict", "set", "tup") and v.id not in fresh0:
                inner = [x for e in I.entries(st, v) for x in vals(e[1])] if v.kind != "tup" else list(v.args[0])
                for x in inner:
                    if x in containers or (x.kind in ("list", "dict", "set") and x.id in fresh0):
                        self.leaks[k] = f"a collection holding the live container {self.field(st, o, x)}"
            elif v.kind == "call" and v.args[1] is not None and "." in str(v.args[0]):
                self.pending.setdefault(k, []).append(("leak", v))
        self.funcs = getattr(self, "funcs", set()) | I.functions_seen

    def field(self, st, o, v):
        for (oid, n), x in st.heap.items():
            if oid == o.id and not n.startswith("#") and v in vals(x):
                return n
        return show(v)

    def old(self, x, fresh0, o, e):
        """is the changed object older than the call? -> description"""
        if x is o:
            return "the object it is asked on"
        if x.kind in ("list", "dict", "set", "new"):
            return f"an object stored in it" if x.id in fresh0 else None
        if x.kind in ("sym", "attr", "elem", "value", "key", "idx", "cv", "gv", "cls", "p"):
            if x.kind == "elem" and x.args[1] == "empty":
                return None
            base = x
            while base.kind in ("attr", "elem", "value", "key", "idx", "unpack") and base.args and hasattr(base.args[0], "kind"):
                base = base.args[0]
            if base.kind == "call" and (base.args[1] is None or "." not in str(base.args[0])):
                return None                # result of an external call: not part of the filing
            if base.kind in ("list", "dict", "set", "new") and base.id not in fresh0:
                return None
            if base.kind == "ext":
                return None
            if base.kind == "sym" and base.args[0] == "arg" and "service" in base.args[1]:
                return None
            return show(x)
        if x.kind == "call" and x.args[1] is not None and "." in str(x.args[0]):
            for c, f in impls(self.p, str(x.args[0])):
                self.analyse(c, f)
                if self.leaks.get((c, f.name)):
                    return f"the container handed out by {x.args[0]}"
        return None


def _memo(e, x):
    """self.f = ... under 'self.f is None' / 'not self.f'"""
    for g, pol in e.guards:
        if e.kind == "setitem" and not pol and g.kind == "op" and g.args[0] == "in" and g.args[1] is e.args[0] and g.args[2] is x:
            return True
        if g.kind == "op" and g.args[0] == "is" and pol and g.args[2] is NONE and _same_slot(g.args[1], x, e.name):
            return True
        if not pol and _same_slot(g, x, e.name):
            return True
    return False


def _same_slot(t, x, name):
    if t.kind == "attr" and t.args[0] is x and t.args[1] == name:
        return True
    return t is NONE


def _heap_ids(st):
    out = set()
    for (oid, n), v in st.heap.items():
        out.add(oid)
        if hasattr(v, "kind"):
            for x in subterms(v):
                out.add(x.id)
        elif n == "#c":
            for e in v:
                for y in (e[0], e[1]):
                    if y is not None:
                        out |= {x.id for x in subterms(y)}
    return out


def impls(p, name):
    """Interface.method -> [(class, function)] of all implementations"""
    cn, _, m = name.partition(".")
    c = p.maybe_cls(cn)
    if c is None:
        return []
    out = []
    for k in [c] + c.all_subclasses():
        f = k.lookup(m)
        if f is not None and not f.is_abstract and (k, f) not in out:
            out.append((k, f))
    return out


def check(p, rep, tier):
    rep.rule("R1-no-effect", "a query changes nothing that existed before it was asked (memoised values excepted)", 120)
    rep.rule("R2-no-leak", "a query never returns a container the filing itself keeps using", 60)
    A = Analysis(p)
    todo = []
    for c in classes(p):
        if c.is_enum or c.abstract_names():
            # abstract classes: their concrete methods are analysed through a concrete subclass
            continue
        seen = set()
        for k in c.mro():
            for f in k.methods.values():
                if f.name in seen:
                    continue
                seen.add(f.name)
                if is_query(f):
                    todo.append((c, f))
    for c, f in todo:
        A.analyse(c, f)
    # propagate through interface calls
    changed = True
    rounds = 0
    while changed and rounds < 20:
        changed = False
        rounds += 1
        for k, ps in list(A.pending.items()):
            for kind, x in ps:
                name = str(x.args[0]) if kind == "leak" else x.name
                for c2, f2 in impls(p, name):
                    if kind == "leak":
                        if (c2, f2.name) not in A.leaks and not f2.is_abstract:
                            A.analyse(c2, f2)
                            changed = True
                        if A.leaks.get((c2, f2.name)) and not A.leaks[k]:
                            A.leaks[k] = f"the live container of {c2.name}.{f2.name}"
                            changed = True
    for c, f in todo:
        k = (c, f.name)
        key = f"{f.cls.name}.{f.name}"
        eff = A.effects[k]
        # calls of operations that change things
        for kind, e in A.pending.get(k, []):
            if kind != "effect":
                continue
            n = e.name.split(".")[-1]
            rc = e.recv
            if CHANGERS.match(n) and not n.startswith("_set_match") and "ranslation" not in e.name and not (rc.kind == "new"):
                im = impls(p, e.name)
                if im and _belongs(p, im):
                    eff.append((f"{e.func.qualname} calls {e.name}", e.loc, f"{f.qualname}:{e.name}", rc))
        rep.ob("R1-no-effect", f"{c.name}.{f.name}", not eff, f"asking {c.name}.{f.name}: {eff[0][0] if eff else ''}", eff[0][1] if eff else f.loc(), key=f"R1:{key}:{eff[0][2] if eff else ''}")
        lk = A.leaks[k]
        if returns_container(p, f) or lk:
            rep.ob("R2-no-leak", f"{c.name}.{f.name}", not lk, f"{c.name}.{f.name} returns {lk}", f.loc(), key=f"R2:{key}")
    for fn in A.funcs:
        rep.saw("functions analysed", fn.fullname)
    rep.assume("results of pandas/lxml operations belong to the caller; translation settings are not parsed data")


def _belongs(p, im):
    roots = classes(p)
    return any(c in roots for c, f in im)


def returns_container(p, f):
    return container_type(p, f, f.node.returns) is not None
