"""C02: stored items are found again, under their own key, and listed completely."""
import ast
import itertools
from ..project import AnalysisError
from ..vf import Interp, T, K, NONE, TRUE, FALSE, alts, vals, show, subterms, truth, EMPTY
from .. import objs

# interface -> (insert operation, its parameters, lookups, listings)
#   lookup: (method, arguments in terms of the stored parameters, kind)
#   kind: 'is' returns the item, 'has' membership, 'in' collection containing the item
def A(*path):
    """accessor chain on a stored parameter: A('item','get_id') = item.get_id()"""
    return path


CONTRACT = [
    ("FactRepository", "upsert", ["item"],
     [("get_by_id", [A("item", "get_id")], "is"), ("get_by_id_optional", [A("item", "get_id")], "is"), ("has_id", [A("item", "get_id")], "has"), ("get_all", [], "in")], "Fact"),
    ("AspectRepository", "upsert", ["item"],
     [("get", [A("item", "get_name")], "is"), ("has", [A("item", "get_name")], "has")], "Aspect"),
    ("CharacteristicRepository", "upsert", ["key", "item"],
     [("get", [A("key"), A("item", "#type")], "is"), ("has", [A("key"), A("item", "#type")], "has")], "ICharacteristic"),
    ("ComponentRepository", "upsert", ["item"], [("get_all", [], "in")], "Component"),
    ("ContextRepository", "insert_context", ["item"], [("get_context_copy", [A("item", "_get_id")], "is")], "Context"),
    ("ErrorRepository", "insert_premade", ["item"], [("get_all", [], "in"), ("get_by_severity", [A("item", "get_severity")], "in")], "ErrorInstance"),
    ("NamespaceRepository", "upsert", ["key", "item"], [("get_uris", [A("key")], "in"), ("get_prefixes", [A("item")], "in-key")], None),
    ("NetworkRepository", "upsert", ["item"],
     [("get_all", [], "in"), ("get_by_type", [A("item", "#type")], "in"), ("get_by_linkrole", [A("item", "get_link_role")], "in")], "INetwork"),
    ("ReportElementRepository", "upsert", ["item"],
     [("get_by_qname", [A("item", "get_name")], "is"), ("has_qname", [A("item", "get_name")], "has"),
      ("get_by_id", [A("item", "get_id")], "is"), ("has_id", [A("item", "get_id")], "has"), ("get_all", [], "in"),
      ("get_typed_by_qname", [A("item", "get_name"), A("type")], "is"), ("get_typed_by_id", [A("item", "get_id"), A("type")], "is"),
      ("has_typed_qname", [A("item", "get_name"), A("type")], "has"), ("has_typed_id", [A("item", "get_id"), A("type")], "has"),
      ("get_all_typed", [A("type")], "in")], "IReportElement"),
    ("TableLinkbaseRepository", "upsert_definition_table", ["item"],
     [("get_all_definition_tables", [], "in"), ("get_definition_table_with_linkrole", [A("item", "get_linkrole")], "in")], "Table"),
    ("XMLRepository", "add_etree", ["key", "item"],
     [("get_etree", [A("key")], "is"), ("has_etree", [A("key")], "has"), ("get_all_etrees", [], "in")], None),
]
LOSSY = {"str.lower", "str.upper", "str.casefold", "str.strip", "str.lstrip", "str.rstrip", "str.split", "str.rsplit", "str.title", "str.capitalize",
         "str.removeprefix", "str.removesuffix", "str.partition", "str.rpartition", "hash", "len", "int", "round", "abs", "id", "str.swapcase"}


def lossy(k):
    for x in subterms(k):
        if x.kind == "call" and x.args[0] in LOSSY:
            return x.args[0]
        if x.kind == "slice":
            return "slicing"
        if x.kind == "idx" and x.args[1].kind == "k":
            return "taking one part"
        if x.kind == "call" and x.args[0] == "str.replace" and not (x.args[2] and x.args[2][0] is K("\\")):
            return "str.replace"
        if x.kind == "op" and x.args[0] in ("mod", "floordiv"):
            return x.args[0]
    return None


def check(p, rep, tier):
    rep.rule("R1-found", "after an insertion, the lookup by the item's own key returns that item", 8)
    rep.rule("R2-listed", "after an insertion the listing contains the item on every path, and only stored items", 8)
    rep.rule("R3-member", "the membership query is true for the inserted key and decided by the store the lookup reads", 8)
    rep.rule("R4-own-key", "a lookup does not return an item stored under a different key, and keys are not shortened or normalised away", 12)
    rep.rule("R6-same-key", "two items stored under one key: a collection lists both, a single lookup gives the accepted one; another item's key is not answered for", 12)
    rep.rule("R7-rewrite", "an address is rewritten only where a stored prefix starts it, by exchanging that prefix, longest first", 3)
    rep.rule("R5-same-name", "cached files are written, read and tested under the same name computed from the address", 3)
    for iface, ins, params, lookups, itemcls in CONTRACT:
        base = p.cls(iface)
        classes = objs.concrete_subclasses(p, iface)
        if not classes:
            raise AnalysisError(f"no implementation of {iface}")
        for c in classes:
            one(p, rep, c, ins, params, lookups, itemcls)
        same_key(p, rep, classes, ins, params, lookups, itemcls)
    rewrites(p, rep)
    files(p, rep)
    rep.assume("accessors used as keys are stable while an item is stored; keys compare by value")


def build(I, st, c, itemcls, tag, p):
    it = T("sym", "item", tag)
    if itemcls:
        I.types[it.id] = {p.cls(itemcls).fullname}
    return it, T("sym", "key", tag)


def argterm(I, st, path, item, key, typ):
    base = {"item": item, "key": key, "type": typ}[path[0]]
    t = base
    for step in path[1:]:
        if step == "#type":
            t = T("call", "type", None, (t,), ())
        else:
            t = I.call_method(t, step, [], [], st, objs.node(), None)
    return t


def one(p, rep, c, ins, params, lookups, itemcls):
    f = c.lookup(ins)
    if f is None:
        rep.ob("R1-found", f"{c.name}.{ins}", False, f"{c.name} has no operation {ins}", c.module.relpath)
        return
    typ = T("sym", "type", c.name)
    for name, argpaths, kind in lookups:
        g = c.lookup(name)
        if g is None:
            rep.ob("R1-found", f"{c.name}.{name}", False, f"{c.name} has no operation {name}", c.module.relpath)
            continue
        I = Interp(p, split=True)
        st = objs.begin(I, c.module)
        o, _ = objs.construct(I, st, c)
        x, kx = build(I, st, c, itemcls, "x", p)
        y, ky = build(I, st, c, itemcls, "y", p)
        n0 = len(I.events)
        for it, k in ((y, ky), (x, kx)):
            objs.call(I, st, o, ins, [{"item": it, "key": k}[q] for q in params])
        evs = I.events[n0:]
        n0 = len(I.events)
        args = [argterm(I, st, a, x, kx, typ) for a in argpaths]
        r = objs.call(I, st, o, name, args)
        inst = f"{c.name}.{name}"
        loc = g.loc()
        entered = {e.name for e in I.events[n0:] if e.kind == "enter"}
        if kind == "is":
            got = [(gd, v) for gd, v in alts(r)]
            hits = [gd for gd, v in got if v is x or (v.kind == "copy" and v.args[0] is x)]
            others = [v for gd, v in got if not (v is x or (v.kind == "copy" and v.args[0] is x) or v is NONE) and _mentions(v, y, ky) or v is y]
            rep.ob("R1-found", inst, bool(hits), f"{name} after {ins} yields {show(r)} instead of the stored item", loc)
            rep.ob("R4-own-key", inst, not others, f"{name} may return an item stored under another key: {show(others[0]) if others else ''}", loc)
        elif kind == "has":
            v = decide(I, st, r)
            lookup_used = any(".get" in e for e in entered)
            ok = v is True or (v is None and lookup_used)
            rep.ob("R3-member", inst, ok, f"{name} answers {show(r)} for the key of a stored item", loc)
            # must not be true for an unrelated key
            I2 = Interp(p, split=True)
            st2 = objs.begin(I2, c.module)
            o2, _ = objs.construct(I2, st2, c)
            args2 = [argterm(I2, st2, a, x, kx, typ) for a in argpaths]
            n1 = len(I2.events)
            r2 = objs.call(I2, st2, o2, name, args2)
            v2 = decide(I2, st2, r2)
            lk = any(e.kind == "enter" and ".get" in e.name for e in I2.events[n1:])
            rep.ob("R3-member", inst + "(empty)", v2 is False or (v2 is None and lk), f"{name} answers {show(r2)} on an empty store", loc)
        else:
            want = kx if kind == "in-key" else x
            ents = []
            for gd, v in alts(r):
                if v.kind == "k":
                    continue
                if v.kind == "set" or v.kind == "list" or v.kind == "tup" or (v.id, "#c") in st.heap:
                    es = I.entries(st, v)
                    ents += [(e[1], e[2] | gd) for e in es]
                else:
                    el = I.element(v, st, objs.node())
                    ents += [(y2, gd | g2) for g2, y2 in alts(el)]
            mine = [gd for v, gd in ents for a in [v] if v is want]
            allowed = set()
            conds = [frozenset((cnd, pol) for cnd, pol in gd if not neutral(I, st, cnd, pol, x, kx, args, want)) for gd in mine]
            rep.ob("R2-listed", inst, bool(conds) and tautology(conds),
                   f"{name} does not list every stored item" + (f": only when {[show(a) for a, b in sorted(conds[0], key=lambda q: q[0].id)]}" if conds else ""), loc)
            foreign = [v for v, gd in ents if v not in (x, y, kx, ky) and not (v.kind == "elem" and v.args[1] == "empty")]
            bad = []
            if argpaths and kind == "in":
                # the other item may only be listed under a condition tying it to the query
                for v, gd in ents:
                    if v is y and not any(_selects(cnd, pol, y, args) for cnd, pol in gd):
                        bad.append(v)
                # key of x is a different symbol than key of y, so an unconditional y is a wrong answer
            rep.ob("R4-own-key", inst, not foreign and not bad, f"{name} lists items that do not match the query: {show((foreign + bad)[0]) if foreign + bad else ''}", loc)
        # keys used while storing
    I = Interp(p, split=True)
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    x, kx = build(I, st, c, itemcls, "x", p)
    n0 = len(I.events)
    objs.call(I, st, o, ins, [{"item": x, "key": kx}[q] for q in params])
    bad = None
    for hk, ents in st.heap.items():
        if hk[1] == "#c":
            for e in ents:
                if e[0] is not None:
                    bad = bad or lossy(e[0])
    rep.ob("R4-own-key", f"{c.name}.{ins}", not bad, f"{ins} stores under a key from which information was removed ({bad})", f.loc())
    for e in I.events[n0:]:
        if e.kind in ("mutate", "delitem") and e.name in ("remove", "pop", "clear", "discard", "del", "popitem"):
            own = e.args and all(v is x for a in e.args for v in vals(a))
            rep.ob("R2-listed", f"{c.name}.{ins}:{e.name}", own, f"{ins} removes other stored items ({e.name})", e.loc)
    for fn in I.functions_seen:
        rep.saw("functions analysed", fn.fullname)


SHARED = {"get_by_type", "get_by_linkrole", "get_by_severity", "get_definition_table_with_linkrole", "get_all_definition_tables", "get_uris", "get_prefixes"}
BOTH = {"FactRepository": {"get_all"}, "NetworkRepository": {"get_all"}, "ErrorRepository": {"get_all"}, "ComponentRepository": {"get_all"}}


def same_key(p, rep, classes, ins, params, lookups, itemcls):
    for c in classes:
        both = SHARED | {m for b in [c] + list(c.mro()) for m in BOTH.get(b.name, ())}
        accessors = {a[1] for _, ps, _ in lookups for a in ps if len(a) > 1}
        for name, argpaths, kind in lookups:
            g = c.lookup(name)
            if g is None or c.lookup(ins) is None:
                continue
            I = Interp(p, split=True)
            st = objs.begin(I, c.module)
            o, _ = objs.construct(I, st, c)
            x, kx = build(I, st, c, itemcls, "x", p)
            y, ky = build(I, st, c, itemcls, "y", p)
            typ = T("sym", "type", c.name)
            share = kind != "has"
            if share:
                cm, bi = I.call_method, I.builtin

                def call_method(r, attr, *rest, **kw):
                    return cm(x if r is y and attr in accessors else r, attr, *rest, **kw)

                def builtin(n, a, *rest, **kw):
                    return bi(n, [x if v is y else v for v in a] if n == "type" else a, *rest, **kw)
                I.call_method, I.builtin = call_method, builtin
            inst = f"{c.name}.{name}(same key)"
            if kind == "in-key":
                seq = [{"item": x, "key": ky}, {"item": x, "key": kx}]
                w = (kx, ky)
            else:
                seq = [{"item": y, "key": kx if share else ky}, {"item": x, "key": kx}]
                w = (x, y)
            if kind == "has":
                seq = seq[:1]
            got = [objs.call(I, st, o, ins, [s[q] for q in params]) for s in seq]
            args = [argterm(I, st, a, x, kx, typ) for a in argpaths]
            n1 = len(I.events)
            r = objs.call(I, st, o, name, args)
            if kind == "has":
                v = decide(I, st, r)
                lk = any(e.kind == "enter" and ".get" in e.name for e in I.events[n1:])
                rep.ob("R6-same-key", f"{c.name}.{name}(other key)", v is False or (v is None and lk),
                       f"{name} may answer yes when only an item with another key is stored: {show(r)}", g.loc())
            elif kind == "is":
                refused = any(v is FALSE for v in vals(got[-1]))
                keep = y if refused or ins.startswith("insert") else x
                hits = [v for v in vals(r) if v is keep or (v.kind == "copy" and keep in list(vals(v.args[0])))]
                rep.ob("R6-same-key", inst, bool(hits), f"{name} yields {show(r)} after a second item was accepted under the same key", g.loc())
                if name.endswith("_copy"):
                    rep.ob("R6-same-key", f"{c.name}.{name}(copy)", not any(v in (x, y) for v in list(vals(r))), f"{name} hands out the stored item itself", g.loc())
            elif name in both:
                ents = []
                for gd, v in alts(r):
                    if v.kind == "k":
                        continue
                    if v.kind in ("set", "list", "tup") or (v.id, "#c") in st.heap:
                        ents += [e[1] for e in I.entries(st, v)]
                    else:
                        ents += list(vals(I.element(v, st, objs.node())))
                lost = [v for v in w if v not in ents]
                rep.ob("R6-same-key", inst, not lost, f"{name} no longer lists an item after a second one was stored under the same key", g.loc())


def called_name(node):
    """the name written at a call: max(..., key=len) and sorted(..., key=len) are modelled alike"""
    f = getattr(node, "func", None)
    return getattr(f, "id", None) or getattr(f, "attr", None)


def rewrites(p, rep):
    for c in objs.concrete_subclasses(p, "URIRewriteRepository"):
        I = Interp(p, split=True)
        st = objs.begin(I, c.module)
        o, _ = objs.construct(I, st, c)
        k, v1, v2, uri = (T("sym", "key", n) for n in ("prefix", "first", "second", "uri"))
        objs.call(I, st, o, "upsert", [k, v1])
        objs.call(I, st, o, "upsert", [k, v2])
        n0 = len(I.events)
        r = objs.call(I, st, o, "rewrite", [uri])
        f = c.lookup("rewrite")
        loc = f.loc()
        res = [(gd, v) for gd, v in alts(r) if v is not uri]
        rep.ob("R7-rewrite", f"{c.name}.upsert", any(v2 in subterms(v) for _, v in res), "a second replacement for a prefix is not used", loc)

        calls = [e for e in I.events[n0:] if e.kind == "call"]
        asked = any(e.name.split(".")[-1] in ("startswith", "removeprefix", "commonprefix") for e in calls)
        asked = asked or any(x.kind == "slice" for gd, _ in res for cnd, _p in gd for x in subterms(cnd))
        bad = [] if asked else [v for _, v in res]
        rep.ob("R7-rewrite", f"{c.name}.rewrite(prefix)", bool(res) and not bad,
               f"an address is rewritten without a stored prefix starting it: {show(bad[0]) if bad else None}", loc)
        rp = [e for e in calls if e.name.split(".")[-1] == "replace" and e.recv is uri and len(e.args) == 2 and not e.kwargs]
        rep.ob("R7-rewrite", f"{c.name}.rewrite(once)", not rp, "every occurrence of the prefix in an address is exchanged", loc)
        short = [e for e in calls if called_name(e.node) in ("sorted", "sort") and any(q == "key" for q, _ in e.kwargs)
                 and any(q == "key" and "len" in show(t) and "neg" not in show(t) and "lambda" not in show(t) for q, t in e.kwargs)
                 and not any(q == "reverse" and t is not FALSE for q, t in e.kwargs)]
        turned = any(isinstance(n, ast.Call) and called_name(n) in ("reversed", "reverse") or isinstance(n, ast.Slice) and n.step is not None
                     for fn in I.functions_seen for n in ast.walk(fn.node))
        rep.ob("R7-rewrite", f"{c.name}.rewrite(longest)", not short or turned, "the shortest matching prefix is tried first", loc)
        rep.saw("functions analysed", f.fullname)


def _mentions(v, *syms):
    st = subterms(v)
    return any(s in st for s in syms)


def _selects(cnd, pol, y, args):
    st = subterms(cnd)
    return pol and y in st and any(a in st for a in args)


def neutral(I, st, cnd, pol, x, kx, args, want):
    """conditions under which a stored item may legitimately be (not) listed"""
    if cnd.kind == "op" and cnd.args[0] == "in" and not pol:
        return True                     # 'not stored yet': otherwise it is there already
    if cnd.kind == "op" and cnd.args[0] in ("eq", "is") and pol:
        a, b = cnd.args[1], cnd.args[2]
        if a is b:
            return True
        if args and (a in args or b in args) and (x in subterms(a) or x in subterms(b) or kx in subterms(a)):
            return True
        # the query argument compared with the same accessor
    if cnd.kind == "op" and cnd.args[0] == "isinstance" and pol and cnd.args[2].kind == "sym":
        return True
    if cnd.kind == "excguard":
        return False
    if pol and cnd.kind in ("phi", "list", "set", "dict") and all(v.kind in ("list", "set", "dict") for v in vals(cnd)) \
            and any(e[1] is want and not e[2] for v in vals(cnd) for e in I.entries(st, v)):
        return True                     # a container known to hold the item is not empty
    return False


def tautology(conds):
    atoms = sorted({a for c in conds for a, _ in c}, key=lambda a: a.id)
    if any(not c for c in conds):
        return True
    if len(atoms) > 8:
        return False
    for vs in itertools.product((True, False), repeat=len(atoms)):
        env = dict(zip(atoms, vs))
        if not any(all(env[a] == p for a, p in c) for c in conds):
            return False
    return True


def decide(I, st, t):
    """truth of a membership term on the abstract store: True/False/None"""
    if t.kind == "k":
        return bool(t.args[0])
    if t.kind == "phi":
        vs = {decide(I, st, v) for v in vals(t)}
        return vs.pop() if len(vs) == 1 else None
    if t.kind == "op":
        o = t.args[0]
        if o == "not":
            v = decide(I, st, t.args[1])
            return None if v is None else not v
        if o in ("and", "or"):
            vs = [decide(I, st, a) for a in t.args[1:]]
            if o == "and":
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if o == "in":
            k, cont = t.args[1], t.args[2]
            ents = I.entries(st, cont)
            for e in ents:
                if (e[0] if e[0] is not None else e[1]) is k:
                    return True
            return False if (cont.kind in ("dict", "list", "set")) else None
        if o == "is" and t.args[2] is NONE:
            v = t.args[1]
            if v.kind in ("sym", "copy"):
                return False
            return None
        if o == "bool":
            return decide(I, st, t.args[1])
    if t.kind == "quant":
        return None
    return None


def files(p, rep):
    """file store: the same name for writing, reading and testing"""
    for c in objs.concrete_subclasses(p, "FileRepository"):
        names = {}
        for m in ("add_file", "get_file", "has_file"):
            f = c.lookup(m)
            if f is None:
                continue
            I = Interp(p, split=True)
            st = objs.begin(I, c.module)
            o = T("sym", "self", c.name)
            I.types[o.id] = {c.fullname}
            uri = T("sym", "uri")
            f_t = T("sym", "file")
            args = [uri] + ([f_t] if len(f.params) > 2 else [])
            I.call_func(f, [o] + args, [], st, objs.node())
            ns = []
            for e in I.events:
                if e.kind == "call" and e.recv is not None and o in subterms(e.recv) and e.args and uri in subterms(e.args[0]):
                    ns.append((e.args[0], e.loc))
            names[m] = ns
            rep.saw("functions analysed", f.fullname)
        ref = names.get("add_file") or []
        if not ref:
            rep.ob("R5-same-name", f"{c.name}.add_file", False, "adding a file does not write it under a name computed from its address", c.module.relpath)
            continue
        rep.ob("R5-same-name", f"{c.name}.add_file", True)
        for m in ("get_file", "has_file"):
            ok = bool(names.get(m)) and any(a is ref[0][0] for a, _ in names[m])
            rep.ob("R5-same-name", f"{c.name}.{m}", ok, f"{c.name}.{m} uses the name {show(names[m][0][0]) if names.get(m) else None}, files are stored as {show(ref[0][0])}", c.lookup(m).loc())
