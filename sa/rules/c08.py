"""C08: shared dimension values, entities, periods and units are never mixed up."""
from ..vf import T, K, NONE, alts, vals, show, subterms, EMPTY
from ..prov import Prov
from ..project import AnalysisError
from .. import entry

INJECTIVE = {"str", "clark_notation", "prefix_local_name_notation", "__str__"}
REFS = {"unitRef": "id", "contextRef": "id"}
SOURCE = entry.SOURCE


def useful(t):
    """the alternatives of a term that carry a value"""
    return [x for x in vals(t) if x is not NONE and x.kind not in ("noret",) and not any(y.kind == "attr" and y.args[0].kind == "new" for y in [x])
            and not (x.kind == "call" and x.args[1] is NONE)]


class Key:
    """what a key is made of: the parts it contains unaltered"""
    def __init__(self, P, t):
        self.parts, self.glued = set(), []
        self.P = P
        self.whole = frozenset(useful(P.R(t)))
        for x in self.whole:
            self.split(x)

    def split(self, t):
        if t.kind == "phi":
            for x in useful(t):
                self.split(x)
        elif t.kind == "fstr":
            last = None
            for x in t.args[0]:
                const = x.kind == "k"
                if last is False and not const:
                    self.glued.append(t)
                if not (const and x.args[0] == ""):
                    last = const
                if not const:
                    self.split(x)
        elif t.kind == "tup":
            for x in t.args[0]:
                self.split(x)
        elif t.kind == "op" and t.args[0] == "add":
            a, b = t.args[1], t.args[2]
            if tail(a) is False and head(b) is False:
                self.glued.append(t)
            self.split(a)
            self.split(b)
        elif t.kind == "call" and t.args[0].split(".")[-1] in INJECTIVE:
            x = t.args[2][0] if t.args[2] else t.args[1]
            self.split(x) if x is not None else None
        elif t.kind == "call" and t.args[0].split(".")[-1] == "qname_from_str" and t.args[2]:
            self.split(t.args[2][0])
        elif t.kind == "call" and t.args[0].split(".")[-1] == "get_name" and t.args[1] is not None and named(t.args[1]) is not None:
            self.split(named(t.args[1]))
        elif t.kind != "k":
            self.parts.add(t)


def named(t):
    """the name an object was looked up by"""
    if t.kind == "call" and t.args[0].split(".")[-1] in ("get_typed_by_qname", "get_by_qname") and t.args[2]:
        return t.args[2][0]
    return None


def tail(t):
    return (tail(t.args[2]) if t.kind == "op" and t.args[0] == "add" else
            (t.args[0][-1].kind == "k" if t.args[0] else True) if t.kind == "fstr" else t.kind == "k")


def head(t):
    return (head(t.args[1]) if t.kind == "op" and t.args[0] == "add" else
            (t.args[0][0].kind == "k" if t.args[0] else True) if t.kind == "fstr" else t.kind == "k")


class Cover:
    """is a value determined by the parts of a key?"""
    def __init__(self, I, st, P, key, scope, ids_unique):
        self.I, self.st, self.P, self.S, self.scope, self.ids_unique = I, st, P, key.parts, scope, ids_unique
        self.busy = set()

    def missing(self, t, owner=None):
        """the source data in t that the key does not determine"""
        t = self.P.R(t)
        if t.id in self.busy:
            return []
        self.busy.add(t.id)
        try:
            return self._m(t, owner)
        finally:
            self.busy.discard(t.id)

    def _m(self, t, owner):
        if t in self.S or t.kind in ("k", "cls", "enum", "fn", "lam", "noret"):
            return []
        if t.kind == "phi":
            return [m for x in useful(t) for m in self.missing(x, owner)]
        if t.kind == "attr" and t.args[0].kind == "new":
            return []
        if t.kind == "new":
            return [m for (i, n), v in list(self.st.heap.items()) if i == t.id and not str(n).startswith("#") and hasattr(v, "kind")
                    for m in self.missing(v, t)]
        if t.kind in ("list", "set", "dict"):
            return [m for e in self.I.entries(self.st, t) for x in (e[0], e[1]) if x is not None and hasattr(x, "kind") for m in self.missing(x, owner)]
        if entry.source_free(t):
            return []
        if t.kind in ("xa", "text", "tag", "tail", "attrib"):
            return [] if self.identified(t.args[0]) else [t]
        if t.kind == "call":
            n = t.args[0].split(".")[-1]
            if n == "qname_from_str" and t.args[2]:
                return self.missing(t.args[2][0], owner)
            if n in ("find", "findall", "find_elements", "find_element", "xpath", "iterfind") or (t.args[1] is not None and t.args[1].kind in ("elem", "root")):
                return [] if self.identified(t) else [t]
            out = []
            for x in ([t.args[1]] if t.args[1] is not None and not entry.source_free(t.args[1]) else []) + list(t.args[2]) + [v for _, v in t.args[3]]:
                out += self.missing(x, owner)
            return out
        if t.kind in ("elem", "root"):
            return [] if self.identified(t) else [t]
        out = []
        for a in t.args:
            if hasattr(a, "kind"):
                out += self.missing(a, owner)
            elif isinstance(a, tuple):
                for x in a:
                    if hasattr(x, "kind"):
                        out += self.missing(x, owner)
        return out

    def identified(self, el):
        el = self.P.R(el)
        if el in self.S or el in self.scope:
            return True
        if el.kind == "phi":
            return all(self.identified(x) for x in useful(el))
        if self.ids_unique and T("xa", el, K("id")) in self.S:
            return True
        if el.kind == "call":
            n = el.args[0].split(".")[-1]
            base, args = (el.args[1], list(el.args[2])) if el.args[1] is not None else (el.args[2][0] if el.args[2] else None, list(el.args[2][1:]))
            if base is None or any(self.missing(x) for x in args):
                return False
            return self.identified(base)
        if el.kind in ("elem", "root", "idx", "unpack", "each"):
            rest = [x for x in el.args[1:] if hasattr(x, "kind") and x.kind != "k"]
            return self.identified(el.args[0]) and not any(self.missing(x) for x in rest)
        return False


def same_key(a, b):
    """the lookup key a denotes what is stored under b"""
    for x in a:
        if any(x is y for y in b):
            continue
        if x.kind == "xa" and x.args[1].kind == "k" and x.args[1].args[0] in REFS and any(
                y.kind == "xa" and y.args[1].kind == "k" and y.args[1].args[0] == REFS[x.args[1].args[0]] for y in b):
            continue
        return False
    return bool(a)


def check(p, rep, tier):
    rep.rule("complete", "Everything in the document that a shared object is built from is part of the key it is stored under "
                         "(or of the element that key identifies in its document).", floor=12)
    rep.rule("apart", "The parts of a key are separated by a constant, so that different parts never make the same key.", floor=8)
    rep.rule("agree", "An object is looked up with the key that objects of its kind are stored under.", floor=12)
    rep.rule("locator", "A report element that a locator or fact names is looked up by everything that names it.", floor=1)
    rep.assume("a namespace prefix denotes the same namespace throughout a filing; ids are unique in an inline document set, "
               "in other filings only in their document; dates, prefixed names and schemes do not contain the separators of the keys")
    P = Prov()
    for c, f in entry.entries(p, "parse_facts"):
        I, v, st = entry.run(p, f)
        rep.saw("parsing steps", f.fullname)
        one(rep, I, st, P, c, ids_unique="XHTML" in c.name)
    locators(p, rep)


def typename(t):
    t = [x for x in vals(t) if x.kind == "cls"] if t is not None else []
    return t[0].args[0].name if t else None


def one(rep, I, st, P, c, ids_unique):
    stored, looked = {}, []
    n = 0
    for e in I.events:
        r = entry.op_of(e)
        if r is None:
            continue
        cls, op = r
        if cls.endswith("CharacteristicRepository") and op in ("upsert", "has", "get"):
            key = e.arg(0, "id")
            if key is None:
                continue
            k = Key(P, key)
            if op == "upsert":
                obj = e.arg(1, "characteristic")
                for x in vals(obj) if obj is not None else []:
                    if x.kind != "new":
                        continue
                    n += 1
                    t = x.args[0].name
                    stored.setdefault(("C", t), []).append(k.whole)
                    complete(rep, I, st, P, c, e, k, x, (), ids_unique)
            else:
                t = typename(e.arg(1, "characteristic_type") or e.arg(1, "type"))
                if t is not None:
                    looked.append((("C", t), k, e, op))
        elif cls.endswith("AspectRepository"):
            if op == "upsert":
                for x in vals(e.args[0]) if e.args else []:
                    if x.kind == "new":
                        fields = frozenset(y for (i, nm), vv in list(st.heap.items()) if i == x.id and not str(nm).startswith("#") and hasattr(vv, "kind")
                                           for y in useful(P.R(vv)) if y.kind != "k")
                        n += 1
                        stored.setdefault(("A", "Aspect"), []).append(fields)
            elif op in ("has", "get") and e.args:
                looked.append((("A", "Aspect"), Key(P, e.args[0]), e, op))
        elif cls.endswith("ContextRepository"):
            if op == "insert_context":
                for x in vals(e.args[0]) if e.args else []:
                    if x.kind == "new":
                        fields = frozenset(y for (i, nm), vv in list(st.heap.items()) if i == x.id and not str(nm).startswith("#") and hasattr(vv, "kind")
                                           for y in useful(P.R(vv)) if y.kind == "xa")
                        stored.setdefault(("X", "Context"), []).append(fields)
            elif op == "get_context_copy" and e.args:
                looked.append((("X", "Context"), Key(P, e.args[0]), e, op))
    if n < 4:
        raise AnalysisError(f"{c.name}.parse_facts: only {n} shared objects are stored in a repository the analysis can see")
    for kind, k, e, op in looked:
        if kind not in stored:
            continue
        ok = any(same_key(k.whole, s) for s in stored[kind])
        rep.ob("agree", f"{c.name}: {op}({kind[1]}) in {e.func.name}", ok,
               f"{kind[1]} is looked up with the key {' / '.join(show(x, 4)[:100] for x in k.whole)}, but stored only under "
               f"{'; '.join(' / '.join(show(x, 4)[:100] for x in s) for s in stored[kind][:3])}", e.loc, key=f"agree:{c.name}:{kind[1]}:{op}")
    # dictionaries that hold objects for reuse
    for (oid, nm), ents in list(st.heap.items()):
        if nm != "#c" or oid not in I.alloc_loops:
            continue
        scope = {P.R(x) for lid in I.alloc_loops[oid] for x in I.loop_elems.get(lid, ())}
        for ent in ents:
            if ent[0] is None or not hasattr(ent[0], "kind") or ent[0].kind == "k" or not hasattr(ent[1], "kind"):
                continue
            for x in vals(ent[1]):
                if x.kind == "new" and (x.args[0].name.endswith("Characteristic") or x.args[0].name in ("Aspect", "Context")):
                    complete(rep, I, st, P, c, None, Key(P, ent[0]), x, scope, ids_unique)


def complete(rep, I, st, P, c, e, k, x, scope, ids_unique):
    t = x.args[0].name
    loc = e.loc if e is not None else ""
    where = f"{c.name}: {t}" + (f" in {e.func.name}" if e is not None else " in a dictionary")
    cov = Cover(I, st, P, k, set(scope), ids_unique)
    for (i, nm), v in list(st.heap.items()):
        if i != x.id or str(nm).startswith("#") or not hasattr(v, "kind"):
            continue
        miss = cov.missing(v)
        nm = nm.replace(f"_{t}__", "")
        rep.ob("complete", f"{where}.{nm}", not miss,
               f"a {t} is shared under the key {' / '.join(show(y, 5)[:160] for y in k.whole)}, but its {nm} also depends on "
               f"{', '.join(sorted({show(y, 4)[:120] for y in miss}))}: another {t} with the same key would be taken for it", loc,
               key=f"complete:{c.name}:{t}.{nm}")
    rep.ob("apart", where, not k.glued, f"the key {' / '.join(show(y, 5)[:160] for y in k.glued)} of a {t} runs two of its parts together", loc,
           key=f"apart:{c.name}:{t}")


def locators(p, rep):
    from ..vf import Interp
    from ..prov import READERS
    P = Prov()
    n = 0
    for f in p.all_functions():
        if not f.module.name.startswith("brel.parsers") or "href" not in f.module.source:
            continue
        if not any(isinstance(getattr(c, "func", None), object) and getattr(c.func, "attr", "") in ("get_by_id", "get_typed_by_id", "has_id", "has_typed_id")
                   for c in p.calls_in(f)):
            continue
        I = Interp(p, opaque=READERS | entry.STORE_OPS)
        I.run(f)
        for e in I.events:
            r = entry.op_of(e)
            if r is None or not r[0].endswith("ReportElementRepository") or r[1] not in ("get_by_id", "get_typed_by_id", "has_id", "has_typed_id") or not e.args:
                continue
            n += 1
            key = P.R(e.args[0])
            href = [x for x in subterms(key) if x.kind == "xa" and x.args[1] is K("xlink:href")]
            if not href:
                continue
            lossy = href[0] not in Key(P, key).parts and len(e.args) == 1
            rep.ob("locator", f"{f.name}: {r[1]}", not lossy,
                   f"{f.name} looks up the report element of a locator by {show(key, 5)[:160]} only: an element of the same id in another schema document "
                   "would be taken for it", e.loc, key=f"locator:{f.name}")
    if not n:
        rep.ob("locator", "no lookup by id", True)
