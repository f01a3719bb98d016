"""Provenance of values: value-flow terms rewritten to what they say about the source document.

attr(e,'xlink:role')   the attribute of an element, however it is read
tag(e), text(e)        its name and its content
Reading an attribute with a default becomes an alternative guarded by the
attribute being absent.  Calls distribute over alternatives.
"""
from .vf import T, K, NONE, alts, vals, show, phi, EMPTY, subterms, contradictory, TRUE, FALSE

READERS = {"get_str_attribute", "get_str_attribute_optional", "has_str_attribute", "get_clark_notation_tag", "get_prefix_localname_tag",
           "find_elements", "find_element", "get_elem_lang_recursive", "qname_from_str", "is_clark_notation", "is_namespace_localname_notation",
           "deepcopy"}
NSNAMES = {"http://www.w3.org/1999/xlink": "xlink", "http://www.w3.org/XML/1998/namespace": "xml", "http://www.xbrl.org/2003/linkbase": "link",
           "http://www.w3.org/2001/XMLSchema-instance": "xsi", "http://xbrl.org/2005/xbrldt": "xbrldt", "http://www.xbrl.org/2003/instance": "xbrli",
           "http://www.xbrl.org/2013/inlineXBRL": "ix"}


def attr_name(t):
    if t.kind == "k" and isinstance(t.args[0], str):
        s = t.args[0]
        if s.startswith("{"):
            ns, _, ln = s[1:].partition("}")
            return (NSNAMES.get(ns, ns) + ":" if ns else "") + ln
        return s
    if t.kind == "call":
        n = t.args[0].split(".")[-1]
        if n == "qname_from_str" and t.args[2]:
            return attr_name(t.args[2][0])
        if n in ("clark_notation", "prefix_local_name_notation") and t.args[1] is not None:
            return attr_name(t.args[1])
    if t.kind == "fstr":
        out = ""
        for x in t.args[0]:
            if x.kind != "k":
                return None
            out += str(x.args[0])
        return attr_name(K(out))
    return None


class Prov:
    def __init__(self, limit=64):
        self.memo = {}
        self.limit = limit

    # ---- rewriting
    def R(self, t):
        r = self.memo.get(t.id)
        if r is None:
            self.memo[t.id] = t          # cycles
            r = self.memo[t.id] = self._r(t)
        return r

    def G(self, gs):
        out = set()
        for c, pol in gs:
            n = self.R(c)
            if n.kind == "op" and n.args[0] == "not":
                n, pol = n.args[1], not pol
            if n.kind == "k":
                if bool(n.args[0]) != pol:
                    return None
                continue
            if n.kind == "op" and n.args[0] == "ne":
                n, pol = T("op", "eq", *n.args[1:]), not pol
            if n.kind == "op" and n.args[0] == "isnot":
                n, pol = T("op", "is", *n.args[1:]), not pol
            out.add((n, pol))
        out = frozenset(out)
        return None if contradictory(out) else out

    def _r(self, t):
        if t.kind == "phi":
            out = []
            for g, x in t.args[0]:
                g2 = self.G(g)
                if g2 is None:
                    continue
                for g3, y in alts(self.R(x)):
                    gg = g2 | g3
                    if not contradictory(gg):
                        out.append((gg, y))
            return phi(out)
        if t.kind == "xa":
            e = self.R(t.args[0])
            n = attr_name(t.args[1]) if t.args[1].kind != "phi" else None
            if n is None and t.args[1].kind == "phi":
                ns = {attr_name(x) for x in vals(t.args[1])}
                n = ns.pop() if len(ns) == 1 else None
            return T("xa", e, K(n)) if n else T("xa", e, self.R(t.args[1]))
        if t.kind == "call":
            name = str(t.args[0]).split(".")[-1]
            recv = self.R(t.args[1]) if t.args[1] is not None else None
            args = tuple(self.R(a) for a in t.args[2])
            kws = tuple((n, self.R(a)) for n, a in t.args[3])
            return self.spread(lambda r, a, k: self.reader(t.args[0], name, r, a, k), recv, args, kws)
        if t.kind == "op":
            args = [self.R(a) if hasattr(a, "kind") else a for a in t.args[1:]]
            if t.args[0] == "bool" and args[0].kind == "xa":
                return args[0]
            if t.args[0] == "or" and all(hasattr(a, "kind") for a in args) and any(a.kind == "xa" for x in args[:-1] for a in vals(x)):
                # 'attribute or default': the default where the attribute is absent (or empty)
                out, g0 = [], EMPTY
                for i, a in enumerate(args):
                    last = i == len(args) - 1
                    if last:
                        out += [(g0 | g, y) for g, y in alts(a)]
                        break
                    xs = alts(a)
                    if len(xs) == 1 and xs[0][1].kind == "xa":
                        absent = T("op", "is", a, NONE)
                        out.append((g0 | {(absent, False)}, a))
                        g0 = g0 | {(absent, True)}
                    else:
                        return T("op", t.args[0], *args)
                return phi([(g, y) for g, y in out if not contradictory(g)])
            return T("op", t.args[0], *args)
        if t.kind in ("new", "k", "p", "sym", "list", "dict", "set", "cls", "fn", "lam", "enum"):
            return t
        args = []
        for a in t.args:
            if hasattr(a, "kind"):
                args.append(self.R(a))
            elif isinstance(a, tuple) and a and all(hasattr(x, "kind") for x in a):
                args.append(tuple(self.R(x) for x in a))
            else:
                args.append(a)
        return T(t.kind, *args)

    def reader(self, fname, name, recv, args, kws):
        kd = dict(kws)
        if name in ("get_str_attribute", "get_str_attribute_optional", "has_str_attribute"):
            el = args[0] if args else kd.get("element")
            an = args[1] if len(args) > 1 else kd.get("attribute")
            d = args[2] if len(args) > 2 else kd.get("default")
            if el is not None and an is not None and el.kind != "phi":
                n = attr_name(an)
                x = T("xa", el, K(n)) if n else T("xa", el, an)
                absent = T("op", "is", x, NONE)
                if name == "has_str_attribute":
                    return T("op", "not", absent)
                if name == "get_str_attribute" and d is not None and d is not NONE:
                    return phi([(frozenset([(absent, False)]), x)] + [(frozenset([(absent, True)]) | g, y) for g, y in alts(d)])
                return x
        if name in ("get_clark_notation_tag",) and args:
            return T("tag", args[0])
        if name == "get" and recv is not None and recv.kind == "attrib" and args:
            n = attr_name(args[0])
            x = T("xa", recv.args[0], K(n) if n else args[0])
            if len(args) > 1 and args[1] is not NONE:
                absent = T("op", "is", x, NONE)
                return phi([(frozenset([(absent, False)]), x), (frozenset([(absent, True)]), args[1])])
            return x
        return T("call", fname, recv, args, kws)

    def spread(self, mk, recv, args, kws):
        combos = [(EMPTY, None, (), ())]
        parts = ([("r", None, recv)] if recv is not None else []) + [("a", None, a) for a in args] + [("k", n, a) for n, a in kws]
        n = 1
        for _, _, a in parts:
            n *= len(alts(a))
        if n > self.limit:
            return mk(recv, args, kws)
        for kind, nm, a in parts:
            nxt = []
            for g0, r, aa, kk in combos:
                for g, x in alts(a):
                    gg = g0 | g
                    if contradictory(gg):
                        continue
                    nxt.append((gg, x if kind == "r" else r, aa + (x,) if kind == "a" else aa, kk + ((nm, x),) if kind == "k" else kk))
            combos = nxt
        return phi([(g, mk(r, aa, kk)) for g, r, aa, kk in combos])


def strip(v, ops):
    """remove conversions whose name is in ops -> (inner term, [conversions removed])"""
    done = []
    while True:
        if v.kind == "call" and v.args[0].split(".")[-1] in ops:
            n = v.args[0].split(".")[-1]
            inner = v.args[2][0] if v.args[2] else v.args[1]
            if v.args[1] is not None and not v.args[2]:
                inner = v.args[1]
            done.append(n)
            v = inner
        else:
            return v, done


def scenario(gs, facts):
    """are the guards compatible with the scenario? facts: function term -> True/False/None"""
    for c, pol in gs:
        v = facts(c)
        if v is not None and v != pol:
            return False
    return True


# ---- scenarios: what a term is worth when some facts about the document are fixed
def ev3(c, facts):
    """condition term -> True / False / None (not decided by the facts)"""
    v = facts(c)
    if v is not None:
        return v
    if c.kind == "k":
        return bool(c.args[0])
    if c.kind == "op":
        op, xs = c.args[0], c.args[1:]
        if op == "not":
            v = ev3(xs[0], facts)
            return None if v is None else not v
        if op == "bool":
            return ev3(xs[0], facts)
        if op in ("and", "or"):
            vs = [ev3(x, facts) for x in xs if hasattr(x, "kind")]
            stop = op == "or"
            if any(v is stop for v in vs):
                return stop
            return (not stop) if all(v is (not stop) for v in vs) else None
        if op in ("ne", "isnot") and len(xs) == 2:
            v = ev3(T("op", "eq" if op == "ne" else "is", *xs), facts)
            return None if v is None else not v
        if op in ("eq", "is") and len(xs) == 2:
            if xs[0] is xs[1]:
                return True
            if xs[0].kind == xs[1].kind == "k":
                return xs[0].args[0] == xs[1].args[0]
            for a, b in ((xs[0], xs[1]), (xs[1], xs[0])):
                if a.kind == "phi":
                    rs = {ev3(T("op", op, y, b), facts) for y in under(a, facts)}
                    if len(rs) == 1:
                        return rs.pop()
            v = facts(T("op", op, xs[1], xs[0]))
            return v
    if c.kind == "phi":
        rs = {ev3(y, facts) for y in under(c, facts)}
        if len(rs) == 1:
            return rs.pop()
    return None


def under(t, facts):
    """the alternatives of t that remain possible when the facts hold"""
    out = []
    for g, x in alts(t):
        if all(ev3(c, facts) in (None, pol) for c, pol in g):
            if x not in out:
                out.append(x)
    return out


def num(t):
    """constant number a term stands for, or None"""
    if t.kind == "call" and t.args[0].split(".")[-1] in ("float", "int", "Decimal") and len(t.args[2]) == 1 and t.args[1] is None:
        v = num(t.args[2][0])
        if v is None:
            return None
        return float(v) if t.args[0] == "float" else v
    if t.kind == "k" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return t.args[0]
    if t.kind == "k" and isinstance(t.args[0], str):
        try:
            return float(t.args[0])
        except ValueError:
            return None
    return None


def xa_facts(present=(), absent=(), eq=(), ne=(), true=(), false=()):
    """facts(c): present/absent: xa terms or predicates on them; eq/ne: pairs of terms"""
    eq, ne = [set((a.id, b.id)) for a, b in eq], [set((a.id, b.id)) for a, b in ne]

    def is_in(x, coll):
        return any(y(x) if callable(y) else y is x for y in coll)

    def facts(c):
        if is_in(c, true):
            return True
        if is_in(c, false):
            return False
        if c.kind == "op" and c.args[0] in ("is", "eq") and len(c.args) == 3:
            a, b = c.args[1:]
            if a is NONE:
                a, b = b, a
            if b is NONE:
                if is_in(a, present):
                    return False
                if is_in(a, absent):
                    return True
                if a.kind == "phi":
                    rs = {is_none3(y, facts) for y in under(a, facts)}
                    if len(rs) == 1:
                        return rs.pop()
                return is_none3(a, facts)
            if b.kind == "k" and b.args[0] == "" and is_in(a, present):
                return False
            s = {a.id, b.id}
            if s in eq:
                return True
            if s in ne:
                return False
        if c.kind == "op" and c.args[0] == "in" and len(c.args) == 3 and c.args[2].kind == "attrib":
            n = attr_name(c.args[1])
            if n:
                x = T("xa", c.args[2].args[0], K(n))
                if is_in(x, present):
                    return True
                if is_in(x, absent):
                    return False
        if c.kind == "xa":
            if is_in(c, present):
                return True
            if is_in(c, absent):
                return False
        return None
    return facts


def is_none3(t, facts):
    if t.kind == "k":
        return t.args[0] is None
    if t.kind in ("list", "dict", "set", "new", "tup", "fstr", "tag"):
        return False
    if t.kind == "call" and t.args[0].split(".")[-1] in ("float", "int", "str", "len", "qname_from_str"):
        return False
    return None
