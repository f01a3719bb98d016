"""What the parsing steps build facts and contexts from."""
from .vf import T, K, NONE, alts, vals, children, subterms
from .prov import Prov
from . import entry

FIND = {"find", "findall", "find_elements", "find_element", "xpath", "iterfind", "getparent", "iter", "iterchildren", "getchildren", "iterdescendants", "getnext", "getprevious", "iterancestors", "itersiblings"}

UP = {"getparent", "getnext", "getprevious", "getroottree", "iterancestors", "itersiblings"}


def base_of(t):
    """the element or document a piece of a document was reached from, one step"""
    if t.kind in ("elem", "root", "idx", "copy", "unpack", "attrib"):
        return t.args[0] if hasattr(t.args[0], "kind") else None
    if t.kind == "call":
        n = t.args[0].split(".")[-1]
        if n in FIND or n in ("get_all_etrees", "list", "tuple", "reversed", "sorted", "deepcopy", "copy"):
            return t.args[1] if t.args[1] is not None and n != "deepcopy" and n != "copy" else (t.args[2][0] if t.args[2] else None)
    return None


def is_doc(t):
    """a node of a source document"""
    for _ in range(40):
        if t is None:
            return False
        if t.kind == "call" and t.args[0].split(".")[-1] in FIND | {"get_all_etrees"}:
            return True
        if t.kind == "phi":
            return any(is_doc(x) for x in vals(t))
        t = base_of(t)
    return False


def within(t, el, depth=0):
    """is t the element el or something inside it?"""
    while t is not None and depth < 40:
        if t is el:
            return True
        if t.kind == "phi":
            vs = [x for x in vals(t) if x is not NONE]
            return bool(vs) and all(within(x, el, depth + 1) for x in vs)
        if t.kind == "call" and t.args[0].split(".")[-1] in UP:
            return False
        t = base_of(t)
        depth += 1
    return False


def leaves(I, st, P, t, guards=True):
    """the source data a value is computed from (guards: also what decides which alternative it is)"""
    out, seen = set(), set()

    def go(t):
        if t is None or not hasattr(t, "kind") or t.id in seen:
            return
        seen.add(t.id)
        if t.kind in ("xa", "text", "tag", "tail"):
            out.add(t)
            return
        if t.kind == "attr" and t.args[0].kind == "new":
            return
        if t.kind == "elem" and t.args[0].kind in ("list", "set", "dict"):
            go(t.args[0])
            return
        if t.kind in ("elem", "root", "copy", "idx") and is_doc(t):
            out.add(T("content", t))
            return
        if t.kind == "call" and t.args[0].split(".")[-1] in FIND and is_doc(t):
            out.add(T("content", t))
            return
        if t.kind == "new":
            for (i, n), v in list(st.heap.items()):
                if i == t.id and not str(n).startswith("#") and hasattr(v, "kind"):
                    go(P.R(v))
            return
        if t.kind in ("list", "set", "dict"):
            for e in I.entries(st, t):
                for x in e[:2]:
                    if hasattr(x, "kind"):
                        go(P.R(x))
                if guards:
                    for c, _ in e[2]:
                        go(P.R(c))
            return
        if t.kind == "phi":
            for g, x in t.args[0]:
                go(x)
                if guards:
                    for c, _ in g:
                        go(P.R(c))
            return
        for c in children(t, False):
            go(c)
    go(P.R(t))
    return out


def owner(leaf):
    return leaf.args[0]


def field(st, P, obj, suffix):
    """alternatives of a field of a constructed object (leaving out 'still what it was')"""
    for (i, n), v in list(st.heap.items()):
        if i == obj.id and not str(n).startswith("#") and hasattr(v, "kind") and (n == suffix or n.endswith("__" + suffix) or n == "_" + suffix):
            return [(g, x) for g, x in alts(P.R(v)) if not (x.kind == "attr" and x.args[0] is obj) and x.kind != "noret"]
    return None


def runs(p):
    """(parser class, interpreter, state, facts built) for every parsing step for facts"""
    for c, f in entry.entries(p, "parse_facts"):
        I, v, st = entry.run(p, f, ("_add_characteristic",))
        facts = [e for e in I.events if e.kind == "new" and e.name == "Fact"]
        yield c, f, I, st, facts


def trace(I, st, P, t, depth=0, g=frozenset()):
    """the values t can be, through alternatives and containers, each with all the conditions met on the way"""
    if t is None or not hasattr(t, "kind") or depth > 12:
        return
    if t.kind == "phi":
        for h, x in t.args[0]:
            yield from trace(I, st, P, x, depth + 1, g | h)
        return
    if t.kind in ("elem", "idx", "unpack") and t.args[0].kind in ("list", "set", "dict"):
        es = I.entries(st, t.args[0])
        for e in es:
            x = e[0] if t.args[0].kind != "list" and t.kind == "elem" and e[0] is not None and hasattr(e[0], "kind") else e[1]
            yield from trace(I, st, P, x, depth + 1, g | e[2])
        if es:
            return
    r = P.R(t)
    if r is not t and r.kind in ("phi",) or (r is not t and r.kind in ("elem", "idx") and r.args[0].kind in ("list", "set", "dict")):
        yield from trace(I, st, P, r, depth + 1, g)
        return
    yield r, g


def implied(g, depth=0):
    """the conditions that hold when those of g do, looking into the alternatives of a condition"""
    from .vf import flat_guard
    out = set()
    for c, b in g:
        for x, pol in flat_guard(c, b):
            out.add((x, pol))
            if x.kind == "phi" and depth < 4:
                can = [(h, y) for h, y in x.args[0] if not (y.kind == "k" and bool(y.args[0]) != pol)]
                sets = [implied(h | ({(y, pol)} if y.kind != "k" else frozenset()), depth + 1) for h, y in can]
                if sets:
                    out |= set.intersection(*sets)
    return out
