"""C38: looking something up by name finds exactly what bears the name."""
import ast
from ..project import AnalysisError
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms, flat_guard
from ..prov import Prov
from .. import objs

URI, PREFIX, LOCAL = K("http://asked.example/uri"), K("askedprefix"), K("AskedName")
DEDUP = {"dict.fromkeys", "set", "frozenset", "fromkeys", "unique", "OrderedDict.fromkeys"}


def check(p, rep, tier):
    rep.rule("candidates", "What is looked up has the local name, URI and prefix asked for; the part not given is taken from what the namespaces say about the other.", floor=6)
    rep.rule("all", "Without URI and prefix, every element is found whose local name is the one asked for, and no other.", floor=2)
    rep.rule("kind", "A search for one kind of element looks for that kind throughout.", floor=2)
    rep.rule("tested", "A name is looked up only after it was found to exist.", floor=2)
    rep.rule("once", "An element is found once, however many prefixes its namespace has.", floor=2)
    rep.rule("asked", "Filing lookups by name search for the very name they are given, as text or as qualified name.", floor=4)
    rep.rule("unique", "A name that fits no or several elements is refused, not resolved to any of them.", floor=1)
    P = Prov()
    c = p.cls("ReportElementService")
    for m, typed in (("get_fuzzy", False), ("get_fuzzy_typed", True)):
        f = c.lookup(m)
        if f is None:
            raise AnalysisError(f"ReportElementService.{m} not found")
        for uri in (None, URI):
            for pre in (None, PREFIX):
                search(p, rep, P, c, f, typed, uri, pre)
    filing(p, rep, P)
    unique(p, rep)


def base(n):
    return str(n).split(".")[-1]


def certain(I, st, t, depth=0):
    """is the truth of a container certain?"""
    if depth > 6:
        return None
    if t.kind == "k":
        return bool(t.args[0])
    if t.kind in ("list", "dict", "set"):
        es = I.entries(st, t)
        if not es:
            return False
        return True if any(not e[2] and not e[3] for e in es) else None
    if t.kind == "phi":
        r = {True if (x, True) in g else False if (x, False) in g else certain(I, st, x, depth + 1) for g, x in t.args[0] if feasible(I, st, g, depth + 1)}
        return r.pop() if len(r) == 1 else None
    if t.kind == "op" and t.args[0] in ("or", "and"):
        r = [certain(I, st, x, depth + 1) for x in t.args[1:] if hasattr(x, "kind")]
        if t.args[0] == "or":
            return True if True in r else (False if all(x is False for x in r) else None)
        return False if False in r else (True if all(x is True for x in r) else None)
    if t.kind == "op" and t.args[0] == "not":
        r = certain(I, st, t.args[1], depth + 1)
        return None if r is None else not r
    return None


def feasible(I, st, g, depth=0):
    for c, b in g:
        for x, pol in flat_guard(c, b):
            r = certain(I, st, x, depth + 1)
            if r is not None and r != pol:
                return False
    return True


def results(I, st, t, g=frozenset(), depth=0):
    """(element found, conditions, the containers it went through)"""
    for h, x in alts(t):
        if not feasible(I, st, g | h):
            continue
        if x.kind in ("list", "set", "dict") and depth < 6:
            for e in I.entries(st, x):
                v = e[1] if e[1] is not None and hasattr(e[1], "kind") and x.kind != "dict" else e[0]
                if feasible(I, st, g | h | e[2]):
                    yield from results(I, st, v, g | h | e[2], depth + 1)
        elif x is not NONE:
            yield x, g | h


def search(p, rep, P, c, f, typed, uri, pre):
    I = Interp(p)
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    s, _ = objs.construct(I, st, p.cls("QNameSearchParams"))
    for n, v in (("uri", uri), ("prefix", pre), ("local_name", LOCAL)):
        st.heap[(s.id, n)] = NONE if v is None else v
    kind = T("sym", "kind asked for")
    I.term_by_id[kind.id] = kind
    v = objs.call(I, st, o, f.name, [s] + ([kind] if typed else []))
    case = {(0, 0): "a local name", (1, 0): "URI and local name", (0, 1): "prefix and local name", (1, 1): "URI, prefix and local name"}[(uri is not None, pre is not None)]
    where = f"{f.qualname}, given {case}"
    loc = f"{f.module.relpath}:{f.node.lineno}"
    key = f"{f.name}:{case}"
    found = list(results(I, st, v)) if v is not None else []
    looked = [(x, g) for x, g in found if x.kind == "call" and base(x.args[0]) in ("get_by_qname", "get_typed_by_qname")]
    listed = [(x, g) for x, g in found if any(y.kind == "call" and base(y.args[0]) in ("get_all", "get_all_typed") for y in subterms(P.R(x)))]
    if uri is None and pre is None:
        if not listed:
            # elements may be looked up by every name there is: not a form this analysis judges
            rep.ob("all", where, bool(found), f"{where}: nothing is ever found", loc, key=f"all:{key}")
            return
        for x, g in listed:
            r = P.R(x)
            src = r.args[0] if r.kind == "elem" else None
            ok = src is not None and src.kind == "call" and base(src.args[0]) in ("get_all", "get_all_typed")
            why = f"looks at {show(r, 4)[:100]} instead of at every element" if not ok else ""
            conds = [(P.R(cn), b) for cn, b in g if any(y is r or y is x for y in subterms(P.R(cn)))]
            eq = [(cn, b) for cn, b in conds if name_test(P, cn, r)]
            if ok and not eq:
                ok, why = False, "does not compare the local name of an element with the one asked for"
            elif ok and any(not b for _, b in eq):
                ok, why = False, "keeps the elements with another name"
            elif ok:
                more = [cn for cn, b in conds if not name_test(P, cn, r) and not seen_before(cn)]
                if more:
                    ok, why = False, f"keeps an element only if {show(more[0], 4)[:120]}"
            rep.ob("all", where, ok, f"{where}: {why}", loc, key=f"all:{key}")
            if typed and src is not None and src.kind == "call":
                rep.ob("kind", where, base(src.args[0]) == "get_all_typed" and kind in src.args[2], f"{where}: lists {show(src, 3)[:100]}, not the elements of the kind asked for",
                       loc, key=f"kind:{key}")
        return
    if not looked:
        rep.ob("candidates", where, bool(listed), f"{where}: nothing is ever found", loc, key=f"candidates:{key}")
        return
    if listed and all(whole_list(P, x, g) for x, g in listed):
        rep.ob("candidates", where, False, f"{where}: elements are found by their local name alone", loc, key=f"candidates:{key}:alone")
    qnames = {}
    for x, g in looked:
        if typed:
            rep.ob("kind", where, base(x.args[0]) == "get_typed_by_qname" and kind in x.args[2] + tuple(v for _, v in x.args[3]),
                   f"{where}: looks up {show(x, 3)[:110]}, not for the kind asked for", loc, key=f"kind:{key}")
        a = x.args[2][0] if x.args[2] else next(iter([v for _, v in x.args[3]]), None)
        for q, through in reach(I, st, a):
            qnames.setdefault(q, []).append(through)
    if not any(q.kind == "new" for q in qnames):
        return
    for q, throughs in qnames.items():
        if q.kind != "new":
            continue
        for n, given, other in (("local_name", LOCAL, None), ("uri", uri, ("get_uris", pre)), ("prefix", pre, ("get_prefixes", uri))):
            xs = {y for y in values(I, st, P, I.getfield(st, q, n, None)) if not (y.kind == "attr" and y.args[0] is q)}
            if given is not None:
                bad = [y for y in xs if y is not given]
            else:
                bad = [y for y in xs if not any(z.kind == "call" and base(z.args[0]) == other[0] and other[1] in z.args[2] + tuple(w for _, w in z.args[3]) for z in subterms(y))]
                if n == "prefix":
                    bad = [y for y in bad if y.kind != "k"]   # the prefix takes no part in the comparison of names
            rep.ob("candidates", f"{where}: {n}", bool(xs) and not bad, f"{where}: the {n} looked up is {show(bad[0], 4)[:100] if bad else 'nothing'}", loc,
                   key=f"candidates:{key}:{n}")
        many = pre is None and any(y.kind == "elem" for y in values(I, st, P, I.getfield(st, q, "prefix", None)))
        if many:
            ok = all(any(base(w) in {base(d) for d in DEDUP} or w == "seen" for w in th) for th in throughs) or any(seen_before(cn) for _, g in looked for cn, _ in g)
            rep.ob("once", where, ok, f"{where}: an element is found as many times as its namespace has prefixes", loc, key=f"once:{key}")
    tested(p, rep, I, st, f, where, loc, key, typed, kind)


def whole_list(P, x, g):
    return any(name_test(P, P.R(cn), P.R(x)) for cn, b in g)


def values(I, st, P, t, depth=0):
    for x in vals(P.R(t)) if t is not None else []:
        if x.kind == "elem" and x.args[0].kind in ("dict", "list", "set") and depth < 5:
            for e in I.entries(st, x.args[0]):
                y = e[0] if x.args[0].kind == "dict" and e[0] is not None else e[1]
                yield from values(I, st, P, y, depth + 1)
        else:
            yield x


def reach(I, st, t, through=(), depth=0):
    """the names a looked-up name can be, and what they went through"""
    for x in vals(t):
        if depth > 8:
            continue
        if x.kind == "elem" and hasattr(x.args[0], "kind"):
            yield from reach(I, st, x.args[0], through, depth + 1)
        elif x.kind == "call" and x.args[2] and x.kind != "new" and base(x.args[0]) in {base(d) for d in DEDUP} | {"list", "tuple", "sorted", "iter", "filter"}:
            yield from reach(I, st, x.args[2][-1 if base(x.args[0]) == "filter" else 0], through + (x.args[0],), depth + 1)
        elif x.kind in ("list", "set", "dict"):
            for e in I.entries(st, x):
                y = e[0] if x.kind == "dict" and e[0] is not None else e[1]
                extra = ("set",) if x.kind in ("set", "dict") else ()
                if any(seen_before(cn) for cn, _ in e[2]):
                    extra += ("seen",)
                if y is not None and hasattr(y, "kind"):
                    yield from reach(I, st, y, through + extra, depth + 1)
        else:
            yield x, through


def name_test(P, cn, el):
    """local name of the element == the one asked for"""
    if cn.kind != "op" or cn.args[0] not in ("eq", "ne") or LOCAL not in cn.args[1:]:
        return False
    other = [a for a in cn.args[1:] if a is not LOCAL and hasattr(a, "kind")]
    return bool(other) and any(y is el for y in subterms(other[0])) and "local_name" in show(other[0], 9)


def seen_before(cn):
    return cn.kind == "op" and cn.args[0] == "in" and len(cn.args) > 2 and any(z.kind in ("list", "dict", "set") for z in subterms(cn.args[2]))


def tested(p, rep, I, st, f, where, loc, key, typed, kind):
    asked = [e for e in I.events if e.kind == "call" and e.name and base(e.name) in ("has_qname", "has_typed_qname")]
    gets = [e for e in I.events if e.kind == "call" and e.name and base(e.name) in ("get_by_qname", "get_typed_by_qname")]
    caught = any(isinstance(n, ast.Try) for n in ast.walk(f.node))
    if gets and not caught:
        rep.ob("tested", where, bool(asked), f"{where}: names are looked up that may not exist", loc, key=f"tested:{key}")
    for e in asked:
        if typed and base(e.name) == "has_typed_qname":
            rep.ob("kind", f"{where}: test", kind in e.args or kind in [v for _, v in e.kwargs], f"{where}: tests whether there is {show(e.args[-1], 3)[:80]}, not the kind asked for",
                   e.loc, key=f"kind:{key}:test")
        elif typed:
            rep.ob("kind", f"{where}: test", False, f"{where}: tests whether any element has the name, whatever its kind", e.loc, key=f"kind:{key}:test")


LOOKUPS = {"get_report_element_by_name": None, "get_concept_by_name": "Concept", "get_concept": "Concept", "get_facts_by_concept_name": "Concept", "get_facts_by_concept": "Concept"}


def filing(p, rep, P):
    c = p.cls("Filing")
    for m, kind in LOOKUPS.items():
        f = c.lookup(m)
        if f is None:
            continue
        I = Interp(p, opaque={"get_fuzzy", "get_fuzzy_typed", "from_string", "get_by_qname", "get_typed_by_qname", "exactly_one"})
        st = objs.begin(I, c.module)
        o, _ = objs.construct(I, st, c)
        q = T("sym", "name asked for")
        I.term_by_id[q.id] = q
        v = P.R(objs.call(I, st, o, m, [q]))
        terms = [(g, y) for g, x in alts(v) for y in subterms(x)]
        for src in vals(v):
            for e in I.entries(st, src):
                terms += [(e[2], y) for cn, _ in e[2] for y in subterms(P.R(cn))] + [(e[2], y) for y in subterms(P.R(e[1]))]
        # alternatives keep their own conditions
        guards = {}
        for _, y in terms:
            if y.kind == "phi":
                for g, x in y.args[0]:
                    for z in subterms(x):
                        guards.setdefault(z.id, set()).add(g)
        names = (q,) if m != "get_facts_by_concept" else tuple(y for _, y in terms if y.kind == "call" and base(y.args[0]) == "get_name" and (y.args[1] is q))
        loc = f"{f.module.relpath}:{f.node.lineno}"
        bad = None
        n = 0
        for g, y in terms:
            if y.kind != "call":
                continue
            b = base(y.args[0])
            args = list(y.args[2]) + [w for _, w in y.args[3]]
            if b in ("get_fuzzy", "get_fuzzy_typed", "get_by_qname", "get_typed_by_qname"):
                n += 1
                if ("typed" in b) != (kind is not None):
                    bad = bad or (f"looks for {'an element of some kind' if kind is None else 'an element of any kind'} by {b}")
                if "typed" in b and not any(a.kind == "cls" and a.args[0].name == kind for a in args):
                    bad = bad or f"looks for another kind than {kind}: {show(args[-1], 3)[:60]}"
                a = args[0] if args else NONE
                if b.startswith("get_fuzzy"):
                    for z in vals(a):
                        if z.kind == "call" and base(z.args[0]).startswith("from_") and not any(w in names for w in z.args[2]):
                            bad = bad or f"searches for {show(z, 4)[:100]} instead of the name it is given"
                elif not all(z in names for z in vals(a)):
                    bad = bad or f"looks up {show(a, 4)[:100]} instead of the name it is given"
                for gs in [g] + list(guards.get(y.id, ())):
                    for cn, pol in gs:
                        if cn.kind == "op" and cn.args[0] == "isinstance" and any(w in names for w in cn.args[1:] if hasattr(w, "kind")) and "str" in show(cn.args[2], 2):
                            if pol != b.startswith("get_fuzzy"):
                                bad = bad or f"treats {'text' if pol else 'a qualified name'} as {'a qualified name' if pol else 'text'}"
            elif b == "next" or b == "get_first":
                if any(z.kind == "call" and base(z.args[0]).startswith("get_fuzzy") for a in args for z in subterms(a)) and not any("len" in show(cn, 4) for cn, _ in g):
                    rep.ob("unique", f"{c.name}.{m}", False, f"{c.name}.{m} takes the first of the elements that fit a name", loc, key=f"unique:{m}")
        for g, y in terms:
            if y.kind in ("idx", "elem") and hasattr(y.args[0], "kind") and y.args[0].kind == "call" and base(y.args[0].args[0]).startswith("get_fuzzy") and not any("len" in show(cn, 4) for cn, _ in g):
                rep.ob("unique", f"{c.name}.{m}", False, f"{c.name}.{m} takes one of the elements that fit a name, without asking whether there are others", loc, key=f"unique:{m}")
        rep.ob("asked", f"{c.name}.{m}", bad is None, f"{c.name}.{m} {bad}", loc, key=f"asked:{m}")
        if not n:
            rep.assume(f"{c.name}.{m} looks names up in a way this analysis does not see")


def unique(p, rep):
    for f in p.all_functions():
        if f.name != "exactly_one":
            continue
        decides = any(isinstance(x, (ast.If, ast.While, ast.IfExp)) and any(isinstance(y, ast.Call) and ast.unparse(y.func) in ("next", "len", "any", "islice") for y in ast.walk(x.test)) and
                      not isinstance(x, ast.While) for x in ast.walk(f.node))
        other = any(isinstance(x, (ast.Match, ast.Try, ast.For)) or isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)) for x in ast.walk(f.node))
        only = [x for x in ast.walk(f.node) if isinstance(x, ast.If) and any(isinstance(y, ast.Raise) for y in ast.walk(x))]
        second = decides and any(not (isinstance(y.test, ast.Compare) and any(isinstance(z, ast.Constant) and z.value == 0 for z in y.test.comparators)) and
                                 any(isinstance(z, ast.Call) and ast.unparse(z.func) in ("next", "len", "any") for z in ast.walk(y.test)) for y in only)
        rep.ob("unique", f.fullname, second or other, f"{f.fullname} accepts several elements where there must be one", f"{f.module.relpath}:{f.node.lineno}", key=f"unique:{f.name}")
