"""C22: questions about kinds answer for exactly that kind."""
from __future__ import annotations
import ast
import re
from ..project import AnalysisError, dotted
from ..consts import attr_bindings, module_value
from ..query import Norm, ITEM, single_return
from .. import objs

F, E, N, C, X = "FactRepository", "ReportElementRepository", "NetworkRepository", "ComponentRepository", "ErrorRepository"
# (class, query): (collection, conditions, what of each, shape); None: not looked at.  $1 is the first parameter.
QUERIES = {
    ("Filing", "get_all_facts"): (F, [], ITEM, "list"),
    ("Filing", "get_all_report_elements"): (E, [], ITEM, "list"),
    ("Filing", "get_all_components"): (C, [], ITEM, "list"),
    ("Filing", "get_all_errors"): (X, [], ITEM, "list"),
    ("Filing", "has_any_errors"): (X, [], ITEM, "any"),
    ("Filing", "get_all_core_facts"): (F, ["_.is_core()"], ITEM, "list"),
    ("Filing", "get_all_physical_networks"): (N, ["_.is_physical()"], ITEM, "list"),
    ("Filing", "get_errors_by_area"): (X, ["_.get_area() == $1"], ITEM, "list"),
    ("Filing", "get_errors_by_severity"): (X, ["_.get_severity() == $1"], ITEM, "list"),
    ("Filing", "get_errors"): (X, ["_.get_severity() == Severity.ERROR"], ITEM, "list"),
    ("Filing", "get_warnings"): (X, ["_.get_severity() == Severity.WARNING"], ITEM, "list"),
    ("Filing", "get_infos"): (X, ["_.get_severity() == Severity.INFO"], ITEM, "list"),
    ("Filing", "get_all_reported_concepts"): (F, [], "_.get_concept()", "list"),
    ("Filing", "get_facts_by_concept_name"): (F, ["_.get_concept() == *"], ITEM, "list"),
    ("Filing", "get_facts_by_concept"): (F, ["_.get_concept() == *"], ITEM, "list"),
    ("Filing", "get_all_component_uris"): (C, [], "_.get_URI()", "list"),
    ("Filing", "get_component"): (C, ["_.get_URI() == $1"], ITEM, "first"),
    ("ErrorRepository", "get_by_severity"): (X, ["_.get_severity() == $1"], ITEM, "list"),
    ("InMemoryNetworkRepository", "get_by_linkrole"): (None, ["_.get_link_role() == $1"], ITEM, "list"),
    ("InMemoryNetworkRepository", "get_all"): (None, [], ITEM, "list"),
    ("ReportElementRepository", "get_all_typed"): (E, ["isinstance(_, $1)"], ITEM, "list"),
    ("Context", "has_noncore_dimensions"): (None, ["not _.is_core()"], ITEM, "any"),
    ("Context", "has_characteristic"): (None, ["_ == $1"], ITEM, "any"),
    ("Fact", "is_core"): (None, ["not _.is_core()"], ITEM, "none"),
    ("IReportElement", "has_label_with_role"): (None, ["_.get_label_role() == $1"], ITEM, "any"),
    ("IReportElement", "has_label_with_language"): (None, ["_.get_language() == $1"], ITEM, "any"),
    ("Aspect", "has_label_with_language"): (None, ["_.get_language() == $1"], ITEM, "any"),
}
REPOS = {F, E, N, C, X}
# item types as the specification defines them
NUMERIC = {"decimal", "float", "double", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "nonNegativeInteger", "unsignedLong", "unsignedInt",
           "unsignedShort", "unsignedByte", "positiveInteger", "monetary", "shares", "pure"}
INTEGER = {"integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte",
           "positiveInteger"}
OTHER = {"string", "boolean", "hexBinary", "base64Binary", "anyURI", "QName", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth",
         "normalizedString", "token", "language", "Name", "NCName"}


def check(p, rep, tier):
    rep.rule("R1-kind", "a query that promises one kind of report element keeps exactly the elements of that kind, of all elements", 6)
    rep.rule("R2-query", "a query by property keeps exactly the items with that property, of the whole collection", 10)
    rep.rule("R3-described", "a report element is described as the kind it is", 6)
    rep.rule("R4-points-to", "what a node says it points to is what it points to", 6)
    rep.rule("R5-networks", "a component says it has a network exactly if it can give it", 3)
    rep.rule("R6-types", "each item type counts as the kind of value the specification gives it", 30)
    rep.rule("R7-aspects", "a characteristic belongs to the aspect of its class, and exactly the built-in aspects are core", 4)
    cls = {c.name: c for c in p.classes.values()}
    for need in ("Filing", "IReportElement", "Concept", "Component"):
        if need not in cls:
            raise AnalysisError(f"class {need} not found")
    kinds(p, rep, cls)
    queries(p, rep, cls)
    described(p, rep)
    points_to(p, rep, cls)
    networks(p, rep, cls["Component"])
    types(p, rep, cls["Concept"])
    aspects(p, rep, cls)
    rep.assume("queries written in a form that cannot be brought into normal form are listed under not_understood and not judged")


def kinds(p, rep, cls):
    base = cls["IReportElement"]
    seen = 0
    for c in p.classes.values():
        for n, f in c.methods.items():
            r = getattr(f.node, "returns", None)
            if r is None or n.startswith("_"):
                continue
            m = re.fullmatch(r"(?:list|List|Sequence|Iterable|Iterator|tuple)\[['\"]?(\w+)['\"]?\]", ast.unparse(r))
            if not m or m.group(1) not in cls or base not in cls[m.group(1)].mro()[1:]:
                continue
            if not re.match(r"get_all_|get_.*s$", n) or len([q for q in f.params if q[1] == "pos"]) > 1 or n in ("get_all_reported_concepts",):
                continue
            k = m.group(1)
            q = Norm(p, f).query()
            rep.saw("queries", f.fullname)
            if q is None:
                rep.stats.setdefault("not_understood", []).append(f.fullname)
                continue
            want = {f"isinstance({ITEM}, {k})"}
            # a query by property may keep more conditions
            bad = None
            conj = {kind_of(x, cls) for x in q.conj}
            if q.src in REPOS and q.src != E or q.src.startswith("("):
                bad = f"looks through {q.src}, not through all report elements"
            elif q.src != E:
                rep.stats.setdefault("not_understood", []).append(f.fullname)
                continue
            elif conj != want:
                bad = f"keeps the elements for which {' and '.join(sorted(q.conj)) or 'anything'} holds"
            elif q.elt != ITEM or q.shape != "list":
                bad = f"gives {q.elt} of each element"
            seen += 1
            rep.ob("R1-kind", f.qualname, bad is None, f"{f.qualname} promises all {k} elements but {bad}", f.loc(), key=f"R1:{f.qualname}")
    if seen < 1:
        raise AnalysisError("no query by kind was understood")


def kind_of(cond, cls):
    return cond


def queries(p, rep, cls):
    seen = 0
    for (cn, n), (src, conj, elt, shape) in sorted(QUERIES.items()):
        c = cls.get(cn)
        f = c.lookup(n) if c is not None else None
        if f is None:
            rep.stats.setdefault("missing", []).append(f"{cn}.{n}")
            continue
        q = Norm(p, f).query()
        rep.saw("queries", f.fullname)
        if q is None or src is not None and q.src not in REPOS and not q.src.startswith("("):
            rep.stats.setdefault("not_understood", []).append(f.fullname)
            continue
        ps = [x[0] for x in f.params][0 if f.is_static else 1:]
        want = {x.replace("$1", ps[0] if ps else "?") for x in conj}
        bad = None
        if src is not None and q.src != src:
            bad = f"looks through {q.src} instead of {src}"
        elif q.shape != shape:
            bad = f"answers for {q.shape} of the items instead of {shape}"
        elif not same(q.conj, want):
            bad = f"keeps the items for which {' and '.join(sorted(q.conj)) or 'anything'} holds instead of {' and '.join(sorted(want)) or 'all items'}"
        elif q.elt != elt and q.shape == "list":
            bad = f"gives {q.elt} of each item instead of {elt}"
        seen += 1
        rep.ob("R2-query", f"{cn}.{n}", bad is None, f"{cn}.{n} {bad}", f.loc(), key=f"R2:{cn}.{n}")
    if seen < 8:
        raise AnalysisError(f"only {seen} queries were understood")


def same(have, want):
    if len(have) != len(want):
        return False
    for w in want:
        if w.endswith("*"):
            if not any(h.startswith(w[:-1]) for h in have):
                return False
        elif w not in have:
            return False
    return True


def word(name):
    w = re.sub(r"(?<!^)(?=[A-Z])", "", name).lower()
    return w


def norm(s):
    return re.sub(r"[^a-z]", "", s.lower())


def described(p, rep):
    ks = [c for c in objs.concrete_subclasses(p, "IReportElement")]
    words = {c.name: {norm(c.name), norm(c.name).rstrip("s")} for c in ks}
    if len(ks) < 4:
        raise AnalysisError("kinds of report elements not found")
    for c in ks:
        f = c.lookup("convert_to_dict")
        if f is None:
            continue
        said = []
        for n in ast.walk(f.node):
            v = None
            if isinstance(n, ast.Dict):
                for k, x in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str) and "report" in k.value and "type" in k.value and isinstance(x, ast.Constant) and isinstance(x.value, str):
                        said.append((x.value, n))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith("report-element:"):
                said.append((n.value.split(":", 1)[1], n))
        for s, n in said:
            rep.ob("R3-described", f"{c.name} {s}", norm(s) in words[c.name], f"{c.name} describes itself as {s!r}", f.loc(n), key=f"R3:{c.name}:{norm(s)}")


GETTER = {"get_report_element": ("report element", "IReportElement"), "get_resource": ("resource", "IResource"), "get_fact": ("fact", "Fact")}


def points_to(p, rep, cls):
    kinds_ = {"report element": "IReportElement", "resource": "IResource", "fact": "Fact"}

    def fits(name, kind):
        c, b = cls.get(name), cls.get(kinds_[kind])
        return c is None or b is None or b in c.mro()

    for c in sorted(objs.concrete_subclasses(p, "INetworkNode"), key=lambda c: c.name):
        f = c.lookup("points_to")
        if f is None or f.is_abstract:
            continue
        for cond, val, node in returns(f):
            if not (isinstance(val, ast.Constant) and isinstance(val.value, str)):
                continue
            rep.ob("R4-points-to", f"{c.name} {val.value}", val.value in kinds_, f"{c.name}.points_to answers {val.value!r}, which is none of the three answers", f.loc(node), key=f"R4:{c.name}:word:{val.value}")
            if val.value not in kinds_:
                continue
            for k in cond:
                rep.ob("R4-points-to", f"{c.name} {k}", fits(k, val.value), f"{c.name} says it points to a {val.value} when it points to a {k}", f.loc(node), key=f"R4:{c.name}:{k}:{val.value}")
            g = c.lookup(next(k for k, v in GETTER.items() if v[0] == val.value))
            rep.ob("R4-points-to", f"{c.name}.{g.name}", not only_raises(g), f"{c.name} can say it points to a {val.value}, but {g.name} always refuses", g.loc(), key=f"R4:{c.name}:{g.name}:refuses")
        for gn, (word_, kc) in GETTER.items():
            g = c.lookup(gn)
            if g is None or g.is_abstract:
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.If) and any(isinstance(s, ast.Raise) for s in n.body) and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
                    t = n.test.operand
                    if isinstance(t, ast.Call) and dotted(t.func) == "isinstance":
                        k = (dotted(t.args[1]) or "").split(".")[-1]
                        rep.ob("R4-points-to", f"{c.name}.{gn} {k}", fits(k, word_), f"{c.name}.{gn} gives a {k}", g.loc(n), key=f"R4:{c.name}:{gn}:{k}")


def only_raises(g):
    b = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(b) and isinstance(b[0], ast.Raise)


def returns(f):
    """(classes tested positively on the way, value, node) of each return"""
    out = []

    def tests(t):
        return {(dotted(x.args[1]) or "").split(".")[-1] for x in ast.walk(t) if isinstance(x, ast.Call) and dotted(x.func) == "isinstance" and len(x.args) == 2} - {""} if not any(isinstance(x, ast.Not) for x in ast.walk(t)) else set()

    def walk(body, conds):
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None:
                v = s.value
                while isinstance(v, ast.IfExp):
                    out.append((conds | tests(v.test), v.body, s))
                    v = v.orelse
                out.append((conds, v, s))
            elif isinstance(s, ast.If):
                walk(s.body, conds | tests(s.test))
                walk(s.orelse, conds)
            elif isinstance(s, ast.Match):
                for k in s.cases:
                    walk(k.body, conds | ({dotted(k.pattern.cls)} if isinstance(k.pattern, ast.MatchClass) else set()))
    walk(f.node.body, set())
    return out


def networks(p, rep, c):
    for n, f in c.methods.items():
        m = re.fullmatch(r"has_(\w+_network)", n)
        if not m:
            continue
        g = c.lookup("get_" + m.group(1))
        e = single_return(f)
        h = single_return(g) if g is not None else None
        if e is None or h is None:
            continue
        attrs = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and not x.attr.startswith("get_")}
        via = {x.func.attr for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        mine = {x.attr for x in ast.walk(h) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        ok, why = True, ""
        if attrs and attrs != mine:
            ok, why = False, f"looks at {', '.join(sorted(attrs))}"
        elif via and any(v.startswith("get_") for v in via) and g.name not in via:
            ok, why = False, f"asks {', '.join(sorted(via))}"
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.Eq)):
            ok, why = False, "answers the opposite"
        rep.ob("R5-networks", f"{c.name}.{n}", ok, f"{c.name}.{n} {why}, which is not what {g.name} gives", f.loc(), key=f"R5:{n}")


def types(p, rep, c):
    sets = {}
    for n in ("is_numeric", "is_integer", "is_textual", "is_boolean"):
        f = c.lookup(n)
        if f is None:
            continue
        rep.saw("kind_predicates", f.fullname)
        s = members(p, f)
        if s is None:
            rep.stats.setdefault("not_understood", []).append(f.fullname)
            continue
        sets[n] = (s, f)
    if not sets:
        raise AnalysisError("no table of item types was found")

    def has(n, t):
        return any(x == t + "ItemType" or x == t for x in sets[n][0])

    def ob(n, t, want):
        if n in sets:
            s, f = sets[n]
            ok = has(n, t) == want
            rep.ob("R6-types", f"{n} {t}", ok, f"{t}ItemType {'does not count' if want else 'counts'} as {n[3:]}", f.loc(), key=f"R6:{n}:{t}")
    for t in sorted(NUMERIC):
        ob("is_numeric", t, True)
        ob("is_textual", t, False)
        ob("is_integer", t, t in INTEGER)
        ob("is_boolean", t, False)
    for t in sorted(OTHER):
        ob("is_numeric", t, False)
        ob("is_integer", t, False)
        ob("is_boolean", t, t == "boolean")
        ob("is_textual", t, True)
    if "is_integer" in sets and "is_numeric" in sets:
        for t in sorted(sets["is_integer"][0]):
            rep.ob("R6-types", f"integer {t}", t in sets["is_numeric"][0], f"{t} counts as integer but not as numeric", sets["is_integer"][1].loc(), key=f"R6:subset:{t}")
    if "is_textual" in sets and "is_numeric" in sets:
        both = sorted(set(sets["is_textual"][0]) & set(sets["is_numeric"][0]))
        rep.ob("R6-types", "textual or numeric", not both, f"{', '.join(both)} counts both as text and as a number", sets["is_numeric"][1].loc(), key="R6:both:" + ",".join(both))


def members(p, f, depth=0):
    """the strings for which the predicate `x in table` / `x == 'word'` answers yes; None if not of that form"""
    e = single_return(f)
    if e is None:
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return None
    if isinstance(e, ast.BoolOp):
        parts = [sub(p, f, v) for v in e.values]
        if any(x is None for x in parts):
            return None
        return set.union(*parts) if isinstance(e.op, ast.Or) else set.intersection(*parts)
    return sub(p, f, e)


def sub(p, f, e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        if isinstance(e.ops[0], ast.In):
            return strings(p, f, e.comparators[0])
        if isinstance(e.ops[0], ast.Eq):
            for x in (e.left, e.comparators[0]):
                s = strings(p, f, x)
                if s is not None and len(s) == 1:
                    return s
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and not e.args and f.cls is not None:
        g = f.cls.lookup(e.func.attr)
        return members(p, g) if g is not None else None
    return None


def strings(p, f, e, depth=0):
    if depth > 5:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return {e.value}
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = set()
        for x in e.elts:
            s = strings(p, f, x.value if isinstance(x, ast.Starred) else x, depth + 1)
            if s is None:
                return None
            out |= s
        return out
    if isinstance(e, ast.Call) and dotted(e.func) in ("set", "frozenset", "list", "tuple") and len(e.args) == 1:
        return strings(p, f, e.args[0], depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
        a, b = strings(p, f, e.left, depth + 1), strings(p, f, e.right, depth + 1)
        return None if a is None or b is None else a | b
    if isinstance(e, ast.Name):
        v = module_value(p, f.module, e.id)
        return strings(p, f, v, depth + 1) if v is not None else None
    if isinstance(e, ast.Attribute):
        vs = attr_bindings(p, f, e)
        return strings(p, f, vs[0], depth + 1) if len(vs) == 1 else None
    return None


def aspects(p, rep, cls):
    a = cls.get("Aspect")
    for c in sorted(objs.concrete_subclasses(p, "ICharacteristic"), key=lambda c: c.name):
        f = c.lookup("get_aspect")
        e = single_return(f) if f is not None else None
        m = re.fullmatch(r"Aspect\.([A-Z]+)", dotted(e) or "") if e is not None else None
        if m:
            rep.ob("R7-aspects", c.name, c.name.lower().startswith(m.group(1).lower()), f"{c.name} belongs to the aspect {m.group(1)}", f.loc(), key=f"R7:{c.name}")
    if a is None:
        return
    m = a.module
    consts, core = {}, {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign):
            d = dotted(s.targets[0])
            if d and d.startswith("Aspect.") and isinstance(s.value, ast.Call):
                consts[d] = s
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_make_core":
                core[dotted(n.func.value) or ast.unparse(n.func.value)] = s
    if core and all(k.startswith("Aspect.") for k in core):
        for d, s in sorted(consts.items()):
            rep.ob("R7-aspects", d, d in core, f"{d} is built in but not core", f"{m.relpath}:{s.lineno}", key=f"R7:core:{d}")
    for f in p.all_functions():
        for k in p.calls_in(f):
            if isinstance(k.func, ast.Attribute) and k.func.attr == "_make_core":
                rep.ob("R7-aspects", f.qualname, False, f"{f.qualname} makes an aspect core that is not built in", f.loc(k), key=f"R7:makes:{f.qualname}")
