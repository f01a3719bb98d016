"""C41: the period, the entity and the dimension values of a context are those its own elements spell out."""
import re
from ..vf import NONE, vals, show, children
from ..prov import Prov
from ..project import AnalysisError
from .. import facts as F
from .c07 import acc

DATES = {"get_instant_period": "instant", "get_start_period": "startDate", "get_end_period": "endDate"}
SHIFTS = {"timedelta", "relativedelta", "replace", "fromordinal", "toordinal", "fromtimestamp", "timestamp", "combine"}


def step(t):
    """the local name of the element t stands for, when the way it was found says so"""
    if t is None or t.kind != "call":
        return None
    if str(t.args[0]).split(".")[-1] in ("getnext", "getprevious"):
        return "whatever is next to it"
    for a in list(t.args[2]) + [v for _, v in (t.args[3] or ())]:
        if hasattr(a, "kind") and a.kind == "k" and isinstance(a.args[0], str):
            m = re.search(r"(?:^|[:}/])(\w[\w.-]*)(?:\[\d+\])?(?:/text\(\))?$", a.args[0])
            return m.group(1) if m else None
    return None


def read(I, st, P, xs):
    """{(what is read, of which element)} of some values; names are None where unknown"""
    out = set()
    for g, x in xs or ():
        for l in F.leaves(I, st, P, x, False):
            if l.kind == "xa":
                at = l.args[1].args[0] if len(l.args) > 1 and hasattr(l.args[1], "kind") and l.args[1].kind == "k" else None
                out.add(("@" + str(at), F.owner(l)))
            else:
                out.add((l.kind, F.owner(l)))
    return out


def names(rs):
    return {(w, n) for w, o in rs for n in {step(v) for v in vals(o) if v is not NONE}}


def say(ns):
    return ", ".join(sorted(f"the {'text' if w in ('text', 'content') else 'attribute ' + w[1:] if w.startswith('@') else w} of {n}" for w, n in ns)) or "nothing"


def shifted(x, I, st, P):
    """an operation on the way from the text to the date that gives another date"""
    seen, todo = set(), [P.R(x)]
    while todo:
        t = todo.pop()
        if not hasattr(t, "kind") or t.id in seen or t.kind in ("xa", "text", "tag", "tail"):
            continue
        seen.add(t.id)
        if t.kind == "op" and t.args[0] in ("add", "sub", "mult", "mod", "floordiv"):
            return show(t, 3)
        if t.kind == "call":
            n = str(t.args[0]).split(".")[-1]
            if n in SHIFTS and not (n == "replace" and t.args[2] and all(hasattr(a, "kind") and a.kind == "k" and isinstance(a.args[0], str) for a in t.args[2])):
                return n
            for k, v in t.args[3] or ():
                if k == "dayfirst" and not (v.kind == "k" and not v.args[0]):
                    return "dayfirst, which reads 2020-03-04 as the third of April"
        todo.extend(P.R(c) for c in children(t, False))
    return None


def objects(I, st, name):
    seen = {}
    for (i, n) in list(st.heap):
        o = I.term_by_id.get(i)
        if o is not None and o.kind == "new" and getattr(o.args[0], "name", None) == name:
            seen[o.id] = o
    return [seen[k] for k in sorted(seen)]


def where(I, o):
    c = o.args[0]
    return c.loc() if hasattr(c, "loc") else c.name


def check(p, rep, tier):
    rep.rule("dates", "The instant, start and end date of a period are read from its instant, startDate and endDate element, each from its own, "
                      "and are the dates written there.", floor=6)
    rep.rule("kind", "A period is either an instant or has both a start and an end.", floor=4)
    rep.rule("entity", "The scheme of an entity is the scheme attribute, and its identifier the text, of the identifier element.", floor=4)
    rep.rule("explicit", "Dimension and member of an explicit dimension value come from the dimension attribute and the text of one and the same element.", floor=6)
    rep.rule("typed", "The dimension of a typed dimension value comes from the dimension attribute of an element and its value from the text inside that element.", floor=6)
    n = 0
    for c, f, I, st, events in F.runs(p):
        n += 1
        P = Prov()
        w = c.name
        for o in objects(I, st, "PeriodCharacteristic"):
            got = {}
            every = {m: acc(I, st, P, o, m) or [] for m in DATES}
            both = {m: names(read(I, st, P, xs)) for m, xs in every.items()}
            for m, el in DATES.items():
                xs, rs = every[m], both[m]
                got[m] = rs
                if m != "get_instant_period" and both["get_start_period"] == both["get_end_period"] and {n for _, n in rs} >= {"startDate", "endDate"}:
                    rs = {r for r in rs if r[1] == el}    # computed together: which is which is not told apart here
                if rs:
                    bad = {(k, x) for k, x in rs if x is not None and x != el}
                    sh = next(filter(None, (shifted(x, I, st, P) for g, x in xs)), None)
                    rep.ob("dates", f"{w}: {m} of a period", not bad and not sh,
                           f"in {w}, {m}() of a period comes from {say(bad)}, not from its {el} element" if bad else f"in {w}, {m}() of a period is not the date in the document: {sh}",
                           where(I, o), f"{w}:{m}:{'x' if bad else 'shift'}")
            i, s, e = (bool(got[m]) for m in DATES)
            rep.ob("kind", f"{w}: a period with {'an instant' if i else 'a start and an end'}", (i and not s and not e) or (s and e and not i),
                   f"in {w} a period is built with {'an' if i else 'no'} instant, {'a' if s else 'no'} start and {'an' if e else 'no'} end date read from its element", where(I, o), f"{w}:kind:{i}{s}{e}")
            inst = acc(I, st, P, o, "is_instant") or ()
            of = {n for _, n in names(read(I, st, P, [(g, x) for g, x in inst if x.kind != "k"]))} & set(DATES.values())
            rep.ob("kind", f"{w}: is_instant depends on which elements there are", len(of) < 2, f"in {w}, whether a period is an instant depends on what its dates are", where(I, o), f"{w}:isinstant:dates")
            k = [x for g, x in inst if x.kind == "k"]
            if k:
                rep.ob("kind", f"{w}: is_instant", all(bool(x.args[0]) == i for x in k), f"in {w}, is_instant() of a period read from {'an instant' if i else 'a start and an end'} is {show(k[0], 2)}", where(I, o), f"{w}:isinstant:{i}")
        for o in objects(I, st, "EntityCharacteristic"):
            rs = names(read(I, st, P, acc(I, st, P, o, "get_schema")))
            bad = {r for r in rs if r[0] != "@scheme" or r[1] not in (None, "identifier")}
            rep.ob("entity", f"{w}: scheme", bool(rs) and not bad, f"in {w} the scheme of an entity is {say(bad or rs)}, not the scheme attribute of its identifier element", where(I, o), f"{w}:scheme")
            vals_ = acc(I, st, P, o, "get_value") or ()
            vs = read(I, st, P, vals_)
            todo, seen = [x for g, x in vals_], set()
            while todo:
                s = todo.pop()
                if s.id in seen or s.kind in ("text", "xa", "tag"):
                    continue
                seen.add(s.id)
                if s.kind == "attr" and s.args[0] is o:
                    vs |= read(I, st, P, F.field(st, P, o, str(s.args[1])))
                else:
                    todo.extend(children(s, False))
            ns = names(vs)
            bad = {r for r in ns if r[0] not in ("@scheme",) and (r[0] not in ("text", "content") or r[1] not in (None, "identifier"))}
            has = any(r[0] in ("text", "content") and r[1] in (None, "identifier") for r in ns)
            rep.ob("entity", f"{w}: identifier", has and not bad, f"in {w} the value of an entity is made of {say(bad or ns)}, not of the text of its identifier element", where(I, o), f"{w}:identifier")
            own = F.field(st, P, o, "id")
            if own:
                ns = names(read(I, st, P, own))
                bad = {r for r in ns if r[0] not in ("text", "content")}
                rep.ob("entity", f"{w}: the identifier and the scheme each in their place", not bad, f"in {w} the identifier of an entity is {say(bad)}", where(I, o), f"{w}:place")
        for cn, m in (("ExplicitDimensionCharacteristic", "get_member"), ("TypedDimensionCharacteristic", "get_value")):
            rule = "explicit" if m == "get_member" else "typed"
            for o in objects(I, st, cn):
                ds = read(I, st, P, acc(I, st, P, o, "get_dimension"))
                asp = read(I, st, P, acc(I, st, P, o, "get_aspect"))
                ms = read(I, st, P, acc(I, st, P, o, m))
                els = {x.id for w_, ow in ds for x in vals(P.R(ow))}
                for nm, rs in (("dimension", ds), ("aspect", asp)):
                    data = {r for r in rs if r[0] not in ("tag", "content")}
                    bad = {r for r in data if r[0] != "@dimension"} or {r for r in data if not {x.id for x in vals(P.R(r[1]))} <= els}
                    rep.ob(rule, f"{w}: {nm}", bool(data) and not bad, f"in {w} the {nm} of a{'n explicit' if rule == 'explicit' else ' typed'} dimension value comes from {say(names(bad)) if bad else 'nothing in the document'}, "
                                                                      "not from the dimension attribute of its element", where(I, o), f"{w}:{rule}:{nm}")
                data = {r for r in ms if r[0] not in ("tag", "content")}
                bad = {r for r in data if r[0] != "text"}
                el_terms = [x for w_, ow in ds for x in vals(P.R(ow))]
                for r in data - bad:
                    for x in vals(P.R(r[1])):
                        if rule == "explicit" and x.id not in els or rule == "typed" and (x.id in els or not any(F.within(x, e) for e in el_terms)):
                            bad.add(r)
                rep.ob(rule, f"{w}: {m}", bool(data) and not bad, f"in {w} the {'member' if rule == 'explicit' else 'value'} of a{'n explicit' if rule == 'explicit' else ' typed'} dimension value "
                                                                 f"comes from {say(names(bad)) if bad else 'nothing in the document'}, not from the text {'of' if rule == 'explicit' else 'inside'} its own element", where(I, o), f"{w}:{rule}:{m}")
    if n < 2:
        raise AnalysisError("no parsing steps for facts found")
