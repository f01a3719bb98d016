"""C39: a report element is of the kind, and has the properties, which its schema declaration gives it."""
import itertools
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..project import AnalysisError
from ..prov import Prov
from ..known import Known, Unknown, given
from .. import objs

TRUE, FALSE = ("true", "1"), (None, "false", "0")
GOOD = {"substitutionGroup": "xbrli:item", "type": "xbrli:stringItemType", "xbrli:periodType": "duration", "name": "Thing", "id": "ex_Thing"}
READS = {"get_period_type": lambda a: a.get("xbrli:periodType"), "get_balance_type": lambda a: a.get("xbrli:balance"),
         "is_nillable": lambda a: a.get("nillable") in TRUE, "get_data_type": lambda a: a.get("type"), "get_id": lambda a: a.get("id")}


def scenarios():
    """(description, attributes, expected kind or None)"""
    def s(desc, kind, **kw):
        a = dict(GOOD)
        for k, v in kw.items():
            k = {"periodType": "xbrli:periodType", "balance": "xbrli:balance"}.get(k, k)
            if v is None:
                a.pop(k, None)
            else:
                a[k] = v
        return desc, a, kind
    for ab in FALSE:
        w = "not abstract" if ab is None else f"abstract={ab}"
        yield s(f"an item, {w}", "Concept", abstract=ab)
        yield s(f"a member of a domain, {w}", "Member", abstract=ab, type="nonnum:domainItemType")
        yield s(f"no item, {w}", None, abstract=ab, substitutionGroup=None)
        yield s(f"no item but named LineItems, {w}", None, abstract=ab, substitutionGroup=None, name="ThingLineItems")
    for pt, bal, nil in itertools.product(("instant", "duration"), (None, "credit", "debit"), (None, "true", "1", "false", "0")):
        yield s(f"an item with period type {pt}, balance {bal}, nillable {nil}", "Concept", periodType=pt, balance=bal, nillable=nil)
    for ty in ("xbrli:monetaryItemType", "xbrli:sharesItemType", "ex:ownItemType", "ex:ownType"):
        yield s(f"an item of type {ty}", "Concept", type=ty)
    yield s("an item without an id", "Concept", id=None)
    yield s("an item without a period type", None, periodType=None)
    yield s("an item with period type 'forever'", None, periodType="forever")
    yield s("an item with balance 'both'", None, balance="both")
    yield s("an item with nillable 'maybe'", None, nillable="maybe")
    yield s("an item without a type", None, type=None)
    for ab in TRUE:
        yield s(f"a hypercube, abstract={ab}", "Hypercube", abstract=ab, substitutionGroup="xbrldt:hypercubeItem")
        yield s(f"a dimension, abstract={ab}", "Dimension", abstract=ab, substitutionGroup="xbrldt:dimensionItem")
        yield s(f"a member of a domain, abstract={ab}", "Member", abstract=ab, type="nonnum:domainItemType")
        yield s(f"line items, abstract={ab}", "LineItems", abstract=ab, name="ThingLineItems")
        yield s(f"line items without an id, abstract={ab}", "LineItems", abstract=ab, name="ThingLineItems", id=None)
        yield s(f"a dimension named LineItems, abstract={ab}", "Dimension", abstract=ab, substitutionGroup="xbrldt:dimensionItem", name="LineItemsAxis")
        yield s(f"an abstract item, abstract={ab}", "Abstract", abstract=ab)
        yield s(f"an abstract item without a period type, abstract={ab}", "Abstract", abstract=ab, periodType=None)


def run(p, c, f, P, attrs):
    I = Interp(p)
    st = objs.begin(I, c.module)
    el = T("sym", "element")
    I.term_by_id[el.id] = el
    I.types[el.id] = {"lxml.etree._Element"}
    args = {"el": el}
    call = []
    for n, _, ann, _ in f.params:
        if n in ("self", "cls"):
            continue
        if not call:
            call.append(el)
            continue
        t = objs.annotated(I, f, n, T("sym", n))
        I.term_by_id[t.id] = t
        if any(x.split(".")[-1] == "QName" for x in I.types.get(t.id, ())):
            args["name"] = t
        call.append(t)
    k = Known(P, el, attrs)
    with given(k):
        v = I.call_func(f, call, [], st, objs.node())
        out = []
        for _, x in alts(v):
            if x.kind == "noret":
                continue
            got = {}
            if x.kind == "new":
                for m in list(READS) + ["get_name"]:
                    g = x.args[0].lookup(m)
                    if g is None or g.is_abstract:
                        continue
                    fr = I.push_module_frame(x.args[0].module)
                    st.frames[fr.fid] = {}
                    got[m] = [y for y in vals(P.R(objs.call(I, st, x, m))) if not (y.kind == "attr" and y.args[0] is x) and y.kind != "noret"]
            out.append((x, got))
        res = []
        for x, got in out:
            d = {}
            for m, ys in got.items():
                d[m] = []
                for y in ys:
                    try:
                        d[m].append(("v", k.ev(y)))
                    except Unknown:
                        d[m].append(("t", y))
            res.append((x, d))
    return res, args.get("name")


def check(p, rep, tier):
    rep.rule("kind", "The kind of a report element follows from abstract, substitution group, type and name of its declaration; "
                     "a declaration which is none of these, or breaks the rules for concepts, makes no report element.", floor=30)
    rep.rule("read", "Period type, balance, nillable, data type and id of a report element are those of its declaration.", floor=60)
    rep.rule("name", "A report element bears the name it is created for.", floor=4)
    P = Prov()
    c = p.cls("XMLReportElementFactory")
    f = c.lookup("create") if c else None
    if f is None:
        raise AnalysisError("XMLReportElementFactory.create is gone")
    rep.saw("functions", f.fullname)
    seen = set()
    for desc, attrs, kind in scenarios():
        res, name = run(p, c, f, P, attrs)
        kinds = set()
        for x, d in res:
            if x.kind == "new":
                kinds.add(x.args[0].name)
            elif x is NONE:
                kinds.add(None)
            else:
                kinds.add("?")
        if "?" in kinds or not kinds:
            continue
        rep.ob("kind", desc, kinds == {kind} or (kind in kinds and len(kinds) > 1),
               f"A declaration which is {desc} makes {' or '.join(sorted(str(k or 'nothing') for k in kinds))}, not {kind or 'nothing'}",
               f.loc(), f"kind:{desc}")
        for x, d in res:
            if x.kind != "new" or x.args[0].name != kind:
                continue
            for m, want in READS.items():
                if m not in d:
                    continue
                known = [v for t, v in d[m] if t == "v"]
                if not known:
                    continue
                w = want(attrs)
                ok = any(type(v) is type(w) and v == w for v in known)
                rep.ob("read", f"{desc}: {m}", ok, f"{kind}.{m}() answers {known[0]!r} for {desc}, the declaration says {w!r}", f.loc(), f"read:{kind}.{m}")
            if name is not None and "get_name" in d and kind not in seen:
                ts = [v for t, v in d["get_name"] if t == "t"]
                if ts or d["get_name"]:
                    seen.add(kind)
                    other = [y for y in ts if y.kind in ("sym", "new") and y is not name]
                    rep.ob("name", kind, name in ts or not other, f"The name of a {kind} is {show(other[0], 4) if other else ''}, not the one it was created for",
                           f.loc(), f"name:{kind}")
    typed(p, rep, P)


def pieces(t):
    """indices of the parts of a split reference in t"""
    out = set()
    for s in subterms(t):
        if s.kind == "unpack" and any(u.kind == "call" and str(u.args[0]).split(".")[-1] in ("partition", "split") for u in [s.args[0]] + vals(s.args[0])):
            out.add((s.args[1], s.args[2]))
    return out


def typed(p, rep, P):
    rep.rule("typed", "The type of a typed dimension is the type of the element its typedDomainRef names: looked up by the part after '#', "
                      "in the document named by the part before it or, without one, in the same document.", floor=0)
    fs = [f for f in p.all_functions() if f.name == "parse_report_elements_xml"]
    if not fs:
        return
    f = fs[0]
    I = Interp(p)
    st = objs.begin(I, f.module)
    cx = objs.annotated(I, f, f.params[0][0], T("sym", "context"))
    I.term_by_id[cx.id] = cx
    I.call_func(f, [cx], [], st, objs.node())
    finds, where = {}, {}
    for e in I.events:
        n = e.name.split(".")[-1] if isinstance(e.name, str) else ""
        if e.kind == "call" and n in ("find", "getroot", "get_referenced_etree") and e.args:
            for a in e.args:
                for i, k in pieces(P.R(a)):
                    where.setdefault(n, set()).add((i, k))
    for n, want in (("find", "last"), ("get_referenced_etree", "first")):
        for i, k in sorted(where.get(n, ()), key=str):
            if not isinstance(i, int) or not isinstance(k, int):
                continue
            ok = i == (k - 1 if want == "last" else 0)
            rep.ob("typed", f"{n} part {i} of {k}", ok,
                   f"{'The element' if n == 'find' else 'The document'} of a typed domain is looked up with part {i} of its reference, not the {want}",
                   f.loc(), f"typed:{n}")
