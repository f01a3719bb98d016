"""C11: what an arc says reaches the network node unchanged."""
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms, phi, EMPTY
from ..prov import Prov, READERS, under, xa_facts, num, strip
from ..project import AnalysisError
from .. import objs

ARC = [("get_arc_role", "xlink:arcrole"), ("get_order", "order"), ("get_weight", "weight"), ("get_preferred_label_role", "preferredLabel")]
DEFAULTS = {"get_order": 1.0}


def accessors(I, st, P, n, names):
    cl = n.args[0]
    fr = I.push_module_frame(cl.module)
    st.frames[fr.fid] = {}
    out = {}
    for m in names:
        f = cl.lookup(m)
        if f is not None and not f.is_abstract:
            v = objs.call(I, st, n, m)
            # where the object does not exist yet its fields have no value
            out[m] = P.R(phi([(g, x) for g, x in alts(v) if not (x.kind == "attr" and x.args[0] is n) and x.kind != "noret"] or [(EMPTY, v)]))
    return out


def is_float_of(x, a):
    return x.kind == "call" and x.args[0] == "float" and x.args[1] is None and x.args[2] == (a,) and not x.args[3]


def check(p, rep, tier):
    rep.rule("attr", "In the node built for an element an arc leads to, every property of the node is exactly the attribute (or name) of that arc or link: "
                     "order and weight as float(attribute), the roles as they are, the names as the tag of the arc and of the link.", floor=20)
    rep.rule("default", "Where the attribute is absent the node gets a constant; for the order this is 1 for every kind of network.", floor=6)
    rep.rule("root", "The node of an element an arc starts from is named after that arc and its role.", floor=8)
    rep.rule("target", "A node points to the object that was found for its locator or resource, and this object was looked up for that very element.", floor=6)
    rep.rule("direction", "An arc makes the node at its 'to' end a child of the node at its 'from' end, not the reverse.", floor=1)
    rep.rule("inline", "The nodes of inline footnote relationships carry the order, arcrole and link role of their relationship.", floor=3)
    rep.assume("an element that is both ends of the same arc is excluded (arcs closing a cycle are reported and ignored)")
    P = Prov()
    for c in sorted(objs.concrete_subclasses(p, "IXMLNetworkFactory"), key=lambda c: c.name):
        factory(p, rep, P, c)
    wiring(p, rep, P)
    inline(p, rep, P)


def factory(p, rep, P, c):
    f = c.lookup("create_node")
    if f is None or f.is_abstract:
        raise AnalysisError(f"{c.name}.create_node not found")
    names = [n for n, k, a, d in f.params][1:]
    if len(names) < 5:
        raise AnalysisError(f"{c.name}.create_node: parameters {names}")
    I = Interp(p, opaque=READERS)
    v, st = I.run(f)
    link, elem, arc, obj = (T("p", f.fullname, n) for n in names[:4])
    rep.saw("network factories", c.name)
    label = T("xa", elem, K("xlink:label"))
    frm, to = T("xa", arc, K("xlink:from")), T("xa", arc, K("xlink:to"))
    arcnone = T("op", "is", arc, NONE)
    base = dict(present=[lambda x: x.kind == "xa" and x.args[0] in (link, elem)], false=[arcnone])

    def scen(inner, attrs):
        def pres(x):
            return x.kind == "xa" and (x.args[0] in (link, elem) or (x.args[0] is arc and (attrs or x.args[1].args[0] not in
                                                                                          ("order", "weight", "preferredLabel"))))

        def abst(x):
            return x.kind == "xa" and x.args[0] is arc and not pres(x)
        return xa_facts(present=[pres, lambda x: x is arc], absent=[abst], false=[arcnone],
                        eq=[(to if inner else frm, label)], ne=[(frm if inner else to, label)])

    nodes = [x for x in vals(v) if x.kind == "new"]
    if not nodes:
        raise AnalysisError(f"{c.name}.create_node returns no node the analysis can see")
    allp = xa_facts()
    for n in nodes:
        loc = f.loc()
        acc = accessors(I, st, P, n, [m for m, _ in ARC] + ["get_arc_name", "get_link_role", "get_link_name"])

        def expect(rule, m, val, ok, want, sc):
            good = bool(val) and all(ok(x) for x in val)
            rep.ob(rule, f"{c.name}.{m} [{sc}]", good,
                   f"{c.name}.create_node: for {sc}, {m}() of the node is {' or '.join(show(x, 5)[:120] for x in val) or 'never built'}, "
                   f"but it must be {want}", loc, key=f"{rule}:{c.name}.{m}:{sc.split(' ')[0]}")

        inner, inner0, root = scen(True, True), scen(True, False), scen(False, True)
        for m, a in ARC:
            if m not in acc:
                continue
            x = T("xa", arc, K(a))
            if m in ("get_order", "get_weight"):
                expect("attr", m, under(acc[m], inner), lambda y: is_float_of(y, x), f"float({show(x)})", "inner node, attribute present")
            else:
                expect("attr", m, under(acc[m], inner), lambda y: y is x, show(x), "inner node, attribute present")
            if m == "get_order":
                expect("default", m, under(acc[m], inner0), lambda y: num(y) == 1.0, "1", "inner node, attribute absent")
            elif m != "get_arc_role":
                val = under(acc[m], inner0)
                expect("default", m, val, lambda y: y.kind == "k" or num(y) is not None or not any(z.kind == "xa" for z in subterms(y)), "a constant",
                       "inner node, attribute absent")
            if m == "get_arc_role":
                expect("root", m, under(acc[m], root), lambda y: y is x, show(x), "root node")
            elif m in ("get_order", "get_weight"):
                expect("root", m, under(acc[m], root), lambda y: num(y) is not None, "a constant", "root node")
        if "get_arc_name" in acc:
            for rule, sc, fa in (("attr", "inner node, attribute present", inner), ("root", "root node", root)):
                expect(rule, "get_arc_name", under(acc["get_arc_name"], fa), lambda y: qname_of(y, arc), "the name of the arc element", sc)
        if "get_link_role" in acc:
            expect("attr", "get_link_role", under(acc["get_link_role"], inner), lambda y: y is T("xa", link, K("xlink:role")), "the role of the link",
                   "inner node, attribute present")
        if "get_link_name" in acc:
            expect("attr", "get_link_name", under(acc["get_link_name"], inner), lambda y: qname_of(y, link), "the name of the link element",
                   "inner node, attribute present")
        # what the node points to
        cl = n.args[0]
        kinds = [m for m in ("get_report_element", "get_concept", "get_resource", "get_fact") if cl.lookup(m) is not None and not cl.lookup(m).is_abstract]
        pts = accessors(I, st, P, n, kinds)
        seen = [x for m in pts.values() for x in vals(m)]
        rep.ob("target", f"{c.name}: node points to the object it is given",
               any(x is obj for x in seen) and all(x is obj or x.kind in ("k", "noret") for x in seen),
               f"{c.name}.create_node: the node points to {', '.join(show(x, 4)[:80] for x in seen) or 'nothing'} instead of the object it is created for", loc,
               key=f"target:{c.name}")


def qname_of(y, e):
    """qname_from_str(tag of e, ..) or QName.from_string(tag of e)"""
    if y.kind == "call" and y.args[2]:
        return y.args[2][0] is T("tag", e) or qname_of(y.args[2][0], e)
    return y is T("tag", e)


def key_of(I, x):
    from ..vf import _table, _phis
    i = str(x.args[0])
    if x.kind in ("list", "set", "dict") and i.startswith("dd") and ":" in i:
        return I.__dict__.setdefault("_byid", {t.id: t for t in list(_table.values()) + list(_phis.values())}).get(int(i.split(":")[1]))
    return None


def ends(I, st, P, t):
    """which ends of arcs select the nodes in t: names of the arc attributes among the keys under which they were filed"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind == "unpack" and x.args[2] == 2:
            prods = []
            for q in vals(x.args[0]):
                prods += vals(q.args[0]) if q.kind == "elem" else [None]
            if prods and all(q is not None and q.kind == "call" and q.args[0].split(".")[-1] == "product" and len(q.args[2]) == 2 for q in prods):
                todo += [q.args[2][x.args[1]] for q in prods]
                continue
        if x.kind in ("list", "set", "dict"):
            k = key_of(I, x)
            if k is not None:
                out |= {y.args[1].args[0] for y in subterms(P.R(k)) if y.kind == "xa" and y.args[1].kind == "k"}
                continue
            for en in I.entries(st, x):
                todo.append(en[1])
            continue
        if x.kind == "idx":
            out |= {y.args[1].args[0] for y in subterms(P.R(x.args[1])) if y.kind == "xa" and y.args[1].kind == "k"}
            continue
        if x.kind == "new":
            continue
        for y in (vals(x) if x.kind == "phi" else [a for a in x.args if hasattr(a, "kind")]):
            todo.append(y)
    return out


def wiring(p, rep, P):
    fs = [f for f in p.all_functions() if f.name == "parse_xml_link"]
    if len(fs) != 1:
        raise AnalysisError("parse_xml_link not found")
    f = fs[0]
    I = Interp(p, opaque=READERS | {"create_node", "create_network", "update_report_elements", "get_object_from_reference", "is_reachable", "_add_child",
                                    "get_arc_role", "is_physical", "insert"})
    v, st = I.run(f)
    links = [T("p", f.fullname, n) for n, k, a, d in f.params]
    sites = {}
    for e in I.events:
        if e.kind != "call" or not e.name:
            continue
        m = e.name.split(".")[-1]
        if m == "create_node":
            a = [e.arg(i, n) for i, n in enumerate(("xml_link", "xml_referenced_element", "xml_arc", "points_to"))]
            if any(x is None for x in a):
                continue
            a = [P.R(x) for x in a]
            s = sites.setdefault(e.loc, [])
            if a[0] not in links:
                s.append(f"the link passed is {show(a[0], 4)[:80]}")
            for o in vals(a[3]):
                if o.kind == "call" and o.args[0].split(".")[-1] == "get_object_from_reference" and o.args[2]:
                    if o.args[2][0] is not a[1]:
                        s.append(f"the object was found for {show(o.args[2][0], 4)[:100]} but the node is built for {show(a[1], 4)[:100]}")
                elif o is not NONE:
                    s.append(f"the node points to {show(o, 4)[:100]}")
            for x in vals(a[2]):
                if x.kind == "p":
                    s.append(f"{show(x)} is passed as the arc")
        elif m == "_add_child" and e.args:
            parent, child = ends(I, st, P, e.recv), ends(I, st, P, e.args[0])
            bad = ("xlink:to" in parent and "xlink:from" not in parent) or ("xlink:from" in child and "xlink:to" not in child)
            rep.ob("direction", f"{f.name}: {e.loc}", not bad,
                   f"the node that receives a child is chosen by {sorted(parent)} and the child by {sorted(child)}", e.loc, key="direction:parse_xml_link")
    if not sites:
        raise AnalysisError("no create_node call found in parse_xml_link")
    for i, (loc, bad) in enumerate(sorted(sites.items())):
        rep.ob("target", f"parse_xml_link: create_node at {loc}", not bad, "; ".join(dict.fromkeys(bad)), loc, key=f"target:parse_xml_link")
    # what a locator leads to
    g = [x for x in p.all_functions() if x.name == "get_object_from_reference"]
    if len(g) != 1:
        raise AnalysisError("get_object_from_reference not found")
    g = g[0]
    I = Interp(p, opaque=READERS | {"insert", "parse_xml_resource", "get_by_id", "has_id", "get_by_id_optional"})
    v, st = I.run(g)
    v = P.R(v)
    elem = T("p", g.fullname, g.params[0][0])
    href = T("xa", elem, K("xlink:href"))
    n = 0
    for x in vals(v):
        if x.kind == "call" and x.args[0].split(".")[-1] in ("get_by_id", "get_by_id_optional") and x.args[2]:
            n += 1
            attrs = {y for y in subterms(x.args[2][0]) if y.kind == "xa"}
            rep.ob("target", f"{x.args[0]}", attrs == {href}, f"a locator is resolved by {show(x.args[2][0], 5)[:120]} instead of its xlink:href", g.loc(),
                   key="target:locator:" + x.args[0])
        elif x.kind == "call" and x.args[0].split(".")[-1] == "parse_xml_resource":
            n += 1
            rep.ob("target", "parse_xml_resource", x.args[2] and x.args[2][0] is elem, f"the resource is read from {show(x.args[2][0], 4)[:80]}", g.loc(),
                   key="target:resource")
    if n < 2:
        raise AnalysisError("get_object_from_reference: lookups not recognised")


def inline(p, rep, P):
    fs = [f for f in p.all_functions() if f.name == "parse_relationships"]
    if len(fs) != 1:
        raise AnalysisError("parse_relationships not found")
    f = fs[0]
    I = Interp(p, opaque=READERS | {"is_reachable", "_add_child", "is_valid_uri", "get_by_id_optional", "get_by_id", "insert", "upsert"})
    v, st = I.run(f)
    for e in list(I.events):
        if e.kind != "call" or not e.name or e.name.split(".")[-1] != "_add_child" or not e.args:
            continue
        parent, child = ends(I, st, P, e.recv), ends(I, st, P, e.args[0])
        bad = ("toRefs" in parent and "fromRefs" not in parent) or ("fromRefs" in child and "toRefs" not in child)
        rep.ob("direction", f"{f.name}: {e.loc}", not bad,
               f"the node that receives a child is chosen by {sorted(parent)} and the child by {sorted(child)}", e.loc, key="direction:inline")
    news = {e.recv for e in I.events if e.kind == "new" and e.name.split(".")[-1] == "FootnoteNetworkNode" and e.recv is not None}
    if not news:
        raise AnalysisError("no footnote nodes built by parse_relationships")
    orders = False
    for n in sorted(news, key=lambda n: n.id):
        acc = accessors(I, st, P, n, ["get_order", "get_arc_role", "get_link_role"])
        rel = {y.args[0] for t in acc.values() for x in vals(t) for y in subterms(x) if y.kind == "xa"}
        for m, a in (("get_arc_role", "arcrole"), ("get_link_role", "linkRole")):
            val = vals(acc[m])
            xs = [y for y in val if y.kind == "xa"]
            ok = xs and all(y.args[1] is K(a) for y in xs) and all(y.kind in ("xa", "k", "gv") for y in val)
            rep.ob("inline", f"{m} of inline footnote node", ok, f"{m}() of an inline footnote node is {' or '.join(show(y, 5)[:100] for y in val)}, "
                   f"but it must be the relationship's {a}", f.loc(), key=f"inline:{m}")
        val = vals(acc["get_order"])
        if any(num(y) is None for y in val):
            orders = True
            ok = all(num(y) == 1.0 or (y.kind == "call" and is_float_of(y, y.args[2][0]) and y.args[2][0].kind == "xa" and
                                       y.args[2][0].args[1] is K("order")) for y in val)
            rep.ob("inline", "get_order of inline footnote node", ok, f"the order of an inline footnote node is "
                   f"{' or '.join(show(y, 5)[:100] for y in val)}, but it must be float(the relationship's order), or 1", f.loc(), key="inline:get_order")
    rep.ob("inline", "the order of a relationship reaches its node", orders, "no inline footnote node carries the order of its relationship", f.loc(),
           key="inline:order")
