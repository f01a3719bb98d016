"""C10: each kind of link becomes its own kind of network and reaches its component."""
from ..vf import T, K, NONE, alts, vals, show, subterms
from ..prov import Prov
from ..project import AnalysisError
from .. import entry, facts as F, objs
from . import c07

LINKS = {"presentationLink": "Presentation", "calculationLink": "Calculation", "definitionLink": "Definition", "labelLink": "Label",
         "referenceLink": "Reference", "footnoteLink": "Footnote"}
SLOTS = {"get_presentation_network": "PresentationNetwork", "get_calculation_network": "CalculationNetwork", "get_definition_network": "DefinitionNetwork"}
OPAQUE = ("combine_networks", "update_report_elements", "parse_table_linkbase_from_xml")


def check(p, rep, tier):
    rep.rule("kind", "What is built from a link element of a kind is a network, with nodes, of that kind.", floor=12)
    rep.rule("stored", "Networks of all six kinds reach the store of the filing, the definition networks both as physical and as logical network.", floor=14)
    rep.rule("all", "Every network built is stored, whatever it looks like: either itself or as a part of the network it is combined with.", floor=1)
    rep.rule("apart", "Only networks of one kind and one role are combined.", floor=2)
    rep.rule("source", "Extended links are looked for in all documents, and none is passed over because of its role.", floor=2)
    rep.rule("component", "The presentation, calculation and definition network of a component are the networks of that kind of its own role.", floor=6)
    P = Prov()
    for c, f in entry.entries(p, "parse_networks"):
        I, v, st = entry.run(p, f, OPAQUE)
        networks(p, rep, P, c, f, I, st)
    for c, f in entry.entries(p, "parse_components"):
        I, v, st = entry.run(p, f, ("get_by_linkrole",))
        components(p, rep, P, c, f, I, st)


def tests(P, g):
    """names of link kinds the conditions ask the element for"""
    out = set()
    for cnd, b in g:
        r = P.R(cnd)
        if b and r.kind == "op" and r.args[0] in ("in", "eq") and any(x.kind == "tag" for x in subterms(r)):
            for x in subterms(r):
                if x.kind == "k" and isinstance(x.args[0], str):
                    out |= {k for k in LINKS if k in x.args[0]}
    return out


def networks(p, rep, P, c, f, I, st):
    base = p.cls("INetwork")
    nodebase = p.cls("INetworkNode")
    ups = [e for e in I.events if entry.op_of(e) and entry.op_of(e)[0].startswith("Network") and entry.op_of(e)[1] in ("upsert", "insert") and e.args]
    if not ups:
        raise AnalysisError(f"{c.name}.parse_networks stores no network")
    combines = [e for e in I.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "combine_networks" and e.args]
    got, direct, parts = {}, {}, {}

    def note(x, g, into, e):
        if x.kind != "new" or not x.args[0].is_subclass_of(base):
            return
        got.setdefault(x, []).append((g, e))
        into.setdefault(x, []).append(g)
        ks = tests(P, g)
        if len(ks) == 1:
            k = next(iter(ks))
            want = LINKS[k] + "Network"
            rep.ob("kind", f"{c.name}: {k}", x.args[0].name == want, f"{c.name}: a {k} element becomes a {x.args[0].name}", e.loc, key=f"kind:{k}:network")

    for e in ups:
        for a in e.args:
            for x, g in F.trace(I, st, P, a):
                note(x, g | frozenset(e.guards), direct, e)
    for e in combines:
        for a in e.args:
            for L in vals(a):
                for x, g in F.trace(I, st, P, T("elem", L) if L.kind in ("list", "set") else L):
                    note(x, g | frozenset(e.guards), parts, e)
    # nodes
    for e in I.events:
        if e.kind == "new" and e.recv is not None and e.recv.kind == "new" and e.recv.args[0].is_subclass_of(nodebase):
            ks = tests(P, e.guards)
            if len(ks) == 1:
                k = next(iter(ks))
                rep.ob("kind", f"{c.name}: {k} node", e.recv.args[0].name == LINKS[k] + "NetworkNode", f"{c.name}: an arc of a {k} element becomes a {e.recv.args[0].name}",
                       e.loc, key=f"kind:{k}:node")
    where = f"{f.fullname}"
    loc = ups[-1].loc
    named = {n: set().union(*[tests(P, g) for x in got if x.args[0].name == n + "Network" for g, _ in got[x]]) for n in LINKS.values()}
    if sum(bool(v) for v in named.values()) >= 3:
        for k, n in LINKS.items():
            rep.ob("stored", f"{c.name}: {k} elements", k in named[n] or not any(x.args[0].name == n + "Network" for x in got),
                   f"{c.name}: no {k} element becomes a network, they are recognised by {', '.join(sorted(named[n])) or 'something else'}", loc, key=f"stored:{c.name}:{k}:elements")
    for k, n in LINKS.items():
        xs = [x for x in got if x.args[0].name == n + "Network"]
        rep.ob("stored", f"{c.name}: {k}", bool(xs), f"{c.name}: no {n}Network reaches the store", loc, key=f"stored:{c.name}:{n}")
        if n == "Definition" and xs:
            ph = {y.args[0] for x in xs for _, y in c07.acc(I, st, P, x, "is_physical") or [] if y.kind == "k"}
            rep.ob("stored", f"{c.name}: both definition networks", ph >= {True, False} or not ph,
                   f"{c.name}: only {'physical' if True in ph else 'logical'} definition networks reach the store", loc, key=f"stored:{c.name}:both")
    # nothing is filtered away on the way: a condition about the network on one way has its opposite on the other
    def about(gs):
        return {(P.R(cnd), b) for g in gs for cnd, b in g if any(y.kind == "new" and y.args[0].is_subclass_of(base) for y in subterms(P.R(cnd)))
                and not (P.R(cnd).kind == "op" and P.R(cnd).args[0] == "is" and NONE in P.R(cnd).args)}
    d, s = about([g for gs in direct.values() for g in gs]), about([g for gs in parts.values() for g in gs])
    lone = [(q, b) for q, b in (d | s) if (q, not b) not in (d | s) and "isinstance" not in show(q, 1) and "empty" not in show(q, 1)]
    rep.ob("all", f"{c.name}", not lone, f"{c.name}: a network is stored only if {', '.join(('' if b else 'not ') + show(q, 3)[:120] for q, b in lone[:2])}", loc, key=f"all:{c.name}")
    # combining
    for e in combines:
        for a in e.args:
            for L in vals(a):
                grouped(p, rep, P, c, I, st, e, L)
    source(rep, P, c, I, st, loc, got)


def grouped(p, rep, P, c, I, st, e, L):
    ds = [(i, en) for (i, n), es in st.heap.items() if n == "#c" for en in es if en[1] is L and en[0] is not None]
    if not ds:
        return
    keys = [(i, en[0]) for i, en in ds]
    typed = any(any(y.kind == "call" and y.args[0].split(".")[-1] in ("type",) for y in subterms(k)) or any(y.kind == "attr" and y.args[1] == "__class__" for y in subterms(k)) or
                "type(" in show(k, 2) for _, k in keys)
    rep.ob("apart", f"{c.name}: kind", typed, f"{c.name}: networks are combined by {', '.join(show(P.R(k), 3)[:80] for _, k in keys)}, which does not tell their kinds apart",
           e.loc, key=f"apart:{c.name}:kind")
    # role: either in the key, or the grouping starts anew for each role
    def role(k):
        return any((y.kind == "xa" and "role" in str(y.args[1].args[0])) or (y.kind == "call" and y.args[0].endswith("get_link_role")) for y in subterms(P.R(k)))
    outer = [en[0] for (i, n), es in st.heap.items() if n == "#c" and i not in {j for j, _ in keys} for en in es
             if en[0] is not None and en[1] is not None and hasattr(en[1], "kind") and en[1].kind == "list" and holds_network(p, I, st, en[1])]
    by_role = any(role(k) for _, k in keys) or (all(I.alloc_loops.get(i) for i, _ in keys) and any(role(k) for k in outer) and all(role(k) for k in outer))
    rep.ob("apart", f"{c.name}: role", by_role, f"{c.name}: networks of different roles are combined with each other", e.loc, key=f"apart:{c.name}:role")


def holds_network(p, I, st, L):
    base = p.cls("INetwork")
    return any(x.kind == "new" and x.args[0].is_subclass_of(base) for en in I.entries(st, L) if hasattr(en[1], "kind") for x in vals(en[1]))


def source(rep, P, c, I, st, loc, got):
    """the link elements the networks are built from"""
    els = set()
    for x, ges in got.items():
        for g, e in ges:
            for cnd, b in g:
                r = P.R(cnd)
                for y in subterms(r):
                    if y.kind == "tag" and tests(P, [(cnd, True)]):
                        els.add(y.args[0])
    for el in els:
        if el.kind != "elem" or el.args[0].kind != "call":
            continue
        cl = el.args[0]
        pats = [a.args[0] for a in list(cl.args[2]) + [v for _, v in cl.args[3]] if hasattr(a, "kind") and a.kind == "k" and isinstance(a.args[0], str)]
        if pats:
            ok = any("*" in s for s in pats) or all(any(k in s for s in pats) for k in LINKS)
            rep.ob("source", f"{c.name}: pattern", ok, f"{c.name}: extended links are looked for by {pats[0]!r}, which does not find all kinds", loc, key=f"source:{c.name}:pattern")
        b = cl.args[1] if cl.args[1] is not None else (cl.args[2][0] if cl.args[2] else None)
        while b is not None and b.kind == "root":
            b = b.args[0]
        if b is not None and b.kind in ("elem", "idx") and any(y.kind == "call" and y.args[0].endswith("get_all_etrees") for y in subterms(b)):
            rep.ob("source", f"{c.name}: documents", b.kind == "elem" and not any(y.kind == "slice" for y in subterms(b)), f"{c.name}: extended links are looked for in one document only", loc, key=f"source:{c.name}:documents")
        for x, ges in got.items():
            for g, e in ges:
                for cnd, bb in g:
                    r = P.R(cnd)
                    xs = [y for y in subterms(r) if y.kind == "xa" and y.args[0] is el]
                    if xs and not tests(P, [(cnd, True)]) and r.kind == "op" and r.args[0] in ("in", "eq", "startswith") or \
                            (xs and r.kind == "quant"):
                        rep.ob("source", f"{c.name}: role", False, f"{c.name}: an extended link is used only if {'' if bb else 'not '}{show(r, 3)[:100]}", e.loc, key=f"source:{c.name}:role")


def components(p, rep, P, c, f, I, st):
    made = [e for e in I.events if e.kind == "new" and e.name and e.name.split(".")[-1] == "Component"]
    if not made:
        raise AnalysisError(f"{c.name}.parse_components builds no component")
    for e in made:
        n = e.recv
        uri = [x for _, x in c07.acc(I, st, P, n, "get_URI") or []]
        for m, want in SLOTS.items():
            g0 = n.args[0].lookup(m)
            if g0 is None:
                raise AnalysisError(f"Component.{m} not found")
            fr = I.push_module_frame(g0.module)
            st.frames[fr.fid] = {}
            v = objs.call(I, st, n, m)
            seen = False
            for x, g in F.trace(I, st, P, v):
                if x.kind == "k" or (x.kind == "attr" and x.args[0] is n) or x.kind == "noret":
                    continue
                g = F.implied(g)
                calls = [y for y in subterms(x) if y.kind == "call" and y.args[0].split(".")[-1] == "get_by_linkrole"]
                if not calls:
                    continue
                seen = True
                key = f"component:{m}"
                where = f"{c.name}: Component.{m}"
                keys = {k for y in calls for k in vals(P.R(y.args[2][0]))} if calls[0].args[2] else set()
                rep.ob("component", f"{where} role", not keys or keys == set(uri),
                       f"{where} is taken from the networks of {', '.join(show(k, 3)[:80] for k in keys)}, not from those of the component's role", e.loc, key=key + ":role")
                is_ = {(y.args[0].name, b) for cnd, b in g if cnd.kind == "op" and cnd.args[0] == "isinstance" for y in subterms(cnd) if y.kind == "cls"}
                rep.ob("component", f"{where} kind", (want, True) in is_ or (not is_ and any(y.kind == "op" and "type" in show(y, 3) for cnd, b in g for y in subterms(cnd))),
                       f"{where} is {'a network that is ' + ' and '.join(sorted(('a ' if b else 'no ') + a for a, b in is_)) if is_ else 'any network of the role'} instead of a {want}",
                       e.loc, key=key + ":kind")
                if want == "DefinitionNetwork":
                    ph = {b for cnd, b in g for y in [P.R(cnd)] if y.kind == "call" and y.args[0].endswith("is_physical")}
                    rep.ob("component", f"{where} logical", ph == {False} or not ph and any("is_physical" in show(cnd, 4) for cnd, b in g),
                           f"{where} can be a physical network, one of those per arc role", e.loc, key=key + ":logical")
            if not seen:
                rep.ob("component", f"{c.name}: Component.{m}", False, f"{c.name}: no network ever becomes Component.{m}", e.loc, key=f"component:{m}:none")
