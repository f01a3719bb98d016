"""C26: an object answers with what it was created from."""
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..project import AnalysisError
from .. import objs

# class -> accessor -> constructor parameter it answers with
ANSWERS = {
        "Component": {"get_URI": "uri", "get_info": "info", "get_presentation_network": "presentation_network", "get_calculation_network":
                  "calculation_network", "get_definition_network": "definition_network"},
    "Fact": {"get_id": "id", "get_context": "context", "get_value_as_str": "value", "get_precision": "precision", "get_decimals": "decimals"},
    "Aspect": {"get_name": "name"},
    "ConceptCharacteristic": {"get_value": "concept"},
    "EntityCharacteristic": {"get_schema": "scheme"},
    "ExplicitDimensionCharacteristic": {"get_aspect": "aspect", "get_value": "member", "get_dimension": "dimension", "get_member": "member"},
    "TypedDimensionCharacteristic": {"get_aspect": "aspect", "get_value": "value", "get_dimension": "dimension"},
    "UnitCharacteristic": {"get_value": "name", "get_name": "name"},
        "ErrorInstance": {"get_severity": "severity", "get_area": "area", "get_numeric_code": "numeric_code", "get_hint": "hint",
                      "get_xbrl_error_code": "xbrl_error_code"},
    "AspectFormula": {"get_aspect": "aspect"},
    "DimensionFormula": {"get_dimension": "dimension"},
    "ExplicitDimensionFormula": {"get_member": "member", "get_dimension": "dimension"},
    "EntityIdentifierFormula": {"get_scheme": "scheme", "get_value": "value"},
    "PeriodDurationFormula": {"get_start_expression": "start_expression", "get_end_expression": "end_expression"},
    "PeriodInstantFormula": {"get_instant_expression": "instant_expression"},
    "ConceptNameFilter": {"get_label": "label", "get_id": "id"},
    "DimensionFilter": {"get_dimension": "dimension", "get_label": "label", "get_id": "id"},
    "ExplicitDimensionFilter": {"get_dimension": "dimension", "get_label": "label", "get_id": "id"},
    "ExplicitDimensionFilterMember": {"get_member": "member"},
    "TypedDimensionFilter": {"get_test_expression": "test", "get_dimension": "dimension", "get_label": "label", "get_id": "id"},
    "Filter": {"get_label": "label", "get_id": "id"},
    "ForeverFilter": {"get_label": "label", "get_id": "id"},
    "PeriodDateTimeFilter": {"get_date_expression": "date", "get_time_expression": "time", "get_type": "type", "get_label": "label", "get_id": "id"},
    "PeriodFilter": {"get_test_expression": "test_expression", "get_label": "label", "get_id": "id"},
    "XPathExpression": {"get_expression": "expression"},
    "CalculationNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "CalculationNetworkNode": {"get_report_element": "report_element", "get_weight": "weight", "get_order": "order", "get_arc_role": "arc_role",
                               "get_arc_name": "arc_name", "get_link_role": "link_role", "get_link_name": "link_name", "get_concept":
                               "report_element"},
    "DefinitionNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "DefinitionNetworkNode": {"get_report_element": "report_element", "get_order": "order", "get_arc_role": "arc_role", "get_arc_name":
                              "arc_name", "get_link_role": "link_role", "get_link_name": "link_name"},
    "FootnoteNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "FootnoteNetworkNode": {"get_report_element": "points_to", "get_resource": "points_to", "get_fact": "points_to", "get_order": "order",
                            "get_arc_role": "arc_role", "get_arc_name": "arc_name", "get_link_role": "link_role", "get_link_name": "link_name"},
    "INetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
    "LabelNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "LabelNetworkNode": {"get_report_element": "points_to", "get_resource": "points_to", "get_order": "order", "get_arc_role": "arc_role",
                         "get_arc_name": "arc_name", "get_link_role": "link_role", "get_link_name": "link_name"},
    "PresentationNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "PresentationNetworkNode": {"get_report_element": "report_element", "get_preferred_label_role": "preferred_label_role", "get_order": "order",
                                "get_link_role": "link_role", "get_link_name": "link_name", "get_arc_role": "arc_role", "get_arc_name": "arc_name"},
    "ReferenceNetwork": {"get_link_role": "link_role", "get_link_name": "link_name", "is_physical": "is_physical"},
        "ReferenceNetworkNode": {"get_report_element": "points_to", "get_resource": "points_to", "get_order": "order", "get_arc_role": "arc_role",
                             "get_arc_name": "arc_name", "get_link_role": "link_role", "get_link_name": "link_name"},
    "QName": {"get_URL": "uri", "get_prefix": "prefix", "get_local_name": "local_name"},
    "Abstract": {"get_name": "qname", "get_id": "id"},
        "Concept": {"get_name": "name", "get_id": "id", "get_period_type": "period_type", "get_data_type": "data_type", "get_balance_type":
                "balance_type", "is_nillable": "nillable"},
    "Dimension": {"get_name": "name", "get_id": "id"},
    "Hypercube": {"get_name": "name", "get_id": "id"},
    "LineItems": {"get_name": "name", "get_id": "id"},
    "Member": {"get_name": "name", "get_id": "id"},
        "BrelFootnote": {"get_id": "id", "get_role": "role", "get_label": "label", "get_title": "title", "get_content": "content", "get_language":
                     "language"},
    "BrelLabel": {"get_language": "language", "get_label_role": "label_role", "get_label": "label", "get_role": "label_role", "get_content": "text"},
    "BrelReference": {"get_role": "role", "get_label": "label"},
    "AspectNode": {"get_participating_aspect": "participating_aspect", "get_include_unreported_value": "include_unreported_value"},
    "RuleSet": {"get_tag": "tag"},
    "Table": {"get_linkrole": "linkrole"},
}
# accessor -> parameter, where the answer is derived from the parameter (a copy, an element, a rendering)
DERIVED = {
    "EntityCharacteristic": {"get_value": {"scheme", "entity_id"}},
    "UnitCharacteristic": {"get_numerators": {"numerators"}, "get_denominators": {"denominators"}},
    "ErrorInstance": {"get_message": {"message"}},
    "Aspect": {"get_labels": {"labels"}},
    "Abstract": {"get_labels": {"labels"}}, "Concept": {"get_labels": {"labels"}}, "Dimension": {"get_labels": {"labels"}},
    "Hypercube": {"get_labels": {"labels"}}, "LineItems": {"get_labels": {"labels"}}, "Member": {"get_labels": {"labels"}},
    "CalculationNetwork": {"get_roots": {"roots"}}, "DefinitionNetwork": {"get_roots": {"roots"}}, "FootnoteNetwork": {"get_roots": {"roots"}},
    "LabelNetwork": {"get_roots": {"roots"}}, "PresentationNetwork": {"get_roots": {"roots"}}, "ReferenceNetwork": {"get_roots": {"roots"}},
    "CalculationNetworkNode": {"get_children": {"children"}}, "DefinitionNetworkNode": {"get_children": {"children"}},
    "FootnoteNetworkNode": {"get_children": {"children"}}, "PresentationNetworkNode": {"get_children": {"children"}},
    "ReferenceNetworkNode": {"get_children": {"children"}},
    "BrelReference": {"get_content": {"content"}},
    "Component": {"has_presentation_network": {"presentation_network"}, "has_calculation_network": {"calculation_network"},
                  "has_definition_network": {"definition_network"},
                  "get_networks": {"presentation_network", "calculation_network", "definition_network"}},
    "Fact": {"get_value_as_str": {"value"}, "get_concept": {"context"}, "get_unit": {"context"}, "get_period": {"context"}, "get_aspects": {"context"}},
    "QName": {"clark_notation": {"uri", "local_name"}, "prefix_local_name_notation": {"prefix", "local_name"}},
}
# class -> the aspect it describes; fact accessor -> aspect asked for
ASPECT_OF = {"ConceptCharacteristic": "CONCEPT", "EntityCharacteristic": "ENTITY", "UnitCharacteristic": "UNIT", "PeriodCharacteristic": "PERIOD"}
FACT_ASPECT = {"get_concept": "CONCEPT", "get_unit": "UNIT", "get_period": "PERIOD", "get_entity": "ENTITY"}
# exported descriptions: key -> constructor parameters its entry is made of
EXPORTS = {
    "Component": {"network-identifier": {"uri"}, "info": {"info"}, "presentation-network": {"presentation_network"},
                  "calculation-network": {"calculation_network"}, "definition-network": {"definition_network"}},
    "Concept": {"name": {"name"}, "label": {"labels"}, "period-type": {"period_type"}, "balance-type": {"balance_type"}, "nillable": {"nillable"},
                "data-type": {"data_type"}},
    "Abstract": {"name": {"qname"}, "label": {"labels"}}, "Dimension": {"name": {"name"}, "label": {"labels"}},
    "Hypercube": {"name": {"name"}, "label": {"labels"}}, "LineItems": {"name": {"name"}, "label": {"labels"}},
    "Member": {"name": {"name"}, "label": {"labels"}},
    "BrelLabel": {"text": {"text"}, "language": {"language"}, "label_role": {"label_role"}},
    "BrelReference": {"role": {"role"}, "label": {"label"}, "content": {"content"}},
    "Fact": {"id": {"id"}, "value": {"value"}},
}
for _n in ("CalculationNetwork", "DefinitionNetwork", "FootnoteNetwork", "LabelNetwork", "PresentationNetwork", "ReferenceNetwork"):
    EXPORTS[_n] = {"link_role": {"link_role"}, "link_name": {"link_name"}, "is_physical": {"is_physical"}}
for _n in ("CalculationNetworkNode", "DefinitionNetworkNode", "FootnoteNetworkNode", "LabelNetworkNode", "PresentationNetworkNode", "ReferenceNetworkNode"):
    EXPORTS[_n] = {"arc_role": {"arc_role"}, "arc_name": {"arc_name"}, "link_role": {"link_role"}, "link_name": {"link_name"}, "order": {"order"}}


def contents(I, st, t, guards=False):
    """subterms of t including what containers in it hold"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        for y in subterms(x, guards=guards):
            if y.id not in seen:
                todo.append(y)
        if x.kind in ("list", "set", "dict"):
            for k, v, g, lp in I.entries(st, x):
                todo.append(v)
                if k is not None:
                    todo.append(k)
    return out


def params_in(I, st, t, syms, guards=False):
    inv = {s.id: n for n, s in syms.items()}
    return {inv[x.id] for x in contents(I, st, t, guards) if x.id in inv}


def key_name(k):
    """canonical name of a key of an exported description"""
    for x in subterms(k):
        if x.kind == "k" and isinstance(x.args[0], str) and x.args[0]:
            return x.args[0].split(":")[-1]
    return None


def field_name(n):
    if "__" in n and n.startswith("_") and not n.startswith("__"):
        n = n.split("__", 1)[1]
    return n.lstrip("_")


def typed(p, rep):
    c, q = p.cls("Dimension"), p.cls("QName")
    need = ("is_explicit", "make_typed", "get_type")
    if c is None or q is None or any(c.lookup(m) is None for m in need):
        return
    for m in need:
        rep.saw("accessors", c.lookup(m).fullname)
    I = Interp(p)
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    types = [objs.construct(I, st, q, tag=f"type{i}")[0] for i in (1, 2)]
    if o.kind != "new" or any(t.kind != "new" for t in types):
        return

    def answers(m):
        return [x for x in vals(objs.call(I, st, o, m)) if x.kind != "noret"]

    def explicit(when, want):
        got = answers("is_explicit")
        if got and all(x.kind == "k" for x in got):
            rep.ob("typed", f"is_explicit {when}", all(x.args[0] is want for x in got), f"Dimension.is_explicit() answers {got[0].args[0]} {when}",
                   c.lookup("is_explicit").loc(), f"typed:is_explicit {when}")

    explicit("for a new dimension", True)
    got = answers("get_type")
    rep.ob("typed", "get_type of a new dimension", not [x for x in got if x is not NONE] , f"Dimension.get_type() answers {show(got[0], 3)[:60] if got else ''} for an explicit dimension",
           c.lookup("get_type").loc(), "typed:new")
    for i, t in enumerate(types):
        when = ("after it was made typed", "after it was made typed once more")[i]
        objs.call(I, st, o, "make_typed", [t])
        explicit(when, False)
        got = answers("get_type")
        if got:
            rep.ob("typed", f"get_type {when}", t in got,
                   f"Dimension.get_type() answers {show(got[0], 3)[:60]} {when}", c.lookup("get_type").loc(), f"typed:get_type {when}")


def check(p, rep, tier):
    rep.rule("answer", "Each accessor returns the very value its object was constructed with for that property.", floor=60)
    rep.rule("derived", "Accessors that return a copy, an element or a rendering are made of their own constructor parameter and no other one.", floor=20)
    rep.rule("field", "A field called like a constructor parameter holds that parameter, not another one.", floor=100)
    rep.rule("aspect", "A characteristic answers with its own aspect, and a fact asks its context for the aspect it is asked for.", floor=6)
    rep.rule("export", "Each entry of an exported description is made of the value its name says, with or without translated captions.", floor=30)
    rep.rule("period", "An instant answers with its date; a duration answers with its start and end date in their own places.", floor=3)
    rep.rule("typed", "A dimension is explicit until it is made typed; from then on it is typed and has the type it was last given.", floor=0)
    typed(p, rep)
    by_name = {}
    for c in p.classes.values():
        by_name.setdefault(c.name, c)
    done = 0
    for c in sorted(p.classes.values(), key=lambda c: c.fullname):
        if c.is_enum or any(str(b).split(".")[-1] in ("TypedDict", "NamedTuple") for b in c.external_bases):
            continue
        if c.lookup("__init__") is None and not c.is_dataclass:
            continue
        spec = {**ANSWERS.get(c.name, {})}
        I = Interp(p, opaque={"select_main_label"} if False else ())
        st = objs.begin(I, c.module)
        o, syms = objs.construct(I, st, c)
        if not syms or o.kind != "new":
            continue
        done += 1
        rep.saw("classes constructed symbolically", c.fullname)
        loc = (c.lookup("__init__") or c).loc() if c.lookup("__init__") else f"{c.module.relpath}:{c.node.lineno}"
        for (oid, fname), v in list(st.heap.items()):
            if oid != o.id or not isinstance(v, type(o)) or fname.startswith("#"):
                continue
            q = field_name(fname)
            if q in syms:
                have = params_in(I, st, v, syms)
                rep.ob("field", f"{c.name}.{q}", not have or q in have,
                       f"{c.name}: the field {q} is made of the parameter{'s' if len(have) > 1 else ''} {', '.join(sorted(have))} instead of {q}", loc,
                       key=f"field:{c.fullname}.{q}")
        for m, prm in spec.items():
            f = c.lookup(m)
            if f is None or f.is_abstract or prm not in syms:
                continue
            v = objs.call(I, st, o, m)
            xs = [x for x in vals(v) if x.kind != "noret"]
            ok = bool(xs) and all(x is syms[prm] for x in xs)
            rep.ob("answer", f"{c.name}.{m}()", ok, f"{c.name}.{m}() returns {' or '.join(show(x, 4)[:90] for x in xs) or 'nothing'} "
                   f"instead of the {prm} it was created with", f.loc(), key=f"answer:{c.name}.{m}")
        for m, prms in DERIVED.get(c.name, {}).items():
            f = c.lookup(m)
            if f is None or f.is_abstract or not prms <= set(syms):
                continue
            v = objs.call(I, st, o, m)
            have = params_in(I, st, v, syms)
            rep.ob("derived", f"{c.name}.{m}()", have == prms, f"{c.name}.{m}() is made of {sorted(have) or 'no parameter'}, but it must be made of {sorted(prms)}",
                   f.loc(), key=f"derived:{c.name}.{m}")
        if c.name in ASPECT_OF:
            v = objs.call(I, st, o, "get_aspect")
            aspect(rep, c, "get_aspect", v, ASPECT_OF[c.name])
        if c.name == "Fact":
            for m, a in FACT_ASPECT.items():
                f = c.lookup(m)
                if f is None:
                    continue
                v = objs.call(I, st, o, m)
                aspect(rep, c, m, v, a)
        if c.name in EXPORTS:
            exports(p, rep, c)
    if done < 30:
        raise AnalysisError(f"only {done} classes could be constructed")
    period(p, rep)


def aspect(rep, c, m, v, want):
    got = {x.args[1] for x in subterms(v) if x.kind == "cv" and str(x.args[0]).split(".")[-1] == "Aspect"} | \
          {x.args[1] for x in subterms(v) if x.kind in ("cv", "enum", "gv") and x.args[1] in ("CONCEPT", "UNIT", "PERIOD", "ENTITY")}
    rep.ob("aspect", f"{c.name}.{m}()", got == {want}, f"{c.name}.{m}() refers to {sorted(got) or 'no aspect'} instead of {want}", c.lookup(m).loc(),
           key=f"aspect:{c.name}.{m}")


def exports(p, rep, c):
    f = c.lookup("convert_to_dict")
    if f is None:
        return
    want = EXPORTS[c.name]
    names = [n for n, k, a, d in f.params][1:]
    variants = [("plain", [])]
    if "translation_service" in names:
        variants.append(("captions", [("languages", None), ("translation_service", None)]))
    for vn, kws in variants:
        I = Interp(p, opaque={"get", "get_from_labels"})
        st = objs.begin(I, c.module)
        o, syms = objs.construct(I, st, c)
        kw = []
        for n, _ in kws:
            s = T("sym", "call", "convert_to_dict", n)
            kw.append((n, s))
            I.term_by_id[s.id] = s
            if n == "translation_service":
                I.types[s.id] = {p.cls("TranslationService").fullname}
        if kw:
            I.guards.extend([(s, True) for _, s in kw])
        v = objs.call(I, st, o, "convert_to_dict", (), kw)
        entries = []
        for d in vals(v):
            for k, val, g, lp in I.entries(st, d):
                if k is not None:
                    entries.append((key_name(k), val, g, k))
        found = {}
        captions = [(n, s) for n, s in kw]
        for k, val, g, kt in entries:
            is_cap = kt.kind != "k"
            if vn == "captions" and not is_cap:
                continue
            if vn == "plain" and is_cap:
                continue
            found.setdefault(k, []).append(val)
        for k, prms in want.items():
            if not prms <= set(syms):
                continue
            vs = found.get(k)
            if vn == "captions" and not found:
                continue
            have = set()
            for x in vs or []:
                have |= params_in(I, st, x, syms, guards=True)
            want_ok = have == prms or (k == "label" and prms <= have <= prms | {"name", "qname"})
            if k == "id":
                want_ok = have == prms
            rep.ob("export", f"{c.name}[{k}] ({vn})", bool(vs) and want_ok,
                   f"the exported description of a {c.name} {'has no entry ' + repr(k) if not vs else f'makes its entry {k!r} of {sorted(have)} instead of {sorted(prms)}'}",
                   f.loc(), key=f"export:{c.name}:{k}:{vn}")


def period(p, rep):
    c = p.cls("PeriodCharacteristic")
    for ctor, accs in (("_instant", {"get_instant_period": 0}), ("_duration", {"get_start_period": 0, "get_end_period": 1})):
        f = c.lookup(ctor)
        if f is None:
            raise AnalysisError(f"PeriodCharacteristic.{ctor} not found")
        I = Interp(p)
        v, st = I.run(f)
        ps = [n for n, k, a, d in f.params][(0 if f.is_static else 1):]
        syms = {n: T("p", f.fullname, n) for n in ps}
        objs_ = [x for x in vals(v) if x.kind == "new"]
        if not objs_:
            raise AnalysisError(f"PeriodCharacteristic.{ctor}: result not recognised")
        fr = I.push_module_frame(c.module)
        st.frames[fr.fid] = {}
        for m, i in accs.items():
            r = objs.call(I, st, objs_[0], m)
            have = params_in(I, st, r, syms)
            rep.ob("period", f"{ctor}.{m}", have == {ps[i]}, f"{m}() of a period made by {ctor} is made of {sorted(have)} instead of {ps[i]}", f.loc(),
                   key=f"period:{ctor}:{m}")
        r = objs.call(I, st, objs_[0], "is_instant")
        ok = all(x.kind == "k" and x.args[0] is (ctor == "_instant") for x in vals(r))
        rep.ob("period", f"{ctor}.is_instant", ok, f"is_instant() of a period made by {ctor} is {show(r)}", f.loc(), key=f"period:{ctor}:is_instant")
