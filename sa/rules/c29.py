"""C29: labels, references and footnotes belong to the element their arc starts from."""
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..prov import Prov, READERS
from ..project import AnalysisError
from .. import objs

LANG = "get_elem_lang_recursive"
NODE = {"get_resource", "get_report_element", "get_roots", "get_children", "points_to", "get_fact", "is_a"}
LABEL_ACC = {"get_language", "get_label_role", "get_role", "get_label", "get_content", "convert_to_dict", "get_title", "__str__"}
CONTENT = {"itertext", "text"}


def frame(I, st, c):
    fr = I.push_module_frame(c.module)
    st.frames[fr.fid] = {}


def accessor(P, I, st, n, m):
    f = n.args[0].lookup(m)
    if f is None or f.is_abstract:
        return None
    frame(I, st, n.args[0])
    v = P.R(objs.call(I, st, n, m))
    return [x for _, x in alts(v) if not any(y.kind == "attr" and y.args[0] is n for y in subterms(x)) and x.kind != "noret"]


def sh(xs):
    return " or ".join(sorted({show(x, 4)[:110] for x in xs})) or "nothing"


def the(p, name, need=True):
    fs = [f for f in p.all_functions() if f.name == name and f.cls is None]
    if len(fs) != 1:
        if need:
            raise AnalysisError(f"{len(fs)} functions named {name}")
        return None
    return fs[0]


def check(p, rep, tier):
    rep.rule("resource", "A label, footnote or reference built from a resource element carries the text, the language, the role and the label of that very element.", floor=8)
    rep.rule("language", "The language of an element is its own xml:lang, otherwise that of its nearest ancestor with one.", floor=1)
    rep.rule("attach", "A label network adds every label below a root to the report element of that very root.", floor=2)
    rep.rule("applied", "Every network that is created for a link is also applied to the report elements.", floor=1)
    rep.rule("keep", "Each kind of report element keeps every label it is given and answers with all of them.", floor=6)
    rep.rule("own-list", "Each report element gets a list of labels of its own.", floor=1)
    rep.rule("ask", "Questions about a label's role or language look at the role or the language of the labels and compare it with the one asked for.", floor=5)
    rep.rule("table", "The exported table of labels lists each label next to the report element that has it.", floor=1)
    P = Prov()
    resource(p, rep, P)
    language(p, rep, P)
    attach(p, rep, P)
    applied(p, rep)
    keep(p, rep, P)
    own_list(p, rep, P)
    ask(p, rep, P)
    table(p, rep, P)


# ---------------------------------------------------------------- resources
def doc_leaves(t, el):
    """what a value takes from documents"""
    out = set()
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.kind in ("xa", "text", "tail", "tag"):
            out.add(x)
            return
        if x.kind == "call":
            n = str(x.args[0]).split(".")[-1]
            if n == LANG:
                out.add(x)
                return
            if n in CONTENT and x.args[1] is not None:
                out.add(T("content", x.args[1]))
                return
            if n.startswith("get_") and x.args[1] is None and any(a is el for a in x.args[2]):
                out.add(x)
                return
        for y in children_of(x):
            go(y)
    go(t)
    return out


def children_of(x):
    for a in x.args:
        if hasattr(a, "kind"):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if hasattr(b, "kind"):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if hasattr(c, "kind"):
                            yield c


def resource(p, rep, P):
    f = the(p, "parse_xml_resource")
    el = T("p", f.fullname, f.params[0][0])
    I = Interp(p, opaque=READERS | {LANG})
    v, st = I.run(f)
    news = sorted({n for n in vals(v) if n.kind == "new"}, key=lambda n: n.args[0].name)
    if len(news) < 3:
        raise AnalysisError("parse_xml_resource builds fewer than three kinds of resource")
    for n in news:
        c = n.args[0].name
        rep.saw("resources", c)

        def one(m, what, ok):
            xs = accessor(P, I, st, n, m)
            if xs is None:
                return
            rep.ob("resource", f"{c}.{m}", bool(xs) and all(ok(x) for x in xs),
                   f"parse_xml_resource: {m}() of the {c} is {sh(xs)} instead of the {what} of its element", f.loc(), key=f"resource:{c}.{m}")

        def content(x):
            ls = doc_leaves(P.R(x), el)
            if x.kind == "dict":
                ls = set()
                for k, val, g, lp in I.entries(st, x):
                    ls |= doc_leaves(P.R(val), el)
            if not ls:
                return False
            return all(l.kind in ("text", "content") and own(l.args[0], el) for l in ls)

        def attr(name):
            return lambda x: x is T("xa", el, K(name)) or x.kind == "k"

        def lang(x):
            ls = doc_leaves(x, el)
            return bool(ls) and all((l.kind == "call" and l.args[2] and l.args[2][0] is el) or l is T("xa", el, K("xml:lang")) for l in ls)
        one("get_content", "content", content)
        one("get_label", "xlink:label", attr("xlink:label"))
        one("get_role", "xlink:role", attr("xlink:role"))
        one("get_label_role", "xlink:role", attr("xlink:role"))
        one("get_language", "language", lang)
        xs = accessor(P, I, st, n, "get_content") or []
        # the content of all descendants, not just the text before the first child
        if c != "BrelReference":
            whole = any(l.kind == "content" for x in xs for l in doc_leaves(x, el)) or any("tostring" in show(x, 6) for x in xs)
            rep.ob("resource", f"{c} whole content", whole, f"parse_xml_resource: the content of the {c} is {sh(xs)}, which leaves out the text of nested markup",
                   f.loc(), key=f"resource:{c}.whole")


def own(x, el):
    """el or something inside it"""
    while True:
        if x is el:
            return True
        if x.kind in ("each", "elem", "idx", "iter"):
            x = x.args[0]
        elif x.kind == "call" and x.args[1] is not None:
            x = x.args[1]
        elif x.kind == "call" and x.args[2]:
            x = x.args[2][0]
        else:
            return False


def language(p, rep, P):
    f = the(p, LANG, need=False)
    if f is None:
        rep.ob("language", "none", True)
        return
    el = T("p", f.fullname, f.params[0][0])
    I = Interp(p, opaque=READERS)
    v, st = I.run(f)
    bad, own_seen, up = [], False, False
    for g, x in alts(P.R(v)):
        if x is NONE or x.kind == "noret":
            continue
        if x.kind == "xa" and x.args[1] is K("xml:lang"):
            if x.args[0] is el:
                own_seen = True
            elif "getparent" not in show(x, 9) and "iterancestors" not in show(x, 9) and "ancestor" not in show(x, 9):
                bad.append(x)
            else:
                up = True
            continue
        if "getparent" in show(x, 9) or "ancestor" in show(x, 9):
            up = True
            continue
        bad.append(x)
    rep.ob("language", LANG, not bad and own_seen, f"{LANG} answers {sh(bad) if bad else 'without looking at the own xml:lang of the element'}", f.loc(),
           key=f"language:{LANG}")
    # the own attribute wins: no ancestor is asked where it is present
    xl = T("xa", el, K("xml:lang"))
    absent = T("op", "is", xl, NONE)
    late = [x for g, x in alts(P.R(v)) if x.kind not in ("k", "noret") and x is not xl and (absent, False) in g]
    late += [c for g, x in alts(P.R(v)) if x is xl for c, pol in g if not any(y is xl or y is el for y in vals_in(c)) and any(w in show(c, 9) for w in ("getparent", "ancestor"))]
    rep.ob("language", f"{LANG} nearest first", not late, f"{LANG} answers {sh(late)} although the element has an xml:lang of its own", f.loc(),
           key=f"language:{LANG}:nearest")


def vals_in(c):
    """what the condition is about: the element tested, or its attribute"""
    for x in subterms(c, guards=False):
        if x.kind == "phi":
            yield from vals(x)
        elif x.kind == "xa":
            yield x
            yield from vals(x.args[0])


# ---------------------------------------------------------------- attaching
def attach(p, rep, P):
    c = p.cls("LabelNetworkFactory")
    f = c.lookup("update_report_elements")
    if f is None or f.is_abstract:
        raise AnalysisError("LabelNetworkFactory.update_report_elements not found")
    net = next((T("p", f.fullname, n) for n, k, a, d in f.params[1:] if "network" in n and "repos" not in n), T("p", f.fullname, f.params[-1][0]))
    I = Interp(p, opaque=READERS | NODE | {"_add_label"})
    I.run(f)
    evs = [e for e in I.events if e.kind == "call" and str(e.name).split(".")[-1] == "_add_label"]
    where = c.name + "." + f.name
    if not evs:
        rep.ob("attach", where, False, f"{where} adds no label to any report element", f.loc(), key="attach:none")
        return
    for e in evs:
        recv = P.R(e.recv)
        arg = P.R(e.arg(0))
        root = base(recv, "get_report_element")
        child = base(arg, "get_resource")
        ok = root is not None and child is not None and is_root(root, net) and is_child(child, root)
        rep.ob("attach", where, ok, f"{where} gives {show(arg, 7)[:140]} to {show(recv, 7)[:140]}, which is not the report element of the root it is below",
               e.loc, key="attach:other")
        odd = []
        for g, pol in e.guards:
            for x in conj(P.R(g), pol):
                if not kind_test(*x):
                    odd.append(x)
        rep.ob("attach", where + " all", not odd, f"{where} leaves out labels: they are only added if " + ", ".join(f"{show(x, 5)[:120]} is {pol}" for x, pol in odd),
               e.loc, key="attach:skip")
    rep.ob("attach", where + " walk", not walk_cut(f), f"{where} ends its walk over the labels early ({walk_cut(f)})", f.loc(), key="attach:cut")


def conj(g, pol):
    if g.kind == "op" and g.args[0] == "not":
        yield from conj(g.args[1], not pol)
    elif g.kind == "op" and ((g.args[0] == "and" and pol) or (g.args[0] == "or" and not pol)):
        for x in g.args[1:]:
            yield from conj(x, pol)
    else:
        yield g, pol


def kind_test(x, pol):
    """a test that every label or root passes, or that ends in an error"""
    if x.kind == "op" and x.args[0] in ("isinstance", "eq", "ne", "is", "isnot", "in"):
        s = show(x, 12)
        if x.args[0] == "isinstance":
            return pol
        if x.args[0] in ("is", "isnot"):
            return any(y is NONE for y in x.args[1:])
        return "points_to()" in s or "is_a()" in s
    if x.kind == "op" and x.args[0] == "bool":
        return kind_test(x.args[1], pol)
    s = show(x, 4)
    return x.kind == "call" and s.endswith(("get_roots()", "get_children()", "get_resource()")) and pol


def base(t, m):
    return t.args[1] if t.kind == "call" and str(t.args[0]).split(".")[-1] == m else None


def each_of(t, m):
    """the object whose accessor m yields the collection t is an element of"""
    if t.kind in ("each", "elem"):
        c = t.args[0]
        while c.kind == "call" and str(c.args[0]).split(".")[-1] in ("list", "tuple", "iter", "sorted", "reversed", "copy") and (c.args[2] or c.args[1] is not None):
            c = c.args[2][0] if c.args[2] else c.args[1]
        return base(c, m)
    return None


def is_root(t, net):
    return each_of(t, "get_roots") is net


def is_child(t, root):
    return each_of(t, "get_children") is root


def walk_cut(f):
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            for m in ast.walk(n):
                if isinstance(m, ast.Break):
                    return "break"
                if isinstance(m, ast.Return):
                    return "return inside the loop"
    return ""


def applied(p, rep):
    """every create_network(...) result is handed to update_report_elements"""
    from ..vf import Interp
    f = the(p, "parse_xml_link")
    I = Interp(p, opaque=READERS | {"create_network", "update_report_elements", "create_node", "get_object_from_reference", "_add_child"}, max_events=400000)
    v, st = I.run(f)
    made = [e for e in I.events if e.kind == "call" and str(e.name).split(".")[-1] == "create_network"]
    upd = [e for e in I.events if e.kind == "call" and str(e.name).split(".")[-1] == "update_report_elements"]
    if not made:
        raise AnalysisError("parse_xml_link creates no network the analysis can see")
    for e in made:
        # an application of that network under no more conditions and in no fewer loops
        ok = False
        for u in upd:
            args = list(u.args) + [a for _, a in u.kwargs]
            direct = any(e.result is not None and any(y is e.result for y in subterms(a)) for a in args if hasattr(a, "kind"))
            listed = any(y is e.result for a in args if hasattr(a, "kind") for z in vals(a) if z.kind in ("each", "elem", "idx") for y in I_vals(I, st, z))
            if listed or direct and u.loops[:len(e.loops)] == e.loops:
                extra = [g for g in u.guards if g not in e.guards]
                extra = [g for g in extra if not (g[0].kind == "op" and g[0].args[0] == "is" and NONE in g[0].args[1:])]
                if not extra:
                    ok = True
        rep.ob("applied", f"network at {e.loc}", ok, f"parse_xml_link: the network created here is not (always) applied to the report elements, "
               "so labels in it never reach their elements", e.loc, key=f"applied:{e.func.name}:{made.index(e)}")


# ---------------------------------------------------------------- keeping
def keep(p, rep, P):
    for c in sorted(objs.concrete_subclasses(p, "IReportElement"), key=lambda c: c.name):
        add, get = c.lookup("_add_label"), c.lookup("get_labels")
        if add is None or get is None or add.is_abstract or get.is_abstract:
            raise AnalysisError(f"{c.name}._add_label / get_labels not found")
        rep.saw("report element kinds", c.name)
        I = Interp(p)
        st = objs.begin(I, c.module)
        from ..vf import State
        old = T("sym", "label", "old")
        lst = I.alloc("list", objs.node())
        I.put(st, lst, None, old)
        initp = [n for n, k, a, d in (c.lookup("__init__").params if c.lookup("__init__") else [])]
        if "labels" not in initp:
            rep.ob("keep", c.name, True)
            continue
        o, syms = objs.construct(I, st, c, overrides={"labels": lst})
        new = T("sym", "label", "new")
        objs.call(I, st, o, "_add_label", [new])
        frame(I, st, c)
        v = P.R(objs.call(I, st, o, "get_labels"))
        got = {}
        for g, x in alts(v):
            if x.kind in ("list", "set", "tuple"):
                for k, val, eg, lp in I.entries(st, x):
                    for gg, y in alts(P.R(val)):
                        got.setdefault(y, []).append(eg | gg)
            elif x.kind not in ("attr", "noret", "k"):
                got.setdefault(x, []).append(frozenset())

        def there(l):
            hits = got.get(l, []) + [g for y, gs in got.items() if y is not l and y.kind in ("each", "elem") and any(z is l for z in I_vals(I, st, y)) for g in gs]
            return hits
        hn, ho = there(new), there(old)
        cond = [x for g in hn for x in g if not identity_test(P, x, new)] if hn and all(any(not identity_test(P, x, new) for x in g) for g in hn) else []
        rep.ob("keep", f"{c.name}: new", bool(hn) and not cond, f"{c.name}: a label given to _add_label is " + (
            "not among the labels get_labels() answers" if not hn else "only kept if " + ", ".join(sorted({f"{show(P.R(x), 5)[:100]} is {pol}" for x, pol in cond}))),
            add.loc(), key=f"keep:{c.name}:new")
        rep.ob("keep", f"{c.name}: old", bool(ho), f"{c.name}: after _add_label, get_labels() no longer answers the earlier labels", add.loc(), key=f"keep:{c.name}:old")


def I_vals(I, st, y):
    out = []
    for x in vals(y.args[0]) if hasattr(y.args[0], "kind") else []:
        if x.kind in ("list", "set", "tuple"):
            for k, val, eg, lp in I.entries(st, x):
                out += vals(val)
    return out


def identity_test(P, gp, new):
    """'not already in the list': the same label object twice adds nothing"""
    g, pol = gp
    g = P.R(g)
    if g.kind == "op" and g.args[0] == "not":
        g, pol = g.args[1], not pol
    if g.kind == "op" and g.args[0] in ("in", "notin"):
        return g.args[1] is new
    if g.kind == "op" and g.args[0] in ("isinstance", "is", "isnot") and any(y is new for y in subterms(g)):
        return True
    if g.kind == "op" and g.args[0] == "quant" or g.kind == "quant":
        s = [y for y in subterms(g) if y.kind == "op" and y.args[0] in ("is", "eq") and any(z is new for z in y.args[1:])]
        return bool(s)
    return False


def own_list(p, rep, P):
    """the list of labels given to a report element is created for it"""
    f = the(p, "parse_report_elements_xml")
    reported = {c.fullname for c in objs.concrete_subclasses(p, "IReportElement")}
    I = Interp(p, opaque=READERS | {"upsert", "has_qname", "get_all_etrees", "make_typed", "get_etree", "has_etree"})
    I.run(f)
    seen = 0
    for e in I.events:
        if e.kind != "new" and e.kind != "construct":
            continue
        c = e.recv.args[0] if e.recv is not None and e.recv.kind == "new" else None
        if c is None or c.fullname not in reported:
            continue
        init = c.lookup("__init__")
        names = [n for n, k, a, d in init.params[1:]]
        v = None
        for i, n in enumerate(names):
            if n == "labels":
                v = e.arg(i, n)
        if v is None:
            continue
        seen += 1
        for x in vals(v):
            if x.kind != "list":
                continue
            loops = I.alloc_loops.get(x.id, ())
            rep.ob("own-list", c.name, len(loops) >= len(e.loops) or tuple(loops) == tuple(e.loops),
                   f"the {c.name} objects built in a loop all get the same list of labels, so a label given to one shows up at the others", e.loc,
                   key=f"own-list:{c.name}")
    if not seen:
        raise AnalysisError("no construction of a report element seen")


# ---------------------------------------------------------------- asking
def label_reads(t, I=None, st=None):
    out = set()
    ts = set(subterms(t, guards=True))
    if I is not None:
        for x in list(ts):
            if x.kind in ("list", "set", "tuple", "dict"):
                for k, val, eg, lp in I.entries(st, x):
                    ts |= set(subterms(val, guards=True))
    for x in ts:
        if x.kind == "call" and x.args[1] is not None:
            n = str(x.args[0]).split(".")
            if n[-1] in LABEL_ACC and (len(n) < 2 or "Label" in n[-2] or "Resource" in n[-2]):
                out.add(n[-1])
    return out


ROLE = {"get_role", "get_label_role"}


def ask(p, rep, P):
    for f in sorted(p.all_functions(), key=lambda f: f.fullname):
        want = {"has_label_with_role": ROLE, "has_label_with_language": {"get_language"}}.get(f.name)
        if want is None or f.cls is None or f.is_abstract:
            continue
        I = Interp(p, opaque=READERS | LABEL_ACC | {"get_labels", "languages_match"})
        v, st = I.run(f)
        par = T("p", f.fullname, f.params[1][0])
        r = P.R(v)
        got = set()
        usespar = False
        pos = None
        for g, x in alts(r):
            for t in [x] + [c for c, _ in g]:
                got |= label_reads(P.R(t), I, st)
                usespar |= any(y is par for y in subterms(t, guards=True))
        bad = quantified_wrongly(r)
        kind = "role" if want is ROLE else "language"
        rep.ob("ask", f.qualname, bool(got) and got <= want and usespar and not bad,
               f"{f.qualname}: " + (bad or (f"looks at {', '.join(sorted(got)) or 'nothing'} of the labels instead of their {kind}" if not (got and got <= want)
                                            else f"does not compare with the {kind} asked for")), f.loc(), key=f"ask:{f.qualname}")
    c = p.cls("TranslationService")
    f = c.lookup("get_label_with_language")
    if f is not None:
        I = Interp(p, opaque=READERS | LABEL_ACC)
        v, st = I.run(f)
        ps = [n for n, k, a, d in f.params[1:]]
        labels = T("p", f.fullname, ps[0])
        lang = T("p", f.fullname, next((n for n in ps if "lang" in n), ps[1]))
        n = 0
        for g, x in alts(P.R(v)):
            if x.kind == "k" or x.kind == "p" or x.kind == "noret":
                continue
            n += 1
            from_labels = any(y is labels for y in subterms(x))
            ok = False
            for cnd, pol in g:
                ls = label_reads(cnd)
                if ls == {"get_language"} and any(y is lang for y in subterms(cnd, guards=True)):
                    ok = ok or positive(cnd, pol)
            if not g or not any(label_reads(cnd) for cnd, _ in g):
                ok = ok or {"get_language"} == label_reads(x)
            rep.ob("ask", "get_label_with_language", from_labels and ok,
                   f"TranslationService.get_label_with_language answers {show(x, 4)[:100]}, a label whose language was not found to match the one asked for",
                   f.loc(), key="ask:get_label_with_language")
    f = c.lookup("languages_match")
    if f is not None and len(f.params) >= 3:
        I = Interp(p)
        v, st = I.run(f)
        a, b = (T("p", f.fullname, n) for n, *_ in f.params[1:3])
        z = T("sym", "lang")
        ok, seen = True, False
        for x in vals(P.R(v)):
            if x.kind == "op" and x.args[0] == "eq":
                seen = True
                l, r = x.args[1], x.args[2]
                la, lb = subst(l, {a: z, b: z}), subst(r, {a: z, b: z})
                both = any(y is a for y in subterms(x)) and any(y is b for y in subterms(x))
                ok = ok and both and la is lb
            elif x.kind == "op" and x.args[0] == "ne":
                seen, ok = True, False
        if seen:
            rep.ob("ask", "languages_match", ok, "TranslationService.languages_match does not treat the requested and the available language alike: "
                   + sh(vals(P.R(v))), f.loc(), key="ask:languages_match")


def positive(c, pol):
    while c.kind == "op" and c.args[0] == "not":
        c, pol = c.args[1], not pol
    if c.kind == "op" and c.args[0] in ("ne", "notin"):
        return not pol
    return pol


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t.id in memo:
        return memo[t.id]

    def s(a):
        if hasattr(a, "kind"):
            return subst(a, m, memo)
        if isinstance(a, tuple):
            return tuple(s(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(s(b) for b in a)
        return a
    memo[t.id] = t
    if t.kind == "k":
        return t
    if t.kind == "phi":
        from ..vf import phi
        r = phi([(frozenset((s(c), pol) for c, pol in g), s(x)) for g, x in t.args[0]])
    else:
        r = T(t.kind, *[s(a) for a in t.args])
    memo[t.id] = r
    return r


def quantified_wrongly(r):
    for x in subterms(r, guards=True):
        if x.kind == "quant":
            if x.args[0] != "any" and not negated(r, x):
                return "asks whether all labels match instead of whether any does"
            for c in x.args[1]:
                for y in subterms(c):
                    if y.kind == "op" and y.args[0] == "ne" and not negated(r, x):
                        return "answers with the labels that differ"
    for g, x in alts(r):
        if x is K(True):
            for c, pol in g:
                if label_reads(c) and not positive(c, pol):
                    return "answers True for labels that differ"
    return ""


def negated(r, x):
    return any(y.kind == "op" and y.args[0] == "not" and any(z is x for z in subterms(y)) for y in subterms(r, guards=True))


def table(p, rep, P):
    c = p.cls("Filing")
    f = c.lookup("get_all_labels")
    if f is None:
        return
    I = Interp(p, opaque=READERS | LABEL_ACC | {"get_labels", "get_all_report_elements", "get_name"})
    v, st = I.run(f)
    rows = []
    for x in vals(P.R(v)):
        if x.kind in ("list", "tuple", "set"):
            for k, val, g, lp in I.entries(st, x):
                rows += [(P.R(val), g)]
    got = False
    for r, g in rows:
        owner = {base(y, "get_labels") for y in subterms(r) if base(y, "get_labels") is not None}
        named = set()
        for e in I.events:
            if e.kind in ("setitem", "store") or e.kind == "call" and str(e.name).split(".")[-1] in ("get_name",):
                pass
        ents = [(k, P.R(val)) for y in vals(r) for k, val, eg, lp in I.entries(st, y)]
        for y in subterms(r):
            ents += [(k, P.R(val)) for k, val, eg, lp in I.entries(st, y)]
        for k, val in ents:
            owner |= {base(y, "get_labels") for y in subterms(val) if base(y, "get_labels") is not None}
            named |= {base(y, "get_name") for y in subterms(val) if base(y, "get_name") is not None}
        if not owner or not named:
            continue
        got = True
        rep.ob("table", "get_all_labels", owner == named, "Filing.get_all_labels: the report element named next to a label is not the one the label comes from",
               f.loc(), key="table:owner")
    if not got:
        rep.ob("table", "get_all_labels", True)
