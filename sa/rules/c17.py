"""C17: every output option reaches exactly the setting of the same name, explicit before filing before default."""
import ast
import re
from ..project import AnalysisError
from ..vf import Interp, T, K, NONE, EMPTY, alts, vals, show, subterms, truth
from .. import objs, vf

SOURCES = {"get_available_filing_languages": "allow_report_language", "get_system_language": "allow_system_language", "getdefaultlocale": "allow_system_language"}


def option_names(p):
    c = p.cls("OutputParams")
    names = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
    if len(names) < 4:
        raise AnalysisError("OutputParams lists fewer than 4 options")
    return names


def entry_points(p):
    c = p.cls("Filing")
    out = []
    for f in c.methods.values():
        kw = [n for n, k, a, d in f.params if k == "kwvar"]
        if kw and not f.name.startswith("_") and not f.name.startswith("set_"):
            out.append(f)
    return c, out


def check(p, rep, tier):
    names = option_names(p)
    rep.rule("R1-explicit", "an option given to a call is the value that arrives at the setting of the same name, and only there", 12)
    rep.rule("R2-priority", "an option that is not given falls back to the filing's setting, then to the global one, of the same name", 8)
    rep.rule("R3-languages", "each language source is used exactly under its own option, explicit languages before the filing's before the global ones", 4)
    rep.rule("R4-setters", "setting some options stores exactly those and keeps the others", 2)
    rep.rule("R5-passed-on", "the language list reaches every translation lookup of an export unchanged", 10)
    rep.rule("R6-no-swap", "an argument that bears the name of one parameter is not passed to a different one", 200)
    rep.rule("R7-match", "languages match in full, or by their primary part when locales are not to be matched", 1)
    rep.rule("R8-first", "languages are tried in the order they are given in, and the first that fits is taken", 2)
    c, entries = entry_points(p)
    if not entries:
        raise AnalysisError("no public Filing operation takes output options")
    for f in entries:
        explicit(p, rep, c, f, names)
        one_or_many(p, rep, c, f, names)
    priority(p, rep, c, entries[0], names)
    setters(p, rep, c, names)
    passed_on(p, rep)
    swaps(p, rep)
    match(p, rep)
    in_order(p, rep)
    rep.assume("kwargs of the public operations are the documented OutputParams options")


BOOL = ("allow_report_language", "allow_system_language", "allow_default")


def setup(p):
    I = Interp(p, opaque={"get_available_filing_languages", "convert_to_dict"})
    I.FROMKEYS = True
    c = p.cls("Filing")
    st = objs.begin(I, c.module)
    o, syms = objs.construct(I, st, c)
    return I, st, o


def options(names, level, rep_lang, sys_lang, default, mixed):
    """one value per option; booleans are constants so that branches on them are decided"""
    out = {}
    for n in names:
        if n == "allow_report_language":
            out[n] = K(rep_lang)
        elif n == "allow_system_language":
            out[n] = K(sys_lang)
        elif n == "allow_default":
            out[n] = K(default)
        elif n == "allow_mixed":
            out[n] = K(mixed)
        else:
            out[n] = T("sym", "given", level + ":" + n)
    return out


def observe(I, n0, st):
    """what a call did: [(kind of language source ...)] per export, and the locale setting"""
    langs, locale = [], []
    for e in I.events[n0:]:
        nm = e.name.split(".")[-1]
        if e.kind == "call" and nm == "convert_to_dict":
            a = e.arg(0, "languages")
            langs.append((a, e) if a is not None else (NONE, e))
        if e.kind == "enter" and nm == "set_match_locale" or e.kind == "call" and nm == "set_match_locale":
            a = e.arg(0 if e.kind == "call" else 1, "match_locale")
            if a is not None:
                locale.append(a)
    return langs, locale


def flatten(I, st, t):
    """[(position, value)] of a language list; alternatives share their position"""
    best, out, active = {}, {}, set()

    def visit(v, pos):
        end = pos
        for gd, x in alts(v):
            if x.id in active or best.get(x.id, pos + 1) <= pos:
                continue
            best[x.id] = pos
            active.add(x.id)
            q = pos
            for y in (x.args[0] if x.kind == "tup" else [e[1] for e in I.entries(st, x)]):
                q = visit(y, q)
            if x.kind not in ("tup", "list", "set"):
                out[x.id] = (min(q, out[x.id][0]) if x.id in out else q, x)
                q += 1
            active.discard(x.id)
            end = max(end, q)
        return end
    visit(t, 0)
    return sorted(out.values(), key=lambda z: z[0])


def classify(x):
    st = subterms(x)
    for s in st:
        if s.kind == "call" and str(s.args[0]).split(".")[-1] in SOURCES:
            return SOURCES[str(s.args[0]).split(".")[-1]]
    for s in st:
        if s.kind == "sym" and s.args[0] == "given":
            return s.args[1]
    if x.kind == "k":
        return "allow_default" if x.args[0] == "" else repr(x.args[0])
    if x.kind == "elem" and x.args[1] == "empty":
        return None
    return "stored" if any(y.kind in ("cv", "gv") for y in st) else show(x)


def kinds(I, st, t):
    """{kind of language: first position}"""
    out = {}
    for pos, x in flatten(I, st, t):
        k = classify(x)
        if k is not None:
            out[k] = min(pos, out.get(k, pos))
    return out


def increasing(order, names):
    ps = [order[k] for k in names if k in order]
    return all(a <= b for a, b in zip(ps, ps[1:]))


PREF = ["call:languages", "filing:languages", "global:languages", "allow_system_language", "allow_report_language", "allow_default"]


def misordered(I, st, stats):
    """pairs of language sources that the lists built on the way hold in the wrong order, and none in the right one"""
    right, wrong = set(), set()
    for (tid, tag), es in list(st.heap.items()):
        if tag != "#c" or len(es) < 2 or any(e[0] is not None for e in es):
            continue
        first = {}
        for i, e in enumerate(es):
            for k in kinds(I, st, e[1]):
                first.setdefault(k, i)
        ks = [k for k in PREF if k in first]
        for i, x in enumerate(ks):
            for y in ks[i + 1:]:
                if first[x] < first[y]:
                    right.add((x, y))
                elif first[x] > first[y]:
                    wrong.add((x, y))
    stats["ordered"] = stats.get("ordered", 0) + len(right)
    return sorted(wrong - right)


def expect(rep, rule, inst, I, st, n0, f, opts, level, loc):
    langs, locale = observe(I, n0, st)
    for fn in I.functions_seen:
        rep.saw("functions analysed", fn.fullname)
    ok = bool(locale) and all(a is opts["match_locale"] for a in locale)
    rep.ob(rule, f"{inst}:match_locale", ok, f"{f.name}: locale matching is set to {show(locale[-1]) if locale else 'nothing'} although match_locale is {level}:match_locale", loc, key=f"{rule}:{level}:match_locale:{f.name}")
    if not langs:
        rep.ob(rule, f"{inst}:languages", False, f"{f.name} hands no languages to the exported elements", loc, key=f"{rule}:{level}:none:{f.name}")
        return {}
    mixed = opts["allow_mixed"].args[0]
    order = {}
    for a, e in langs:
        single = all(len(xs) == 1 and one for xs, one in
                     ((I.entries(st, x) if x.kind == "list" else (x.args[0] if x.kind == "tup" else ()), x.kind == "tup" or st.heap.get((x.id, "#lit"))) for x in vals(a)))
        rep.ob(rule, f"{inst}:allow_mixed", single is not mixed, f"{f.name}: with allow_mixed={mixed} ({level}) elements are exported with {'one language at a time' if single else 'the whole language list'}", loc, key=f"{rule}:{level}:allow_mixed:{f.name}")
        ks, base = kinds(I, st, a), max(order.values(), default=-1) + 1
        for k, pos in ks.items():
            order.setdefault(k, base + pos)
    for opt in BOOL:
        want = opts[opt].args[0]
        rep.ob(rule, f"{inst}:{opt}={want}", (opt in order) == want,
               f"{f.name}: with {opt}={want} ({level}) its languages are {'missing' if want else 'used nevertheless'}", loc, key=f"{rule}:{level}:{opt}:{f.name}")
    me = opts["languages"].args[1]
    rep.ob(rule, f"{inst}:languages", me in order, f"{f.name}: the languages given at {level} level are not used", loc, key=f"{rule}:{level}:languages:{f.name}")
    for x, y in misordered(I, st, rep.stats):
        rep.ob("R3-languages", f"{inst}:{x}<{y}", False, f"{f.name}: {y} is preferred to {x}", loc, key=f"R3:pair:{x}:{y}")
    return order


def explicit(p, rep, c, f, names):
    loc = f.loc()
    for mixed in (True, False):
        for bits in range(8):
            r, s, d = bool(bits & 1), bool(bits & 2), bool(bits & 4)
            I, st, o = setup(p)
            opts = options(names, "call", r, s, d, mixed)
            n0 = len(I.events)
            objs.call(I, st, o, f.name, [], list(opts.items()))
            order = expect(rep, "R1-explicit", f"{f.name}/{'mixed' if mixed else 'single'}/{bits}", I, st, n0, f, opts, "call", loc)
            for a, e in observe(I, n0, st)[0]:
                for k, deps in conditions(I, st, a).items():
                    rep.ob("R3-languages", f"{f.name}/{bits}: {k} on its own", not deps, f"{f.name}: whether {k} is used depends on {', '.join(sorted(deps))}", loc, key=f"R3:depends:{k}:{f.name}")
            seq = sorted(order, key=order.get)
            first = min(order.values(), default=0)
            rep.ob("R3-languages", f"{f.name}/{bits}:order", order.get("call:languages") == first and order.get("allow_default", 10 ** 6) >= max(order.values(), default=0)
                   and increasing(order, ["call:languages", "allow_system_language", "allow_report_language", "allow_default"]),
                   f"{f.name}: language preference order is {seq}", loc, key=f"R3:order:{f.name}")


def orders(o):
    """the ways a list was brought into its order"""
    if not isinstance(o, tuple) or not o:
        return set()
    return {x for y in o[1] for x in orders(y)} if o[0] == "mixed" else {o[0]}


def one_or_many(p, rep, c, f, names):
    """one language given as text is that language; several stay several, in the order given"""
    for typ in ("str", "list"):
        I, st, o = setup(p)
        opts = options(names, "call", True, True, True, True)
        t = opts["languages"]

        def oracle(k, t=t, typ=typ):
            if k.kind == "op" and k.args[0] == "isinstance" and k.args[1] is t:
                got = {re.findall(r"\w+", show(x, 2))[-1] for x in (k.args[2].args[0] if k.args[2].kind == "tup" else [k.args[2]])}
                return True if typ in got or typ == "list" and got & {"Sequence", "Iterable"} else False if got & {"str", "list", "tuple"} else None
            return None
        old, vf.ORACLE = vf.ORACLE, oracle
        try:
            n0 = len(I.events)
            objs.call(I, st, o, f.name, [], list(opts.items()))
            langs, _ = observe(I, n0, st)
        finally:
            vf.ORACLE = old
        whole, each, moved = False, False, set()
        for a, e in langs:
            for v in vals(a):
                moved |= orders(st.heap.get((v.id, "#o"))) & {"sorted", "reversed", "set", "insort"}
            for pos, x in flatten(I, st, a):
                if x is t:
                    whole = True
                elif x.kind in ("elem", "idx", "slice") and x.args[0] is t or x.kind == "call" and x.args[1] is t:
                    each = True
        ok = (whole and not each) if typ == "str" else (each and not whole)
        rep.ob("R3-languages", f"{f.name}: {'one language' if typ == 'str' else 'several languages'}", ok,
               f"{f.name}: " + ("a language given as text is taken apart, or not used" if typ == "str" else "a list of languages is taken for one language, or not used"), f.loc(), key=f"R3:{typ}:{f.name}")
        rep.ob("R3-languages", f"{f.name}: order kept ({typ})", not moved, f"{f.name}: the languages are {', '.join(sorted(moved))} instead of kept in the order of preference", f.loc(), key=f"R3:moved:{f.name}")


def conditions(I, st, t):
    """{kind of language: kinds that decide whether it is used}"""
    out, done = {}, set()

    def visit(v, gs):
        for gd, x in alts(v):
            g2 = gs | gd
            if (x.id, g2) in done or len(done) > 20000:
                continue
            done.add((x.id, g2))
            if x.kind in ("tup", "list", "set"):
                for y in ([(None, z, frozenset()) for z in x.args[0]] if x.kind == "tup" else I.entries(st, x)):
                    visit(y[1], g2 | y[2])
                continue
            k = classify(x)
            if k is not None:
                asks = {classify(z) for c, _ in g2 if not (c.kind == "op" and c.args[0] in ("in", "not in", "notin")) and not any(s.kind == "op" and s.args[0] == "in" for s in subterms(c))
                        for z in [c]}
                out.setdefault(k, []).append({a for a in asks if a in PREF + ["stored"] and a != k})
    visit(t, frozenset())
    return {k: set.intersection(*v) for k, v in out.items()}


def priority(p, rep, c, f, names):
    loc = f.loc()
    setf, setg = c.lookup("set_filing_output_params"), c.lookup("set_global_output_params")
    if setf is None or setg is None:
        raise AnalysisError("output option setters vanished")
    for bits in range(8):
        r, s, d = bool(bits & 1), bool(bits & 2), bool(bits & 4)
        for mixed in (True, False):
            pos = options(names, "", r, s, d, mixed)
            mine = {lv: options(names, lv, r, s, d, mixed) for lv in ("call", "filing", "global")}
            anti = {lv: options(names, lv, not r, not s, not d, not mixed) for lv in ("call", "filing", "global")}
            for lvl, g, fl, call in (("global", mine["global"], None, None), ("filing", None, mine["filing"], None), ("filing", anti["global"], mine["filing"], None),
                                     ("call", anti["global"], None, mine["call"]), ("call", None, anti["filing"], mine["call"])):
                I, st, o = setup(p)
                if g is not None:
                    I.call_func(setg, [T("cls", c)], list(g.items()), st, objs.node())
                if fl is not None:
                    objs.call(I, st, o, setf.name, [], list(fl.items()))
                n0 = len(I.events)
                objs.call(I, st, o, f.name, [], list((call or {}).items()))
                name = f"{lvl}{'>filing' if fl and lvl == 'call' else ''}{'>global' if g and lvl != 'global' else ''}/{bits}/{'mixed' if mixed else 'single'}"
                order = expect(rep, "R2-priority", name, I, st, n0, f, mine[lvl], lvl, loc)
                lv = sorted((k for k in order if k.endswith(":languages")), key=order.get)
                rep.ob("R3-languages", name, increasing(order, ["call:languages", "filing:languages", "global:languages"]), f"languages are preferred in the order {lv}", loc, key=f"R3:levels:{lvl}")


def setters(p, rep, c, names):
    """setting one option must keep the value of the others"""
    for name, fieldowner in (("set_global_output_params", None),):
        I = Interp(p)
        st = objs.begin(I, c.module)
        g = T("sym", "given", "a")
        I.call_func(c.lookup(name), [T("cls", c)], [(names[-1], g)], st, objs.node())
        stored = [(k, v) for k, v in st.heap.items() if not k[1].startswith("#") and isinstance(v, type(g))]
        okset = False
        for k, v in stored:
            for d in vals(v):
                es = I.entries(st, d)
                own = [i for i, e in enumerate(es) if e[0] is K(names[-1]) and e[1] is g]
                mine = bool(own) and not any(e[0] is None or e[0] is K(names[-1]) and e[1] is not g for e in es[own[-1] + 1:])
                rest = any(e[0] is None or e[0].kind != "k" or e[0].args[0] != names[-1] for e in es)
                okset = okset or (mine and rest)
        # in-place update of the shared dictionary
        for e in I.events:
            if e.kind in ("mutate", "setitem") and e.recv is not None:
                es = I.entries(st, e.recv)
                okset = okset or any(x[0] is K(names[-1]) and x[1] is g for x in es)
        rep.ob("R4-setters", name, okset, f"{name} called for one option discards the values of all other options", c.lookup(name).loc())
    I = Interp(p)
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    g = T("sym", "given", "a")
    objs.call(I, st, o, "set_filing_output_params", [], [(names[-1], g)])
    ok = any(any(e[0] is K(names[-1]) and e[1] is g for e in I.entries(st, v)) for k, v in st.heap.items() if k[0] == o.id and not k[1].startswith("#") for v in vals(v))
    rep.ob("R4-setters", "set_filing_output_params", ok, "the filing does not keep the option it was given under its name", c.lookup("set_filing_output_params").loc())


def passed_on(p, rep):
    """exports hand the language list they got to every translation lookup"""
    for f in p.all_functions():
        pn = [n for n, k, a, d in f.params]
        if "languages" not in pn or "translation_service" not in pn or f.is_abstract:
            continue
        I = Interp(p, inline=lambda g: False if g.cls is not None and g.cls.name == "TranslationService" else None)
        lt, ts = T("sym", "given", "languages"), T("sym", "given", "service")
        I.types[ts.id] = {p.cls("TranslationService").fullname}
        I.run(f, {"languages": lt, "translation_service": ts})
        rep.saw("functions analysed", f.fullname)
        for e in I.events:
            if e.kind == "call" and e.recv is ts and e.bound is not None and "languages" in e.bound:
                rep.ob("R5-passed-on", f"{f.cls.name if f.cls else ''}.{f.name}:{e.name}", e.bound["languages"] is lt,
                       f"{f.qualname} looks up a translation for {show(e.bound['languages'])} instead of the requested languages", e.loc, key=f"R5:{f.qualname}:{e.name}")
            elif e.kind == "call" and e.bound is not None and "languages" in e.bound and "translation_service" in e.bound:
                rep.ob("R5-passed-on", f"{f.cls.name if f.cls else ''}.{f.name}:{e.name}", e.bound["languages"] is lt and e.bound["translation_service"] is ts,
                       f"{f.qualname} passes {show(e.bound['languages'])} on instead of the requested languages", e.loc, key=f"R5:{f.qualname}:{e.name}")


def argname(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
        return e.args[0].value
    return None


def swaps(p, rep):
    for f in p.all_functions():
        for call in p.calls_in(f):
            for g in p.callees(f, call):
                params = [n for n, k, a, d in g.params if k in ("pos", "kw")]
                if g.cls is not None and not g.is_static and params:
                    params = params[1:]
                pos = [n for n, k, a, d in g.params if k == "pos"]
                if g.cls is not None and not g.is_static and pos:
                    pos = pos[1:]
                bound = {}
                if any(isinstance(a, ast.Starred) for a in call.args):
                    continue
                for i, a in enumerate(call.args):
                    if i < len(pos):
                        bound[pos[i]] = a
                for k in call.keywords:
                    if k.arg in params:
                        bound[k.arg] = k.value
                bad = None
                nm = {q: argname(a) for q, a in bound.items()}
                for q, n in nm.items():
                    if n is not None and n != q and n in params and nm.get(n) != n and _norm(n) != _norm(q):
                        # the parameter of that name must get something else that is also named like a parameter
                        m = nm.get(n)
                        if m is not None and m in params and m != n:
                            bad = (n, q)
                rep.ob("R6-no-swap", f"{f.qualname}->{g.name}", bad is None, f"{f.qualname} passes {bad[0] if bad else ''} as {g.name}'s parameter {bad[1] if bad else ''}",
                       f.loc(call), key=f"R6:{f.qualname}->{g.name}:{bad}")


def _norm(s):
    return s.replace("_", "").lower()


def match(p, rep):
    c = p.cls("TranslationService")
    f = c.lookup("languages_match")
    if f is None:
        raise AnalysisError("TranslationService.languages_match vanished")
    for locale in (True, False):
        I = Interp(p)
        st = objs.begin(I, c.module)
        o, _ = objs.construct(I, st, c)
        objs.call(I, st, o, "set_match_locale", [K(locale)])
        a, b = T("sym", "given", "requested"), T("sym", "given", "available")
        r = objs.call(I, st, o, "languages_match", [a, b])
        cut = {s for s in (a, b) for v in vals(r) for x in subterms(v) if x.kind in ("call", "idx", "slice", "unpack") and s in subterms(x)
               and (x.kind != "call" or str(x.args[0]).endswith(("split", "partition")))}
        plain = {s for v in vals(r) for s in subterms(v) if s.kind == "slice" and not any(x.kind == "call" and str(x.args[0]).endswith(("find", "index", "split", "partition")) for x in subterms(s))}
        rep.ob("R7-match", f"languages_match/match_locale={locale}: at the hyphen", not plain, f"with match_locale={locale} languages are cut to {', '.join(show(s, 3) for s in plain)}, not at the hyphen", f.loc(), key=f"R7:cut:{locale}")
        ok = all(v.kind == "op" and v.args[0] == "eq" and {a, b} <= set(subterms(v)) for v in vals(r)) and cut == (set() if locale else {a, b})
        rep.ob("R7-match", f"languages_match/match_locale={locale}", ok, f"with match_locale={locale} the languages {'' if cut else 'are not shortened: '}{show(r)} decides whether they match", f.loc(), key=f"R7:{locale}")


REORDER = {"sorted", "reversed", "set", "frozenset", "min", "max"}
WHOLE = {"list", "tuple", "iter", "enumerate", "zip", "filter", "map", "dict.fromkeys"}


def in_order(p, rep):
    for f in p.all_functions():
        names = {n for n, k, a, d in f.params if n == "languages"}
        if not names:
            continue
        # the names that stand for the list
        for _ in range(3):
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and stands_for(s.value, names):
                    names.add(s.targets[0].id)
        here = lambda x: isinstance(x, ast.Name) and x.id in names  # noqa: E731
        bad, whole, index = [], False, []
        for s in ast.walk(f.node):
            if isinstance(s, ast.Call):
                g = ast.unparse(s.func)
                if g in REORDER and s.args and stands_for(s.args[0], names):
                    bad.append((s, f"takes the languages through {g}()"))
                elif isinstance(s.func, ast.Attribute) and here(s.func.value) and s.func.attr in ("sort", "reverse", "pop", "remove", "insert"):
                    bad.append((s, f"changes the list of languages with {s.func.attr}()"))
                elif any(here(a) for a in list(s.args) + [k.value for k in s.keywords]) and g != "isinstance" and g != "len":
                    whole = True
            elif isinstance(s, ast.Subscript) and here(s.value):
                if isinstance(s.slice, ast.Slice):
                    if not (s.slice.lower is None and s.slice.upper is None and s.slice.step is None):
                        bad.append((s, f"takes only {ast.unparse(s)} of the languages" if s.slice.step is None else f"takes the languages as {ast.unparse(s)}"))
                elif isinstance(s.slice, (ast.Constant, ast.UnaryOp)):
                    index.append(s)
            elif isinstance(s, (ast.For, ast.comprehension)) and stands_for(s.iter, names):
                whole = True
                if isinstance(s, ast.For) and last_wins(s, f.node):
                    bad.append((s, "goes on after the first language that fits, so that the last one wins"))
        if index and not whole:
            bad.append((index[0], f"only looks at {ast.unparse(index[0])}"))
        s, why = bad[0] if bad else (f.node, "")
        rep.ob("R8-first", f.fullname, not bad, f"{f.fullname} {why}", f"{f.module.relpath}:{getattr(s, 'lineno', f.node.lineno)}", key=f"R8-first:{f.fullname}")


def stands_for(e, names):
    """e is the list of languages, in its order"""
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.BoolOp):
        return any(stands_for(v, names) for v in e.values)
    if isinstance(e, ast.IfExp):
        return stands_for(e.body, names) or stands_for(e.orelse, names)
    if isinstance(e, ast.Call):
        return ast.unparse(e.func) in WHOLE and any(stands_for(a, names) for a in e.args)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        return stands_for(e.generators[0].iter, names)
    if isinstance(e, (ast.List, ast.Tuple)):
        return any(isinstance(x, ast.Starred) and stands_for(x.value, names) for x in e.elts)
    return False


def last_wins(loop, fn):
    """a search loop that neither stops at the first hit nor asks whether it already had one"""
    inner = [x for b in loop.body for x in ast.walk(b)]
    if any(isinstance(x, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom)) for x in inner):
        return False
    kept = {t.id for x in inner if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    asked = {y.id for x in inner if isinstance(x, (ast.If, ast.IfExp, ast.BoolOp)) for y in ast.walk(getattr(x, "test", x)) if isinstance(y, ast.Name)}
    after = {y.id for x in ast.walk(fn) if isinstance(x, ast.Return) and x.lineno > loop.end_lineno and x.value is not None for y in ast.walk(x.value) if isinstance(y, ast.Name)}
    return bool((kept - asked) & after)
