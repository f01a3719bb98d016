"""C23: the two notations of a name are told apart and read by the same rule."""
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..prov import under, ev3
from ..project import AnalysisError
from .. import rx, objs

# what the notations look like: the reference the code is held against
FORMS = {"expanded": rx.regex(r"\{[^{}\n]+\}[^{}:\n]+", "fullmatch"),
         "prefixed": rx.regex(r"[^:{}\n]+:[^:{}\n]+", "fullmatch"),
         "local": rx.regex(r"[^:{}\n]+", "fullmatch")}


def form_facts(s, form, memo):
    """condition -> True/False when it holds for all/none of the names of this form"""
    ref = FORMS[form]

    def facts(c):
        k = (c.id, s.id, form)
        if k not in memo:
            memo[k] = None
            l = rx.lang(c, s)
            if l is not None:
                try:
                    memo[k] = True if ref.within(l) else False if not ref.meets(l) else None
                except rx.Unsupported:
                    pass
        return memo[k]
    return facts


def role(v, s):
    """which part of the name a term is: 'uri', 'prefix', 'local', 'all', or None when the form is not understood"""
    if v is s:
        return "all"
    grp = None
    if v.kind == "call" and v.args[0].split(".")[-1] == "group" and v.args[1] is not None:
        m, grp = v.args[1], (v.args[2][0].args[0] if v.args[2] and v.args[2][0].kind == "k" else 0 if not v.args[2] else None)
    elif v.kind == "idx" and v.args[1].kind == "k":
        m, grp = v.args[0], v.args[1].args[0]
    elif v.kind == "unpack" and v.args[0].kind == "call" and v.args[0].args[0].split(".")[-1] == "groups":
        m, grp = v.args[0].args[1], v.args[1] + 1
    else:
        return None
    mp = rx.match_parts(m) if m is not None and m.kind == "call" else None
    if mp is None or mp[1] is not s or grp is None:
        return None
    try:
        p = rx.parsed(mp[0])
    except rx.Unsupported:
        return None
    gid = p.state.groupdict.get(grp) if isinstance(grp, str) else grp
    if gid == 0:
        return "all"
    f = [x for x in rx.flat(p) if x[0] != "at"]
    for i, x in enumerate(f):
        if x[0] == "group" and x[1] == gid:
            before = f[i - 1][1] if i and f[i - 1][0] == "lit" else None
            after = f[i + 1][1] if i + 1 < len(f) and f[i + 1][0] == "lit" else None
            if before == "{" and after == "}":
                return "uri"
            if i == 0 and after == ":":
                return "prefix"
            if before in ("}", ":") and after is None and i == len(f) - 1:
                return "local"
            return "a part other than namespace, prefix and local name"
    return "a group the pattern does not have"


def fields(I, st, n, facts):
    out = {}
    for k, v in st.heap.items():
        if k[0] == n.id and isinstance(k[1], str) and not k[1].startswith("#") and isinstance(v, type(n)):
            out[k[1]] = [x for x in under(v, facts) if not (x.kind == "attr" and x.args[0] is n)]
    return out


def check(p, rep, tier):
    rep.rule("recognise", "A recogniser of a notation accepts every name of its notation and no name of another one (expanded {namespace}local, prefix:local, local).", floor=6)
    rep.rule("read", "For every name a recogniser accepts, the reader of that notation yields a name and does not fail.", floor=2)
    rep.rule("parts", "For every name of a notation, what is read has the namespace, the prefix and the local name in their own places.", floor=5)
    rep.rule("write", "A written name puts namespace or prefix and local name where the readers of that notation look for them.", floor=3)
    rep.rule("attribute", "An attribute is looked up under the expanded form of the name it is asked for by.", floor=2)
    rep.assume("namespaces, prefixes and local names do not contain braces, colons (local, prefix) or line breaks, as XML names demand")
    memo = {}
    mods = [m for n, m in p.modules.items() if n.startswith("brel.qnames")]
    if not mods:
        raise AnalysisError("brel.qnames not found")
    fs = [f for f in p.all_functions() if f.module in mods and f.parent is None]
    recs, readers, dispatchers = {}, {}, []
    for f in fs:
        low = f.name.lower()
        kind = "expanded" if "clark" in low else "prefixed" if ("prefix" in low or "namespace" in low) else None
        sp = [n for n, k, a, d in f.params if n not in ("self", "cls")]
        if f.name.startswith("is_") and kind and len(sp) == 1:
            recs.setdefault((f.module.name, kind), []).append((f, sp[0]))
        elif "from_" in f.name and sp:
            if kind:
                readers.setdefault((f.module.name, kind), []).append((f, sp[0]))
            else:
                dispatchers.append((f, sp[0], "local" if "local" in low else None))
    if len(recs) < 2 or len(readers) < 2 or not dispatchers:
        raise AnalysisError(f"recognisers/readers of names not found: {sorted(recs)} {sorted(readers)}")

    # recognisers
    reclang = {}
    for (mod, kind), lst in sorted(recs.items()):
        for f, pn in lst:
            s = T("p", f.fullname, pn)
            I = Interp(p)
            v, st = I.run(f)
            l = truth_lang(v, s)
            rep.saw("recognisers", f.fullname)
            if l is None:
                rep.saw("recognisers not understood", f.fullname)
                continue
            reclang[f.fullname] = (l, mod, kind)
            for form, ref in FORMS.items():
                if form == kind:
                    w = (ref & ~l).word()
                    rep.ob("recognise", f"{f.qualname} accepts {form} names", w is None,
                           f"{f.qualname} does not recognise {w!r} although it is a name in {form} notation", f.loc(), key=f"recognise:{f.fullname}:{form}")
                elif not (kind == "prefixed" and form == "expanded"):     # the prefix notation is tried after the expanded one
                    w = (ref & l).word()
                    rep.ob("recognise", f"{f.qualname} rejects {form} names", w is None,
                           f"{f.qualname} recognises {w!r} as {kind} notation although it is not", f.loc(), key=f"recognise:{f.fullname}:{form}")
    # readers: never fail on what the recogniser accepts, and take the parts from their places
    for (mod, kind), lst in sorted(readers.items()):
        for f, pn in lst:
            l = [x[0] for x in reclang.values() if x[1:] == (mod, kind)]
            read(p, rep, f, pn, [kind], memo, l)
    for f, pn, only in sorted(dispatchers, key=lambda x: x[0].fullname):
        read(p, rep, f, pn, [only] if only else ["expanded", "prefixed", "local"], memo, [] if only else [rx.ALL])
    writes(p, rep, fs)
    lookups(p, rep, memo)


def truth_lang(v, s):
    r = None
    for g, x in alts(v):
        l = rx.ALL if x.kind == "k" and x.args[0] is True else ~rx.ALL if x.kind == "k" and not x.args[0] else rx.lang(x, s)
        if l is None:
            return None
        for c, pol in g:
            cl = rx.lang(c, s)
            if cl is None:
                return None
            l = l & (cl if pol else ~cl)
        r = l if r is None else r | l
    return r


def read(p, rep, f, pn, forms, memo, recognised):
    s = T("p", f.fullname, pn)
    I = Interp(p)
    v, st = I.run(f)
    rep.saw("readers", f.fullname)
    raises = [e for e in I.events if e.kind == "raise"]
    for acc in recognised:
        for e in raises:
            l = acc
            known = True
            for c, pol in e.guards:
                cl = rx.lang(c, s)
                if cl is None:
                    known = False
                    break
                l = l & (cl if pol else ~cl)
            w = l.word() if known else None
            rep.ob("read", f"{f.qualname} reads what is recognised", w is None,
                   f"{f.qualname} fails on {w!r}, which {'is not sorted out before reading' if acc is rx.ALL else 'the recogniser of its notation accepts'}", e.loc, key=f"read:{f.fullname}")
        if not raises:
            rep.ob("read", f"{f.qualname} reads what is recognised", True, "", f.loc())
    for form in forms:
        facts = form_facts(s, form, memo)
        for e in raises:
            if e.guards and all(ev3(c, facts) is pol for c, pol in e.guards):
                rep.ob("parts", f"{f.qualname}: {form} names", False, f"{f.qualname} fails on names in {form} notation", e.loc, key=f"parts:{f.fullname}:{form}:raise")
        n_ok = 0
        for x in under(v, facts):
            if x.kind != "new":
                if x.kind in ("k",):
                    rep.ob("parts", f"{f.qualname}: {form} names", False, f"{f.qualname} yields {show(x)} for a name in {form} notation", f.loc(),
                           key=f"parts:{f.fullname}:{form}")
                continue
            fl = fields(I, st, x, facts)
            bad = []
            want = {"uri": "uri"} if form == "expanded" else {"prefix": "prefix"} if form == "prefixed" else {}
            want["local_name"] = "all" if form == "local" else "local"
            for fn, vs in fl.items():
                for y in vs:
                    r = role(strip_str(y), s)
                    w = want.get(fn)
                    if r is None and y.kind not in ("k", "p"):
                        if fn == "uri" and form == "prefixed" and x.args[0].name == "QName" and not nsmap_of(y, s, "prefix"):
                            bad.append(f"its namespace is {show(y, 6)[:90]} instead of the one bound to its prefix")
                        continue
                    if w is None:
                        if r is not None:
                            bad.append(f"its {fn} is taken from the text ({r})")
                    elif r != w:
                        bad.append(f"its {fn} is {('the part ' + r) if r else show(y)}")
                    else:
                        n_ok += 1
            rep.ob("parts", f"{f.qualname}: {form} names", not bad, f"{f.qualname}, given a name in {form} notation: {'; '.join(dict.fromkeys(bad))}", f.loc(),
                   key=f"parts:{f.fullname}:{form}")


def strip_str(y):
    while y.kind == "call" and y.args[0] == "str" and y.args[1] is None and len(y.args[2]) == 1:
        y = y.args[2][0]
    return y


def unknown(z, s):
    """does z use the text s in a way that is not understood?"""
    if role(z, s) is not None:
        return False
    for a in z.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if hasattr(x, "kind") and (x is s or unknown(x, s)):
                return True
    return False


def nsmap_of(y, s, part):
    """is y the namespace bound to the prefix that was read from s?"""
    ks = [k for k in subterms(y) if role(k, s) is not None and k is not s]
    return not ks or any(role(k, s) == part for k in ks)


def pieces(v):
    """a written name as [constant | term]"""
    if v.kind == "fstr":
        out = []
        for x in v.args[0]:
            out += pieces(x)
        return out
    if v.kind == "k":
        return [str(v.args[0])]
    if v.kind == "op" and v.args[0] == "+":
        return pieces(v.args[1]) + pieces(v.args[2])
    return [v]


def join(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def writes(p, rep, fs):
    for f in fs:
        low = f.name.lower()
        if f.name.startswith("to_") and len(f.params) == 2 and "notation" in low:
            I = Interp(p)
            v, st = I.run(f)
            a, b = [T("p", f.fullname, n) for n, k, _, d in f.params]
        elif f.cls is not None and f.cls.name == "QName" and low.endswith("notation") and len(f.params) == 1:
            I = Interp(p)
            st = objs.begin(I, f.module)
            o, syms = objs.construct(I, st, f.cls)
            v = objs.call(I, st, o, f.name)
            a, b = syms["uri" if "clark" in low else "prefix"], syms["local_name"]
        else:
            continue
        want = ["{", a, "}", b] if "clark" in low else [a, ":", b]
        for x in vals(v):
            got = join(pieces(x))
            if any(not isinstance(y, str) and y.kind not in ("p", "sym") for y in got):
                rep.saw("writers not understood", f.fullname)
                continue
            ok = len(got) == len(want) and all(g == w if isinstance(g, str) or isinstance(w, str) else g is w for g, w in zip(got, want))
            rep.ob("write", f.fullname, ok, f"{f.qualname} writes {show(x, 6)[:100]}", f.loc(), key="write:" + f.fullname)


def lookups(p, rep, memo):
    fs = [f for f in p.all_functions() if f.name in ("get_str_attribute", "get_str_attribute_optional", "has_str_attribute") and f.cls is None]
    if not fs:
        raise AnalysisError("attribute readers not found")
    for f in fs:
        an = [n for n, k, a, d in f.params if n.startswith("attr") or n == "name"]
        an = an[0] if an else f.params[1][0]
        s = T("p", f.fullname, an)
        I = Interp(p)
        v, st = I.run(f)
        keys = [y.args[1] for y in subterms(v) if y.kind == "xa"]
        keys += [y.args[1] for y in subterms(v) if y.kind == "op" and y.args[0] in ("in", "notin") and y.args[2].kind == "attrib"]
        for form in FORMS:
            memo2 = form_facts(s, form, memo)
            isq = lambda c: c.kind == "op" and c.args[0] == "isinstance" and c.args[1] is s

            def facts(c):
                return False if isq(c) else memo2(c)
            bad = []
            for k in keys:
                for x in under(k, facts):
                    if x is s:
                        if form == "prefixed":
                            bad.append("the prefixed name is used as it is")
                        continue
                    if x.kind != "fstr":
                        continue
                    got = []
                    for y in x.args[0]:
                        zs = [z for z in under(y, facts) if not (z.kind == "attr" and z.args[0].kind == "new")]
                        if any(any(q.kind == "attr" and q.args[0] is s for q in subterms(z)) or unknown(z, s) for z in zs):
                            got = None
                            break
                        rs = {r for z in zs for r in [role(strip_str(z), s) or (z.args[0] if z.kind == "k" else "namespace of " + "/".join(sorted(
                            str(role(q, s)) for q in subterms(z) if role(q, s) is not None and q is not s)))]}
                        got.append("|".join(sorted(map(str, rs))))
                    if got is None:
                        continue
                    t = "".join(g if len(g) == 1 else f"<{g}>" for g in got)
                    if form == "expanded" and t != "{<uri>}<local>" or form == "prefixed" and t != "{<namespace of prefix>}<local>":
                        bad.append(f"it is looked up as {t}")
                    if form == "local" and t:
                        bad.append(f"a name without namespace is looked up as {t}")
            rep.ob("attribute", f"{f.name}: {form}", not bad, f"{f.name} of a name in {form} notation: {'; '.join(dict.fromkeys(bad))}", f.loc(),
                   key=f"attribute:{f.name}:{form}")
