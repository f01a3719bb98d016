"""C03: error catalogue total, unambiguous and renderable."""
import ast, string
from ..project import AnalysisError
from ..vf import Interp, T, K, show, alts, vals, subterms


def catalogue(p):
    """code name -> [(entry dict, loc)], in source order, duplicates kept"""
    EI = p.cls("ErrorInstance")
    EC = p.cls("ErrorCode")
    init = EI.lookup("__init__")
    if init is None:
        raise AnalysisError("ErrorInstance has no constructor")
    # the registry: module-level dict keyed by ErrorCode members
    for m in p.modules.values():
        if "ErrorCode" not in m.source or m is EC.module:
            continue
        for name, s in m.symbols.items():
            if s[0] != "var" or not any(isinstance(x, (ast.Dict, ast.DictComp, ast.Call)) for x in s[1] if x is not None):
                continue
            I = Interp(p)
            st, vars = I.run_module(m)
            for n, v in vars.items():
                ents = I.entries(st, v) if v.kind == "dict" else ()
                # keep duplicates: literal dict keys are inspected syntactically as well
                if sum(1 for e in ents if e[0] is not None and e[0].kind == "enum" and e[0].args[0] is EC) >= 20:
                    return m, n, I, st, ents
    raise AnalysisError("error catalogue (mapping from ErrorCode to error factory) not found")


def check(p, rep, tier):
    EC, EI = p.cls("ErrorCode"), p.cls("ErrorInstance")
    m, regname, I, st, ents = catalogue(p)
    rep.saw("catalogue", f"{m.relpath}:{regname}")
    rep.rule("R1-template", "each catalogue entry builds an error with a literal severity, area, number and a well-formed message template", 60)
    rep.rule("R2-unique", "each code has one entry; each (area, number) pair belongs to one code", 60)
    rep.rule("R3-registered", "every code used anywhere outside the catalogue has an entry", 60)
    rep.rule("R4-details", "every report site supplies each placeholder of the message template of its code", 60)
    rep.rule("R5-recorded", "reporting stores the error built from the entry of the reported code, unconditionally", 1)
    members = list(EC.classvars)
    for s in EC.node.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in getattr(t, "elts", []):
                    if isinstance(x, ast.Name):
                        members.append(x.id)
    members = set(members)

    I.push_module_frame(m)
    fr = I.stack[-1]
    st.frames[fr.fid] = {}
    templates = {}
    by_num = {}
    count = {}
    for key, val, g, l in ents:
        if key is None or key.kind != "enum":
            rep.ob("R1-template", show(key) if key is not None else "?", False, "catalogue entry with a non-constant key", m.relpath)
            continue
        code = key.args[1]
        count[code] = count.get(code, 0) + 1
        n0 = len(I.events)
        node = ast.parse("f()", mode="eval").body
        node.lineno, node._code = 0, code
        r = I.call_value(val, [], [], st, node)
        news = [e for e in I.events[n0:] if e.kind == "new" and e.recv.args[0] is EI]
        loc = m.relpath
        if val.kind == "lam":
            loc += ":" + str(getattr(I.lamnode[val.args[0]], "lineno", 0))
        if len(news) != 1 or r is not news[0].recv:
            rep.ob("R1-template", code, False, f"the entry of {code} does not build one error", loc)
            continue
        b = news[0].bound
        sev, area, num, msg = (b.get(x) for x in ("severity", "area", "numeric_code", "message"))
        ok = sev is not None and sev.kind == "enum" and area is not None and area.kind == "enum" and num is not None and num.kind == "k" \
            and msg is not None and msg.kind == "k" and isinstance(msg.args[0], str)
        why = "severity, area, number or message is not a literal"
        fields = set()
        if ok:
            try:
                for lit, f, spec, conv in string.Formatter().parse(msg.args[0]):
                    if f is not None:
                        base = f.split(".")[0].split("[")[0]
                        if not base.isidentifier():
                            raise ValueError(f"placeholder {{{f}}} is not a name")
                        if not f.isidentifier() or spec or conv:
                            raise ValueError(f"placeholder {{{f}{':' + spec if spec else ''}}} is malformed")
                        fields.add(base)
            except ValueError as e:
                ok, why = False, f"message template cannot be rendered: {e}"
        rep.ob("R1-template", code, ok, f"{code}: {why}", loc)
        if ok:
            templates[code] = fields
            by_num.setdefault((area.args[1], num.args[0]), []).append((code, loc))
    # duplicate literal keys
    dup = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            seen = {}
            for k in n.keys:
                if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == "ErrorCode":
                    if k.attr in seen:
                        dup[k.attr] = k.lineno
                    seen[k.attr] = k.lineno
    for code in sorted(set(templates) | set(dup)):
        bad = code in dup or count.get(code, 0) > 1
        rep.ob("R2-unique", code, not bad, f"{code} is registered more than once", f"{m.relpath}:{dup.get(code, 0)}")
    for (area, num), cs in sorted(by_num.items()):
        names = sorted({c for c, _ in cs})
        rep.ob("R2-unique", f"{area}-{num}", len(names) == 1, f"{' and '.join(names)} share the area and number {area}-{num}", cs[0][1],
               key=f"R2-unique:{area}-{num}:" + "+".join(names))

    # uses
    used = {}
    for mod in p.modules.values():
        if "ErrorCode" not in mod.source:
            continue
        skip = set()
        if mod is m:
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Dict):
                    skip |= {id(k) for k in n.keys}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and id(n) not in skip:
                r = p.resolve_expr(mod, n.value)
                if r and r[0] == "class" and r[1] is EC:
                    used.setdefault(n.attr, f"{mod.relpath}:{n.lineno}")
    for code, loc in sorted(used.items()):
        if code not in members:
            rep.ob("R3-registered", code, False, f"{code} is not a known error code", loc)
        else:
            registered = code in count
            rep.ob("R3-registered", code, registered, f"{code} is reported here but has no catalogue entry", loc)

    # report sites
    sites = {}
    pending = {}
    # only functions from which the error store is reachable in the same module set
    for f in list(p.all_functions()):
        if f.parent is not None or f.module is m or (f.cls is not None and p.cls("ErrorRepository") in f.cls.mro()):
            continue
        if "ErrorCode" not in f.module.source and "error" not in ast.get_source_segment(f.module.source, f.node).lower():
            continue
        J = Interp(p, inline=_inline_with_errors(p))
        try:
            J.run(f)
        except RecursionError:
            raise AnalysisError(f"value flow of {f.fullname} too deep")
        rep.saw("functions analysed", f.fullname)
        for e in J.events:
            if e.kind == "call" and e.name in ("ErrorRepository.insert", "ErrorRepository.create"):
                code = (e.bound or {}).get("error_code") or e.arg(0, "error_code")
                kws = {n for n, _ in e.kwargs} - {"error_code", "error_context", "context"}
                for g, c in alts(code) if code is not None else []:
                    k = (e.func.fullname, id(e.node), c.id)
                    if c.kind == "enum":
                        old = sites.get(k)
                        sites[k] = (c.args[1], (old[1] & kws) if old else kws, e)
                    else:
                        pending.setdefault((e.func.fullname, id(e.node)), e)
    bysite = {}
    for (fn, nid, cid), (code, kws, e) in sites.items():
        f = e.func
        inst = f"{code}@{fn}"
        need = templates.get(code)
        if need is None:
            continue
        missing = sorted(need - kws) if "**" not in kws else []
        cur = bysite.setdefault(inst, [set(), e.loc])
        cur[0] |= set(missing)
    for inst, (missing, loc) in sorted(bysite.items()):
        rep.ob("R4-details", inst, not missing, f"{inst.split('@')[0]} is reported without the detail(s) {', '.join(sorted(missing))} its message needs", loc)
    rep.stats["report_sites"] = len(sites)

    # recording
    repo_cls = [c for c in p.cls("ErrorRepository").all_subclasses() if not c.abstract_names()]
    for c in repo_cls:
        f = c.lookup("insert")
        J = Interp(p)
        ctorst_val, obj, st2 = _fresh(J, p, c)
        code, elem = T("sym", "code"), T("sym", "element")
        node = ast.parse("f()", mode="eval").body
        n0 = len(J.events)
        kwd = T("sym", "details")
        J.call_func(f, [obj, code, elem], [("**", kwd)], st2, node)
        evs = J.events[n0:]
        lst = J.call_func(c.lookup("get_all"), [obj], [], st2, node)
        ents2 = [e for x in vals(lst) for e in J.entries(st2, x)]
        okd = []
        for k, v, g, l in ents2:
            if v.kind == "elem":
                continue
            # every condition on the path must be "the code has an entry" or an except clause
            bad = [c2 for c2, pol in g if not _about_registry(c2, regname)]
            built = any(_uses(x, code) and _uses_gv(x, regname) for x in vals(v))
            okd.append(built and not bad)
        fmt = [e for e in evs if e.kind == "call" and e.name == "str.format"]
        rep.ob("R5-recorded", c.name, any(okd), f"{c.name}: reporting an error does not always store the error built from its own entry", f.loc())


def _about_registry(c, regname):
    return any(x.kind in ("gv", "excguard") and (x.kind == "excguard" or x.args[1] == regname) for x in subterms(c, True)) \
        or any(x.kind == "excguard" for x in subterms(c, True)) or any(x.kind == "sym" and x.args[0] == "element" for x in subterms(c, True))


def _uses(t, s):
    return any(x is s for x in subterms(t, True))


def _uses_gv(t, regname):
    return any(x.kind == "gv" and x.args[1] == regname for x in subterms(t))


def _fresh(J, p, c):
    from ..vf import State
    st = State()
    fr = J.push_module_frame(c.module)
    st.frames[fr.fid] = {}
    node = ast.parse("f()", mode="eval").body
    o = J.construct(c, [], [], st, node)
    return None, o, st


_CG = {}


def _inline_with_errors(p):
    """inline only functions that (transitively) mention the error store or take it as an argument: keeps the analysis small"""
    def pred(f):
        if f.fullname not in _CG:
            src = ast.get_source_segment(f.module.source, f.node) or ""
            _CG[f.fullname] = ("error" in src.lower() and ("ErrorCode" in src or "code" in src.lower()) and f.cls is None)
        return _CG[f.fullname]
    return pred
