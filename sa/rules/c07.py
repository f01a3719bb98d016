"""C07: a fact carries exactly the data of its own source element."""
from ..vf import T, K, NONE, alts, vals, show, subterms
from ..prov import Prov
from ..project import AnalysisError
from .. import entry, facts as F
from ..objs import call as call_accessor
from .. import objs


def acc(I, st, P, n, m):
    cl = n.args[0]
    f = cl.lookup(m)
    if f is None or f.is_abstract:
        return None
    fr = I.push_module_frame(cl.module)
    st.frames[fr.fid] = {}
    v = P.R(objs.call(I, st, n, m))
    out = [(g, x) for g, x in alts(v) if not (x.kind == "attr" and x.args[0] is n) and x.kind != "noret"]
    return out


def sh(xs):
    return " or ".join(sorted({show(x, 4)[:110] for x in xs})) or "nothing"


def check(p, rep, tier):
    rep.rule("id", "The id of a fact is the id attribute of its element.", floor=2)
    rep.rule("accuracy", "The decimals and the precision of a fact come from the attribute of that name of its element and from nothing else.", floor=4)
    rep.rule("value", "The value of a fact is computed from the content of its own element (and the continuations of that element) only; "
                      "in an XML instance it is that content as it is.", floor=2)
    rep.rule("modifiers", "Format, scale, sign, nil, escape and continuations of an inline element take part in its value.", floor=4)
    rep.rule("continued", "Which elements are continued depends on what kind of element they are and on their continuedAt only.", floor=1)
    rep.rule("context", "The context of a fact is the one its element's contextRef names, in the document of the fact.", floor=2)
    rep.rule("concept", "The concept of a fact is the one its element names.", floor=2)
    rep.rule("unit", "The unit of a fact is the one its element's unitRef names, in the document of the fact.", floor=2)
    P = Prov()
    for c, f, I, st, events in F.runs(p):
        rep.saw("parsing steps", f.fullname)
        if not events:
            raise AnalysisError(f"{c.name}.parse_facts builds no Fact the analysis can see")
        xml = "XHTML" not in c.name
        deps = set()
        for e in events:
            fact(rep, P, c, I, st, e, xml, deps)
        if not xml:
            for m in ("scale", "sign", "xsi:nil", "escape"):
                rep.ob("modifiers", f"{c.name}: {m}", m in deps, f"{c.name}: no fact's value depends on the {m} attribute of its element", events[0].loc,
                       key=f"modifiers:{c.name}:{m}")
            continued(rep, P, c, I, st)
            rep.ob("modifiers", f"{c.name}: continuation", "continuation" in deps, f"{c.name}: no fact's value includes the continuations of its element",
                   events[0].loc, key=f"modifiers:{c.name}:continuation")


def fact(rep, P, c, I, st, e, xml, deps):
    n = e.recv
    where = f"{c.name} at {e.func.name}"
    key = f"{c.name}:{e.func.name}"
    ids = acc(I, st, P, n, "get_id")
    ctx = acc(I, st, P, n, "get_context")
    val = acc(I, st, P, n, "__str__") or acc(I, st, P, n, "get_value_as_str")
    if ids is None or ctx is None:
        raise AnalysisError("Fact.get_id / get_context not found")
    # the element of the fact: the one whose contextRef leads to its context
    el = element_of(P, I, st, ctx, ids)
    if el is None:
        raise AnalysisError(f"{where}: cannot tell which element the fact is built from")
    own = T("xa", el, K("id"))
    rep.ob("id", where, all(x is own for _, x in ids) and bool(ids),
           f"{where}: the id of the fact is {sh(x for _, x in ids)}, not the id attribute of its element", e.loc, key=f"id:{key}")
    # value
    if val is None or all(x.kind == "attr" for _, x in val):
        val = F.field(st, P, n, "value") or []
    lv = set().union(*[F.leaves(I, st, P, x, False) for _, x in val]) if val else set()
    lg = set(lv)
    for g, x in val:
        lg |= F.leaves(I, st, P, x, True)
        for cnd, _ in g:
            lg |= F.leaves(I, st, P, P.R(cnd), True)
    foreign = [l for l in lv if not F.within(F.owner(l), el) and not continuation(l)]
    foreign = [l for l in foreign if F.is_doc(F.owner(l))]
    foreign += [l for l in lv if l.kind == "tail" and F.owner(l) is el]
    about = [l for l in lv if l.kind in ("text", "content", "tail") and F.within(F.owner(l), el)]
    wrong = [l for l in lv if l.kind in ("xa", "tag") and F.owner(l) is el and not (l.kind == "xa" and l.args[1].args and l.args[1].args[0] in
                                                                                   ("format", "scale", "sign", "xsi:nil", "escape"))]
    ok = bool(about) and not foreign and not wrong
    if xml and ok:
        bad = [x for _, x in val if not (x.kind == "k" or x is T("text", el) or plain_text(x, el))]
        rep.ob("value", where, not bad, f"{where}: the value of the fact is {sh(bad)} instead of the text of its element", e.loc, key=f"value:{key}")
    else:
        rep.ob("value", where, ok, f"{where}: the value of the fact " + (f"comes from {sh(foreign + wrong)}" if foreign or wrong else
               f"does not come from the content of its element but from {sh(x for _, x in val)}"), e.loc, key=f"value:{key}")
    here = {l.args[1].args[0] for l in lg if l.kind == "xa" and l.args[0] is el and l.args[1].kind == "k"}
    deps |= here
    if any(names_continuation(l) for l in lv):
        deps.add("continuation")
    if not xml:
        rep.ob("modifiers", f"{where}: format", "format" in here, f"{where}: the value of the fact does not depend on the format of its element", e.loc,
               key=f"modifiers:{key}:format")
    # decimals and precision
    numeric = xml or "scale" in here
    for m, a in (("get_decimals", "decimals"), ("get_precision", "precision")):
        v = acc(I, st, P, n, m)
        if v is None:
            v = F.field(st, P, n, a)
        if v is None:
            continue
        ls = set().union(*[F.leaves(I, st, P, x, False) for _, x in v]) if v else set()
        want = T("xa", el, K(a))
        bad = [l for l in ls if l is not want]
        rep.ob("accuracy", f"{where}: {a}", not bad and (want in ls or not numeric),
               f"{where}: the {a} of the fact " + (f"come from {sh(bad)}" if bad else f"are never taken from the {a} attribute of its element"), e.loc,
               key=f"accuracy:{key}:{a}")
        if want in ls:
            more = set().union(*[conditions_of(I, st, P, g, el, e.guards) for g, _ in v]) - {a} - (set() if xml else {"tag", "name"})
            rep.ob("accuracy", f"{where}: {a} always", not more, f"{where}: whether the fact gets the {a} of its element depends on the {', '.join(sorted(more))} "
                   "of the element too", e.loc, key=f"accuracy:{key}:{a}:always")
    # context
    for x in {y for _, y in ctx if y.kind != "k"}:
        el2, why = ctx_element(P, I, st, x)
        ok = el2 is not None and el2[0] is el and (el2[1] is None or same_document(el2[1], el))
        rep.ob("context", f"{where}", ok, f"{where}: the context of the fact is {show(x, 4)[:120]}{why}, not the one the contextRef of its element names "
               "in the same document", e.loc, key=f"context:{key}")
        added(rep, P, c, I, st, e, el, x, where, key, xml)


def continued(rep, P, c, I, st):
    n = 0
    for e in I.events:
        if e.kind != "call" or not e.args or not any(a is K("continuedAt") for a in e.args):
            continue
        t = e.recv if e.recv is not None and F.is_doc(P.R(e.recv)) else e.args[0]
        for x, g in F.trace(I, st, P, t):
            if x is NONE or not F.is_doc(x) or names_continuation(T("text", x)):
                continue
            n += 1
            more = conditions_of(I, st, P, list(g) + list(e.guards), x, ()) - {"tag", "continuedAt", "id"}
            rep.ob("continued", f"{c.name}: {e.func.name}", not more, f"{c.name}: {e.func.name} looks for the continuation of an element depending on its {', '.join(sorted(more))}",
                   e.loc, key=f"continued:{c.name}:{e.func.name}")
    if not n:
        rep.ob("continued", f"{c.name}", True, "", "brel:1")


def plain_text(x, el):
    """`text or constant`"""
    return x.kind == "op" and x.args[0] in ("or", "and") and any(y is T("text", el) for y in subterms(x)) and \
        all(y is x or y is T("text", el) or y.kind == "k" or any(y in subterms(z) for z in [T("text", el)]) for y in subterms(x))


def names_continuation(l):
    return any(x.kind == "k" and isinstance(x.args[0], str) and "continuation" in x.args[0] for x in subterms(F.owner(l)))


def continuation(l):
    return names_continuation(l) or not F.is_doc(F.owner(l))


def same_document(base, el):
    """the document searched is the one the element was found in"""
    b = F.base_of(el)
    while b is not None:
        if b is base or (base.kind == "root" and b is base.args[0]) or (b.kind == "root" and b.args[0] is base):
            return True
        b = F.base_of(b)
    return False


def refs(P, t, attr):
    """-> element whose attribute attr alone makes up the lookup key t"""
    xs = [x for x in vals(P.R(t)) if x is not NONE]
    es = {x.args[0] for x in xs if x.kind == "xa" and x.args[1] is K(attr)}
    return next(iter(es)) if len(es) == 1 and all(x.kind == "xa" and x.args[1] is K(attr) for x in xs) else None


def found(P, t, attr):
    """t is the element found by a pattern that contains the attribute -> (element owning the attribute, document searched)"""
    if t.kind != "call" or t.args[0].split(".")[-1] not in F.FIND:
        return None
    rest = (list(t.args[2]) + [v for _, v in t.args[3]])
    base = t.args[1]
    if base is None and rest:
        base, rest = rest[0], rest[1:]
    xs = {x for a in rest for x in subterms(a) if x.kind == "xa"}
    if len(xs) != 1:
        return None
    x = xs.pop()
    return (x.args[0], base) if x.args[1] is K(attr) else None


def ctx_element(P, I, st, x):
    if x.kind == "call" and x.args[0].split(".")[-1] in ("get_context_copy", "get_context", "get") and x.args[2]:
        r = refs(P, x.args[2][0], "contextRef")
        return ((r, None), "") if r is not None else (None, f" (looked up by {show(P.R(x.args[2][0]), 4)[:100]})")
    if x.kind == "new":
        i = F.field(st, P, x, "id") or F.field(st, P, x, "context_id")
        for _, y in i or []:
            if y.kind == "xa" and y.args[1] is K("id"):
                r = found(P, y.args[0], "contextRef")
                return (r, "") if r is not None else (None, f" built from {show(y.args[0], 4)[:100]}")
    return None, ""


def element_of(P, I, st, ctx, ids):
    """the element a fact is built from: the owner of most of what identifies it"""
    cand = [y.args[0] for _, y in ids if y.kind == "xa"]
    for _, x in ctx:
        r, _ = ctx_element(P, I, st, x)
        if r is not None:
            cand.append(r[0])
    return cand[-1] if cand else None


def unit_obj(P, st, x):
    i = F.field(st, P, x, "id") or F.field(st, P, x, "name") or []
    return [y for _, y in i if y.kind == "xa"]


def added(rep, P, c, I, st, e, el, ctx, where, key, xml):
    """the concept and the unit that are added to the context of the fact"""
    seen = {"ConceptCharacteristic": [], "UnitCharacteristic": []}
    for ev in I.events:
        if ev.kind != "call" or not ev.name or not ev.name.split(".")[-1] == "_add_characteristic" or ev.recv is None or not ev.args:
            continue
        if not any(x is ctx for x in vals(P.R(ev.recv))):
            continue
        for a in elements(I, st, P, ev.args[0]):
            if a.kind == "new" and a.args[0].name in seen:
                seen[a.args[0].name].append((a, ev))
            elif a.kind == "call" and len(a.args[2]) > 1 and a.args[0].endswith(".get") and a.args[2][1].kind == "cls" and a.args[2][1].args[0].name in seen:
                seen[a.args[2][1].args[0].name].append((a, ev))
    for a, ev in seen["ConceptCharacteristic"]:
        ls = F.leaves(I, st, P, a, False) if a.kind == "new" else F.leaves(I, st, P, a.args[2][0], False)
        ls = {l for l in ls if not l.kind == "content"}
        ok = bool(ls) and all(l is T("tag", el) or l is T("xa", el, K("name")) for l in ls)
        rep.ob("concept", f"{where}: {a.kind}", ok, f"{where}: the concept of the fact is found by {sh(ls)}, not by the name its element gives", ev.loc,
               key=f"concept:{key}")
    if not seen["ConceptCharacteristic"]:
        rep.ob("concept", where, False, f"{where}: no concept is added to the context of the fact", e.loc, key=f"concept:{key}")
    for a, ev in seen["UnitCharacteristic"]:
        if a.kind == "call":
            r = refs(P, a.args[2][0], "unitRef")
            ok, by = r is el, show(P.R(a.args[2][0]), 4)[:100]
        else:
            us = unit_obj(P, st, a)
            r = {found(P, y.args[0], "unitRef") for y in us}
            by = sh(us)
            ok = bool(us) and all(y.args[1] is K("id") for y in us) and all(q is not None and q[0] is el and same_document(q[1], el) for q in r)
        extra = conditions(I, st, P, ev, a, el, e.guards) - {"unitRef"} - (set() if xml else {"tag", "name"})
        rep.ob("unit", f"{where}: always", not extra, f"{where}: whether the fact gets the unit its element names depends on the {', '.join(sorted(extra))} of the element too",
               ev.loc, key=f"unit:{key}:always")
        rep.ob("unit", f"{where}: {a.kind}", ok, f"{where}: the unit of the fact is {by}, not the one the unitRef of its element names in the same document",
               ev.loc, key=f"unit:{key}")
    if not seen["UnitCharacteristic"]:
        rep.ob("unit", where, False, f"{where}: no unit is added to the context of the fact", e.loc, key=f"unit:{key}")


def conditions_of(I, st, P, g, el, anyway):
    """what of the element the conditions look at, apart from those without which there is no fact"""
    out = set()
    known = {(P.R(cnd).id, b) for cnd, b in anyway}
    for cnd, b in g:
        if (P.R(cnd).id, b) in known:
            continue
        for l in F.leaves(I, st, P, P.R(cnd), True):
            if l.kind == "xa" and l.args[0] is el:
                out.add(l.args[1].args[0] if l.args[1].kind == "k" else "attributes")
            elif l.kind in ("text", "tag", "tail") and F.owner(l) is el:
                out.add(l.kind)
    return out


def conditions(I, st, P, ev, a, el, anyway):
    """what of the element decides whether the characteristic a is among the ones added"""
    best = None
    for x, g in F.trace(I, st, P, ev.args[0]):
        if x is a:
            s = conditions_of(I, st, P, g, el, anyway)
            best = s if best is None or len(s) < len(best) else best
    return (best or set()) | conditions_of(I, st, P, ev.guards, el, anyway)


def elements(I, st, P, t, depth=0):
    out = []
    for x in vals(P.R(t)):
        if x.kind == "elem" and x.args[0].kind in ("list", "set") and depth < 5:
            for en in I.entries(st, x.args[0]):
                out += elements(I, st, P, en[1], depth + 1)
        elif x is not NONE:
            out.append(x)
    return out
