"""C09: a context holds one value per aspect and its views agree."""
import ast
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..prov import Prov
from ..project import AnalysisError
from .. import facts as F
from .. import objs
from . import c07

KINDS = {"PeriodCharacteristic": "period", "EntityCharacteristic": "entity", "ExplicitDimensionCharacteristic": "explicit dimension",
         "TypedDimensionCharacteristic": "typed dimension"}
CORE = {"get_concept": "CONCEPT", "get_period": "PERIOD", "get_entity": "ENTITY", "get_unit": "UNIT"}


def check(p, rep, tier):
    rep.rule("views", "Adding a value to a context adds its aspect to the list of aspects and the value under that aspect, under the same condition.", floor=2)
    rep.rule("once", "A value is added only if the context has no value for its aspect yet.", floor=1)
    rep.rule("lookup", "Looking up an aspect in a context gives the value whose aspect equals the one asked for, and none otherwise.", floor=1)
    rep.rule("core", "The concept, period, entity and unit of a context are the values of the aspect of that name.", floor=4)
    rep.rule("complete", "Period, entity and every explicit and typed dimension of a context element, in its segment as well as its scenario, are added to the context.",
             floor=8)
    rep.rule("own", "What is added to a context comes from its own context element.", floor=8)
    rep.rule("independent", "Whether one part of a context is added does not depend on another part.", floor=4)
    rep.rule("to-the-end", "A loop that adds values to a context is not left before its last element.", floor=0)
    rep.rule("fresh", "What belongs to a fact alone (concept, unit) is added to a context of its own.", floor=2)
    P = Prov()
    context(p, rep, P)
    for c, f, I, st, events in F.runs(p):
        parsed(p, rep, P, c, I, st)
        fresh(p, rep, P, c, I, st)
    copies(p, rep, P)
    to_the_end(p, rep)


def own(body):
    """statements of a loop body, without loops of their own kind below (whose break is not ours) and without nested functions"""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield s, False
        if isinstance(s, (ast.For, ast.While)):
            for x, _ in own(s.body):
                yield x, True
            yield from own(s.orelse)
            continue
        for part in ("body", "orelse", "finalbody"):
            yield from own(getattr(s, part, []) or [])
        for h in getattr(s, "handlers", []) or []:
            yield from own(h.body)
        for k in getattr(s, "cases", []) or []:
            yield from own(k.body)


def to_the_end(p, rep):
    for f in p.all_functions():
        if not f.module.name.startswith("brel.parsers"):
            continue
        for n in p.own_nodes(f):
            if not isinstance(n, (ast.For, ast.While)):
                continue
            calls = [c for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call)]
            adds_ = any(isinstance(c.func, ast.Attribute) and c.func.attr == "_add_characteristic" for c in calls) or any(
                getattr(g, "node", None) is not None and g.module.name.startswith("brel.parsers") and g.node.returns is not None
                and "DimensionCharacteristic" in ast.unparse(g.node.returns) for c in calls for g in p.callees(f, c) if g is not None)
            if not adds_:
                continue
            left = [s for s, inner in own(n.body) if isinstance(s, ast.Return) or isinstance(s, ast.Break) and not inner]
            rep.ob("to-the-end", f"{f.qualname}: loop", not left, f"{f.qualname} leaves the loop that adds values to a context before its last element, so what follows is not added",
                   f.loc(left[0] if left else n), key=f"to-the-end:{f.qualname}")


# --- the class -----------------------------------------------------------------------------------

def context(p, rep, P):
    I = Interp(p)
    c = p.cls("Context")
    add = c.lookup("_add_characteristic")
    if add is None:
        raise AnalysisError("Context._add_characteristic not found")
    st = objs.begin(I, c.module)
    o, _ = objs.construct(I, st, c)
    ic = p.cls("ICharacteristic")
    xs = []
    for n in ("x", "y"):
        t = T("sym", "characteristic", n)
        I.term_by_id[t.id] = t
        I.types[t.id] = {ic.fullname}
        xs.append(t)
        objs.call(I, st, o, "_add_characteristic", [t])
    q = T("sym", "aspect asked for")
    I.term_by_id[q.id] = q
    listed = P.R(objs.call(I, st, o, "get_aspects"))
    looked = P.R(objs.call(I, st, o, "get_characteristic", [q]))
    where = f"{add.fullname}"
    loc = f"{add.module.relpath}:{add.node.lineno}"

    def aspect_of(t):
        """-> the characteristic whose aspect t is"""
        return t.args[1] if t.kind == "call" and t.args[0].split(".")[-1] == "get_aspect" and t.args[1] in xs else None

    def conds(g):
        return {(P.R(cnd).id, b) for cnd, b in g}

    A = {}
    for src in vals(listed):
        for e in I.entries(st, src):
            k = e[1] if e[1] is not None and hasattr(e[1], "kind") else e[0]
            for g, v in alts(P.R(k)):
                x = aspect_of(v)
                if x is None:
                    rep.ob("views", f"{where}: list", False, f"{where} makes the context list {show(v, 4)[:100]} where the aspect of the value belongs", loc, key="views:list")
                else:
                    A.setdefault(x, []).append(e[2] | g)
    C = {}
    for g, v in alts(looked):
        if v is NONE or v.kind == "k":
            continue
        if v not in xs:
            rep.ob("lookup", f"{where}: {show(v, 3)[:60]}", False, f"Context.get_characteristic gives {show(v, 4)[:100]}, which is not a value that was added", loc,
                   key="lookup:value")
            continue
        C.setdefault(v, []).append(g)
        eqs = [cnd for cnd, b in g if b and any(y is q for y in subterms(P.R(cnd)))]
        neg = [cnd for cnd, b in g if not b and any(y is q for y in subterms(P.R(cnd))) and cnd.kind == "op" and cnd.args[0] in ("eq", "is")]
        rep.ob("lookup", f"{where}: {show(v, 3)}", bool(eqs) and not neg, f"Context.get_characteristic gives {show(v, 3)} whatever aspect is asked for", loc,
               key="lookup:unconditional")
    for x in xs:
        a, cc = A.get(x, []), C.get(x, [])
        rep.ob("views", f"{where}: {x.args[1]}", bool(a) == bool(cc) and bool(a),
               f"{where}: after adding a value its aspect is {'listed' if a else 'not listed'} and looking it up gives {'it' if cc else 'nothing'}", loc, key="views:both")
        for g in a:
            ok = any(absent(P, cnd, b, x, xs) for cnd, b in g) or from_dict(I, st, o, listed)
            rep.ob("once", f"{where}: {x.args[1]}", ok, f"{where} adds a value even if the context already has one for its aspect", loc, key="once:aspect")
        if a and cc:
            ca = frozenset().union(*[conds(g) for g in a])
            extra = frozenset.intersection(*[frozenset((P.R(n).id, b) for n, b in g if not any(y is q for y in subterms(P.R(n))) and "empty" not in show(n, 1)) for g in cc]) - ca
            less = {(i, b) for i, b in ca if any(y is x for y in subterms(I.term_by_id.get(i, NONE)))}
            rep.ob("views", f"{where}: {x.args[1]} conditions", not extra, f"{where} adds the value of an aspect under other conditions than the aspect itself", loc,
                   key="views:conditions")
            have = frozenset().union(*[conds(g) for g in cc])
            short = [n for g in a for n, b in g if (P.R(n).id, b) not in have and b and not absent(P, n, b, x, xs, True) and any(y is x for y in subterms(P.R(n)))]
            short = short if all(any((P.R(n).id, b) not in have and n in short for n, b in g) for g in a) else []
            rep.ob("views", f"{where}: {x.args[1]} list conditions", not short, f"{where} lists the aspect of a value under other conditions than the value itself", loc,
                   key="views:conditions")
            dictd = [n for g in a for n, b in g if absent(P, n, b, x, xs)]
            rep.ob("views", f"{where}: {x.args[1]} value conditions", not dictd or all(any(absent(P, n, b, x, xs) and not any(y.kind == "sym" and y.args[0] == "aspect asked for" for y in subterms(P.R(n))) for n, b in g) and not any((n2, not b2) in g for ga in a for n2, b2 in ga if n2 in dictd)
                                                                                                  for g in cc),
                   f"{where} replaces the value of an aspect the context already has while its list of aspects stays", loc, key="views:replace")
    has = c.lookup("has_characteristic")
    if has is not None:
        v = P.R(objs.call(I, st, o, "has_characteristic", [q]))
        tests = [y for y in subterms(v) if y.kind == "op" and any(z is q for z in y.args[1:] if hasattr(z, "kind"))]
        tests += [cnd for g, _ in alts(v) for n, _ in g for cnd in subterms(P.R(n)) if cnd.kind == "op" and any(z is q for z in cnd.args[1:] if hasattr(z, "kind"))]
        flat = {str(y.args[0]) for y in tests}
        rep.ob("lookup", "Context.has_characteristic", not flat or bool(flat & {"eq", "in"}) or "is" not in flat,
               "Context.has_characteristic compares aspects by something else than equality", f"{has.module.relpath}:{has.node.lineno}", key="lookup:has")
    for m, n in CORE.items():
        f = c.lookup(m)
        if f is None:
            raise AnalysisError(f"Context.{m} not found")
        v = P.R(objs.call(I, st, o, m))
        asked = {str(y.args[1]) for g, x in alts(v) for cnd, _ in g for y in subterms(P.R(cnd)) if y.kind == "cv"} | \
                {str(y.args[1]) for y in subterms(v) if y.kind == "cv"}
        if not asked:
            continue
        rep.ob("core", f"Context.{m}", asked == {n}, f"Context.{m} looks up the aspect {', '.join(sorted(asked))}", f"{f.module.relpath}:{f.node.lineno}", key=f"core:{m}")


def absent(P, cnd, b, x, xs, strict=False):
    """the condition says that the aspect of x is not there yet"""
    r = P.R(cnd)
    if strict and not any(y.kind in ("list", "dict", "set", "quant") for y in subterms(r)):
        return False
    if not any(y.kind == "call" and y.args[0].endswith("get_aspect") and y.args[1] is x for y in subterms(r)):
        return False
    return True


def from_dict(I, st, o, listed):
    return any(y.kind == "dict" for y in subterms(listed))


# --- the parsers ---------------------------------------------------------------------------------

def kind_of(x):
    if x.kind == "new":
        return x.args[0].name
    if x.kind == "call" and x.args[0].split(".")[-1].startswith("get") and len(x.args[2]) > 1 and x.args[2][1].kind == "cls":
        return x.args[2][1].args[0].name
    return None


def path(o, el):
    """how an element is reached from el"""
    out = []
    for _ in range(40):
        if o is None or o is el:
            return out
        if o.kind == "phi":
            for x in vals(o):
                out += path(x, el)
            return out
        if o.kind == "call":
            out += [a.args[0] for a in list(o.args[2]) + [v for _, v in o.args[3]] if hasattr(a, "kind") and a.kind == "k" and isinstance(a.args[0], str)]
        o = F.base_of(o)
    return out


def adds(P, I, st):
    for e in I.events:
        if e.kind == "call" and e.name and e.name.split(".")[-1] == "_add_characteristic" and e.recv is not None and e.args:
            yield e, [x for x in vals(P.R(e.recv)) if x is not NONE], [x for x in c07.elements(I, st, P, e.args[0])]


def parsed(p, rep, P, c, I, st):
    per = {}
    for e, recv, args in adds(P, I, st):
        for r in recv:
            if r.kind == "new" and r.args[0].name == "Context":
                per.setdefault(r, []).append((e, args))
    if not per:
        raise AnalysisError(f"{c.name}: no Context is built in a way the analysis can see")
    for ctx, evs in per.items():
        ids = F.field(st, P, ctx, "id") or []
        els = {y.args[0] for _, y in ids if y.kind == "xa"}
        if len(els) != 1:
            continue
        el = els.pop()
        seen = {}
        for e, args in evs:
            for x in args:
                k = KINDS.get(kind_of(x))
                if k is None:
                    continue
                ls = {l for l in (F.leaves(I, st, P, x, False) if x.kind == "new" else F.leaves(I, st, P, x.args[2][0], False)) if F.is_doc(F.owner(l))}
                if not ls:
                    continue
                seen.setdefault(k, []).append((e, x, ls))
                bad = [l for l in ls if not F.within(F.owner(l), el)]
                rep.ob("own", f"{c.name}: {k}", not bad, f"{c.name}: the {k} of a context comes from {', '.join(sorted(show(l, 4)[:100] for l in bad))}, outside of its element",
                       e.loc, key=f"own:{c.name}:{k}")
        for k in KINDS.values():
            got = seen.get(k, [])
            where = f"{c.name}: {k}"
            loc = evs[0][0].loc
            rep.ob("complete", where, bool(got), f"{c.name}: the {k} of a context element is never added to its context", loc, key=f"complete:{c.name}:{k}")
            if got and "dimension" in k:
                ps = {s for _, _, ls in got for l in ls for s in path(F.owner(l), el)}
                for part in ("segment", "scenario"):
                    rep.ob("complete", f"{where} in the {part}", any(part in s for s in ps) or any("descendant" in s or s.startswith(".//") for s in ps),
                           f"{c.name}: an {k} in the {part} of a context element is never added to its context", got[0][0].loc, key=f"complete:{c.name}:{k}:{part}")
            for e, x, _ in got:
                other = {n for cnd, b in e.guards for n in mentioned(P, cnd) if n != k and KINDS_INV(n)}
                rep.ob("independent", where, not other, f"{c.name}: the {k} is added to a context depending on the {', '.join(sorted(other))}", e.loc,
                       key=f"independent:{c.name}:{k}")
                if "dimension" in k:
                    ex = exclusive(P, I, st, e, el)
                    rep.ob("independent", f"{where}: parts", not ex, f"{c.name}: {k}s in the {ex or ''} are left out of the context", e.loc,
                           key=f"independent:{c.name}:{k}:parts")


def KINDS_INV(n):
    return n in KINDS.values()


def mentioned(P, cnd):
    out = set()
    for y in subterms(P.R(cnd)):
        k = KINDS.get(kind_of(y))
        if k:
            out.add(k)
    # a condition about several kinds at once is about none in particular only if it is the very value added
    return out if len(out) == 1 else set()


def exclusive(P, I, st, e, el):
    """segment taken only if there is no scenario, or the other way round"""
    seen = set()

    def parts(t):
        return {w for y in subterms(P.R(t)) if y.kind == "call" and y.args[0].split(".")[-1] in F.FIND
                for a in list(y.args[2]) if hasattr(a, "kind") and a.kind == "k" and isinstance(a.args[0], str) for w in ("segment", "scenario") if w in a.args[0]}

    def test(g, x):
        mine = parts(x)
        if len(mine) != 1:
            return None
        for cnd, b in g:
            o = parts(cnd)
            if o and not (o & mine):
                return f"{next(iter(mine))} of a context that also has a {next(iter(o))}"
        return None

    def go(t):
        if t is None or not hasattr(t, "kind") or t.id in seen:
            return None
        seen.add(t.id)
        if t.kind == "phi":
            for g, x in t.args[0]:
                r = test(g, x) or go(x)
                if r:
                    return r
            return None
        if t.kind in ("list", "set", "dict"):
            for en in I.entries(st, t):
                for x in en[:2]:
                    if hasattr(x, "kind"):
                        r = test(en[2], x) or go(x)
                        if r:
                            return r
            return None
        for y in children_of(t):
            r = go(y)
            if r:
                return r
        return None
    return go(e.args[0])


def children_of(t):
    from ..vf import children
    return children(t, False)


def fresh(p, rep, P, c, I, st):
    for e, recv, args in adds(P, I, st):
        ks = {kind_of(x) for x in args} & {"ConceptCharacteristic", "UnitCharacteristic"}
        if not ks:
            continue
        for r in recv:
            if r.kind == "new":
                loops = I.alloc_loops.get(r.id, ()) if hasattr(I, "alloc_loops") else ()
                ok = bool(loops)
                why = "a context built once for all facts"
            elif r.kind == "copy":
                ok, why = r.args[1] == "deepcopy", "a shallow copy of a context"
            elif r.kind == "call":
                n = r.args[0].split(".")[-1]
                if not n.startswith("get"):
                    continue
                ok, why = "copy" in n or not r.args[0].split(".")[-2].endswith("Repository"), "the stored context itself"
            else:
                continue
            rep.ob("fresh", f"{c.name}: {e.func.name}", ok, f"{c.name}: {e.func.name} adds the concept or unit of a fact to {why}", e.loc, key=f"fresh:{c.name}:{e.func.name}")


def copies(p, rep, P):
    """what a store hands out as a copy is one, down to what the context holds"""
    base = p.cls("ContextRepository")
    for cl in objs.concrete_subclasses(p, "ContextRepository"):
        I = Interp(p)
        st = objs.begin(I, cl.module)
        o, _ = objs.construct(I, st, cl)
        x = T("sym", "context", "stored")
        I.term_by_id[x.id] = x
        I.types[x.id] = {p.cls("Context").fullname}
        objs.call(I, st, o, "insert_context", [x])
        k = T("sym", "id asked for")
        I.term_by_id[k.id] = k
        f = cl.lookup("get_context_copy")
        v = P.R(objs.call(I, st, o, "get_context_copy", [k]))
        for y in vals(v):
            if y is NONE or y.kind == "k":
                continue
            if y.kind == "copy":
                ok = y.args[1] == "deepcopy"
            elif y.kind == "new":
                ok = not any(z.kind in ("list", "dict", "attr") and z.args and z.args[0] is x for n in [v for (i, n), v in st.heap.items() if i == y.id] for z in vals(n))
            else:
                ok = False
            rep.ob("fresh", f"{cl.name}.get_context_copy", ok, f"{cl.name}.get_context_copy hands out {show(y, 3)[:100]}: what is added for one fact shows up for the others",
                   f"{f.module.relpath}:{f.node.lineno}", key=f"fresh:{cl.name}:copy")
