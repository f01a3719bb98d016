"""C25: equality and hashing agree and cover what identifies a value."""
import ast
from ..vf import Interp, T, K, alts, vals, show, subterms, TRUE, FALSE
from ..prov import ev3, under
from ..project import AnalysisError
from .. import objs
from .c26 import contents, field_name

# class -> what identifies a value: groups of constructor parameters / fields, of each group at least one must be compared
IDENTITY = {
    "QName": [{"uri"}, {"local_name"}],
    "Aspect": [{"name"}],
    "EntityCharacteristic": [{"entity_id"}, {"scheme"}],
    "PeriodCharacteristic": [{"instant_date"}, {"start_date"}, {"end_date"}],      # see KIND
    "ExplicitDimensionCharacteristic": [{"dimension", "aspect"}, {"member"}],
    "TypedDimensionCharacteristic": [{"dimension", "aspect"}, {"value"}],
    "UnitCharacteristic": [{"name"}, {"numerators"}, {"denominators"}],
    "Concept": [{"name"}],
    "Context": [{"context_id"}],
}
# fields that say which of the components apply: component -> {field: value}
KIND = {"PeriodCharacteristic": {"instant_date": {"is_instant": True}, "start_date": {"is_instant": False}, "end_date": {"is_instant": False}}}
NOT_IDENTITY = {"QName": {"prefix"}}


def dataclass_info(c):
    """(eq on, hash on, fields compared, fields hashed) of a dataclass"""
    opts = {}
    for d in c.node.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        if (isinstance(n, ast.Name) and n.id == "dataclass") or (isinstance(n, ast.Attribute) and n.attr == "dataclass"):
            if isinstance(d, ast.Call):
                opts = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
    eq = opts.get("eq", True)
    hashed = opts.get("unsafe_hash", False) or (eq and opts.get("frozen", False))
    cmp_, hsh, allf = [], [], []
    for s in c.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if "ClassVar" in ast.dump(s.annotation):
                continue
            kw = {}
            if isinstance(s.value, ast.Call) and getattr(s.value.func, "id", getattr(s.value.func, "attr", "")) == "field":
                kw = {k.arg: k.value.value for k in s.value.keywords if isinstance(k.value, ast.Constant)}
            allf.append(s.target.id)
            if kw.get("compare", True):
                cmp_.append(s.target.id)
            h = kw.get("hash")
            if h is None:
                h = kw.get("compare", True)
            if h:
                hsh.append(s.target.id)
    return eq, hashed, cmp_, hsh, allf


def make(I, st, c, tag):
    o, syms = objs.construct(I, st, c, tag=tag)
    if not syms:
        for (oid, f), v in list(st.heap.items()):
            if oid == o.id and not f.startswith("#"):
                s = T("sym", tag, c.name, field_name(f))
                st.heap[(oid, f)] = s
                syms[field_name(f)] = s
    return o, syms


def names(I, st, t, syms):
    inv = {s.id: n for n, s in syms.items()}
    return {inv[x.id] for x in contents(I, st, t, True) if x.id in inv}


def check(p, rep, tier):
    rep.rule("covers", "Equality is false as soon as one of the components that identify the value differs, and true when all of them agree.", floor=10)
    rep.rule("pairs", "Each comparison in an equality compares the same property of the two values.", floor=6)
    rep.rule("othertype", "Comparing with a value of another type never touches that value's members and does not answer 'equal'.", floor=6)
    rep.rule("hash", "The hash is computed only from what equality compares.", floor=2)
    rep.assume("comparison of the components themselves (strings, dates, QNames) is by value")
    seen = set()
    for c in sorted(p.classes.values(), key=lambda c: c.fullname):
        f = c.methods.get("__eq__")
        loc = f.loc() if f else f"{c.module.relpath}:{c.node.lineno}"
        if f is None and c.is_dataclass and c.node.decorator_list:
            eq, hashed, cmp_, hsh, allf = dataclass_info(c)
            if not eq and c.name in IDENTITY:
                rep.ob("covers", f"{c.name}", False, f"{c.name} is not compared by value", loc, key=f"covers:{c.name}:none")
                seen.add(c.name)
                continue
            if not eq:
                continue
            seen.add(c.name)
            for grp in IDENTITY.get(c.name, []):
                rep.ob("covers", f"{c.name}: {'/'.join(sorted(grp))}", bool(grp & set(cmp_)),
                       f"equality of {c.name} ignores {' and '.join(sorted(grp))}", loc, key=f"covers:{c.name}:{'/'.join(sorted(grp))}")
            for n in NOT_IDENTITY.get(c.name, ()):
                rep.ob("covers", f"{c.name}: not {n}", n not in cmp_, f"two {c.name}s that differ only in their {n} are not equal", loc,
                       key=f"covers:{c.name}:not {n}")
            hm = c.methods.get("__hash__")
            if hm is None:
                rep.ob("hash", c.name, set(hsh) <= set(cmp_) or not hashed, f"the hash of {c.name} is made of {sorted(set(hsh) - set(cmp_))}, which equality ignores",
                       loc, key=f"hash:{c.name}")
            else:
                hash_of(p, rep, c, set(cmp_), hm)
            continue
        if f is None:
            if c.name in IDENTITY and c.lookup("__eq__") is None:
                rep.ob("covers", f"{c.name}", False, f"{c.name} is not compared by value", loc, key=f"covers:{c.name}:none")
                seen.add(c.name)
            hm = c.methods.get("__hash__")
            if hm is not None and c.lookup("__eq__") is None:
                rep.ob("hash", c.name, True)
            continue
        seen.add(c.name)
        I = Interp(p)
        I.inline_str = True
        st = objs.begin(I, c.module)
        a, sa = make(I, st, c, "a")
        b, sb = make(I, st, c, "b")
        v = objs.call(I, st, a, "__eq__", [b])
        def kindfacts(kind):
            def facts(t):
                for n, val in kind.items():
                    if (n in sa and t is sa[n]) or (n in sb and t is sb[n]):
                        return val
                return None
            return facts

        def data(ts, syms):
            return {n for t in ts for n in names(I, st, t, syms)}

        atoms = [x for x in contents(I, st, v, True) if x.kind == "op" and x.args[0] in ("eq", "ne", "is", "isnot") and len(x.args) == 3]
        compared = set()

        def sides(x, kind):
            """the properties of either value that x compares"""
            l, r = under(x.args[1], kindfacts(kind)), under(x.args[2], kindfacts(kind))
            na, nb = data(l, sa), data(r, sb)
            if not na and not nb:
                na, nb = data(r, sa), data(l, sb)
            return na, nb
        for x in atoms:
            for kind in ({}, *KIND.get(c.name, {}).values()):
                na, nb = sides(x, kind)
                if na and nb:
                    compared |= na & nb
                    rep.ob("pairs", f"{c.name}: {'/'.join(sorted(na))}", na == nb,
                           f"equality of {c.name} compares {' and '.join(sorted(na))} of one value with {' and '.join(sorted(nb))} of the other", loc,
                           key=f"pairs:{c.name}:{'/'.join(sorted(na))}")

        def outcome(differing, kind):
            kf = kindfacts(kind)

            def facts(t):
                if t.kind == "op" and t.args[0] in ("eq", "ne", "is", "isnot") and len(t.args) == 3:
                    na, nb = sides(t, kind)
                    if na and nb:
                        same = not (na & differing)
                        return same if t.args[0] in ("eq", "is") else not same
                if t.kind == "call" and t.args[0].split(".")[-1] == "isinstance":
                    return True
                return kf(t)
            return {ev3(x, facts) for x in under(v, facts)}
        rep.saw("equalities", c.fullname)
        for grp in IDENTITY.get(c.name, []):
            g = "/".join(sorted(grp))
            kind = next((KIND.get(c.name, {}).get(n) for n in grp), None) or {}
            r = outcome(grp, kind)
            rep.ob("covers", f"{c.name}: {g}", bool(grp & compared) and r == {False},
                   f"two values of {c.name} that differ in {g} can be equal" + ("" if grp & compared else f" ({g} is not compared)"), loc, key=f"covers:{c.name}:{g}")
        if c.name in IDENTITY:
            r = set()
            for kind in KIND.get(c.name, {}).values() or ({},):
                r |= outcome(set(), kind)
            rep.ob("covers", f"{c.name}: equal when all agree", r == {True}, f"two values of {c.name} that agree in all components need not be equal", loc,
                   key=f"covers:{c.name}:all")
        for n in NOT_IDENTITY.get(c.name, ()):
            rep.ob("covers", f"{c.name}: not {n}", n not in compared, f"two {c.name}s that differ only in their {n} are not equal", loc, key=f"covers:{c.name}:not {n}")
        # values of other types
        I2 = Interp(p)
        st2 = objs.begin(I2, c.module)
        a2, _ = make(I2, st2, c, "a")
        other = T("sym", "other", c.name, "other")
        I2.term_by_id[other.id] = other
        n0 = len(I2.events)
        v2 = objs.call(I2, st2, a2, "__eq__", [other])
        bad = []
        for e in I2.events[n0:]:
            if e.recv is other and e.kind in ("call", "getattr") and not typed(e.guards, other, c):
                bad.append(e.name)
        for g, x in alts(v2):
            for y in subterms(x):
                if y.kind in ("attr", "idx") and y.args[0] is other and not typed(g, other, c) and not typed_within(x, other, c):
                    bad.append(str(y.args[1]))
                if y.kind == "call" and y.args[1] is other and not typed(g, other, c) and not typed_within(x, other, c):
                    bad.append(y.args[0])

        def nottype(t):
            if is_typetest(t, other):
                return False
            return None
        res = {ev3(x, nottype) for x in under(v2, nottype)}
        kinds = [x for x in under(v2, nottype)]
        okres = all(ev3(x, nottype) is False or "NotImplemented" in show(x) for x in kinds) and kinds
        rep.ob("othertype", c.name, not bad and okres,
               f"comparing a {c.name} with a value of another type " + (f"uses its member {bad[0]}" if bad else "does not answer 'not equal'"), loc, key=f"othertype:{c.name}")
        hm = c.methods.get("__hash__")
        if hm is not None:
            hash_of(p, rep, c, compared, hm)
        else:
            rep.ob("hash", f"{c.name} (not hashable)", True)
    for n in IDENTITY:
        if n not in seen and p.maybe_cls(n) is None:
            raise AnalysisError(f"class {n} not found")


def is_typetest(t, other):
    s = t
    if s.kind == "call" and s.args[0].split(".")[-1] in ("isinstance", "type", "issubclass") and any(x is other for x in s.args[2]):
        return True
    if s.kind == "isinst" and s.args[0] is other:
        return True
    if s.kind == "op" and s.args[0] in ("isinstance", "isinst", "eq", "is") and any(getattr(x, "kind", "") and (x is other or (x.kind == "call" and x.args[0] == "type" and other in x.args[2])) for x in s.args[1:]):
        return True
    return False


def narrows(t, other, c):
    """a type test that leaves only values of the class itself"""
    if not is_typetest(t, other):
        return False
    if t.kind == "op" and t.args[0] == "isinstance":
        return all(x.kind != "cls" or x.args[0].is_subclass_of(c) for x in vals(t.args[2]))
    return True


def typed(gs, other, c):
    return any(pol and narrows(t, other, c) for t, pol in gs) or \
        any(pol and narrows(y, other, c) for t, pol in gs if t.kind == "op" and t.args[0] == "and" for y in t.args[1:])


def typed_within(x, other, c):
    """'isinstance(other, C) and ...': the test comes before the use"""
    return x.kind == "op" and x.args[0] == "and" and narrows(x.args[1], other, c)


def hash_of(p, rep, c, compared, hm):
    I = Interp(p)
    st = objs.begin(I, c.module)
    a, sa = make(I, st, c, "a")
    v = objs.call(I, st, a, "__hash__")
    used = names(I, st, v, sa)
    extra = used - compared
    ident = any(x.kind == "call" and x.args[0].split(".")[-1] == "id" for x in subterms(v))
    rep.ob("hash", c.name, not extra and not ident, f"the hash of {c.name} is made of {sorted(extra) or 'its identity'}, which equality ignores", hm.loc(),
           key=f"hash:{c.name}")
