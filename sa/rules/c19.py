"""C19: every inline value format has a working, matching rule.

The tables are read as data (constants of the source, no code of brel runs); the texts a pattern accepts are enumerated from
the parsed regular expression. Tables are recognised by what they hold, not by their names."""
from __future__ import annotations
import ast
import re
import unicodedata
from ..project import AnalysisError
from ..strings import arguments, bindings, texts
from ..month_names import MONTHS
from ..formats import Unknown, data, module_tables, pattern_groups, pattern_language, charset, first_ambiguity

PARTS = ("day", "month", "year")
FIXED = {"empty": "", "false": "false", "true": "true", "zero": "0"}


def tokens(fmt):
    """the parts of a date in the order the name of its format lists them"""
    body = fmt.split(":", 1)[-1]
    return [t for t in re.findall(r"era|year|month|day", body)]


def kind_of(table):
    """what a table of constants is for"""
    if not isinstance(table, dict) or not table:
        return None
    ks, vs = list(table), list(table.values())
    strs = all(isinstance(k, str) for k in ks)
    if strs and all(k.startswith("ixt:") for k in ks):
        if all(isinstance(v, str) and v.startswith("ixt:") for v in vs):
            return "legacy"
        if all(isinstance(v, str) and "(" in v for v in vs):
            return "dates" if any(k.startswith("ixt:date") for k in ks) else "numbers"
        if all(isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v) for v in vs):
            return "orders"
        if all(isinstance(v, str) for v in vs) and any("fixed" in k for k in ks):
            return "literals"
    if all(k is None or isinstance(k, str) for k in ks) and all(isinstance(v, (list, tuple)) and v and all(isinstance(x, (list, tuple, set, frozenset)) and all(isinstance(y, str) for y in x) for x in v) for v in vs):
        return "months"
    if strs and all(len(k) == 1 and not k.isascii() and isinstance(v, str) and len(v) == 1 and v.isdigit() for k, v in table.items()):
        return "digits"
    if strs and all(isinstance(v, (list, tuple)) and len(v) == 2 and all(isinstance(d, tuple) and d[:1] == ("call",) and "date" in d[1] for d in v) for v in vs):
        return "eras"
    return None


def find_tables(p):
    """kind -> [(module, name or None, node, table)] of every module-level or local constant table"""
    out = {}
    for m in p.modules.values():
        seen = set()
        for name, node, table in module_tables(p, m):
            k = kind_of(table)
            seen.add(id(node))
            if k:
                out.setdefault(k, []).append((m, name, node, table))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict) and n.keys and id(n) not in seen:
                try:
                    t = data(p, m, n)
                except Unknown:
                    continue
                k = kind_of(t)
                if k == "digits" or k == "literals":
                    out.setdefault(k, []).append((m, None, n, t))
    return out


def loc(m, node):
    return f"{m.relpath}:{node.lineno}"


def users(p, tables, kind):
    """functions that mention a table of the kind by name"""
    names = {n for _, n, _, _ in tables.get(kind, []) if n}
    out = []
    for f in p.all_functions():
        if any(isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in names and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
            out.append(f)
    return out


def near(p, fs):
    """the functions, what they call and what calls them"""
    out = list(fs)
    for f in fs:
        for c in p.calls_in(f):
            out += [g for g in p.callees(f, c) if g is not None and hasattr(g, "node")]
    names = {f.name for f in fs}
    for g in p.all_functions():
        for c in p.calls_in(g):
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
            if nm in names:
                out.append(g)
    return out


# ---- conditions on the name of a format ----

def truth(p, f, e, parts, depth=0):
    """is the condition true for formats with exactly these parts? None when it cannot be told"""
    if depth > 12:
        return None
    go = lambda x: truth(p, f, x, parts, depth + 1)
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = go(e.operand)
        return None if v is None else not v
    if isinstance(e, ast.BoolOp):
        vs = [go(v) for v in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.left, ast.Constant) and e.left.value in PARTS and isinstance(e.comparators[0], ast.Name):
        v = e.left.value in parts
        return v if isinstance(e.ops[0], ast.In) else not v
    if isinstance(e, ast.Name):
        if any(q[0] == e.id for q in f.params):
            got = {truth(p, g, v, parts, depth + 1) for g, v in arguments(p, f, e.id) or []}
            return got.pop() if len(got) == 1 else None
        bs = bindings(p, f, e.id)
        return go(bs[0]) if len(bs) == 1 else None
    return None


def parts_list(p, f, e, parts, depth=0):
    if depth > 8:
        raise Unknown
    go = lambda x: parts_list(p, f, x, parts, depth + 1)
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.append(x.value)
            elif isinstance(x, ast.Starred):
                out += go(x.value)
            else:
                raise Unknown
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return go(e.left) + go(e.right)
    if isinstance(e, ast.IfExp):
        t = truth(p, f, e.test, parts)
        if t is None:
            raise Unknown
        return go(e.body if t else e.orelse)
    if isinstance(e, ast.Name):
        bs = bindings(p, f, e.id)
        if len(bs) == 1:
            return go(bs[0])
    raise Unknown


def returns(p, f, body, parts):
    """(return statements reached for formats with these parts, whether the end may be reached)"""
    out = []
    for s in body:
        if isinstance(s, ast.Return):
            out.append(s)
            return out, False
        if isinstance(s, ast.Raise):
            return out, False
        if isinstance(s, ast.If):
            t = truth(p, f, s.test, parts)
            ends = []
            for branch, v in ((s.body, True), (s.orelse, False)):
                if t is None or t is v:
                    r, end = returns(p, f, branch, parts)
                    out += r
                    ends.append(end)
            if not any(ends):
                return out, False
        elif isinstance(s, (ast.With, ast.For, ast.While)):
            out += returns(p, f, s.body, parts)[0]
        elif isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                out += returns(p, f, b, parts)[0]
    return out, True


def shown(e):
    """the parts an f-string of subscripts shows and the text between, None for other expressions"""
    if not isinstance(e, ast.JoinedStr):
        return None
    seq, text = [], []
    for v in e.values:
        if isinstance(v, ast.Constant):
            text.append(v.value)
        elif isinstance(v.value, ast.Subscript) and isinstance(v.value.slice, ast.Constant) and v.value.slice.value in PARTS and v.conversion == -1 and v.format_spec is None:
            seq.append(v.value.slice.value)
            text.append(None)
        else:
            return None
    return (seq, text) if seq else None


# ---- dictionaries handed from function to function ----

def built(p, f, name, before=None, depth=0):
    """constant keys that may be in the dictionary `name` of f; Unknown when it may hold others"""
    keys = set()
    if depth > 4:
        raise Unknown
    bs = bindings(p, f, name)
    if not bs:
        raise Unknown
    for b in bs:
        if isinstance(b, ast.Dict):
            for k, v in zip(b.keys, b.values):
                if k is None and isinstance(v, ast.Name) and v.id == name:
                    continue
                if k is None or not isinstance(k, ast.Constant):
                    raise Unknown
                keys.add(k.value)
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "dict" and not b.args:
            keys |= {k.arg for k in b.keywords if k.arg}
        elif isinstance(b, ast.Call):
            gs = [g for g in p.callees(f, b) if g is not None and hasattr(g, "node")]
            if len(gs) != 1:
                raise Unknown
            keys |= returned(p, gs[0], depth + 1, b, f, name)
        else:
            raise Unknown
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
            if not isinstance(n.slice, ast.Constant):
                raise Unknown
            keys.add(n.slice.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.func.attr in ("update", "setdefault", "__setitem__"):
            raise Unknown
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            raise Unknown
    return keys


def returned(p, g, depth=0, call=None, f=None, name=None):
    """constant keys of the dictionaries g returns (a parameter passed through adds what g stores in it)"""
    keys = set()
    rs = [n.value for n in p.own_nodes(g) if isinstance(n, ast.Return)]
    if not rs:
        raise Unknown
    for r in rs:
        if isinstance(r, ast.Name):
            if any(q[0] == r.id for q in g.params):
                if bindings(p, g, r.id):
                    raise Unknown
                i = [q[0] for q in g.params].index(r.id)
                if call is None or i >= len(call.args):
                    raise Unknown
                a = call.args[i]
                if isinstance(a, ast.Name) and a.id == name:
                    pass
                elif isinstance(a, ast.Dict):
                    for k, v in zip(a.keys, a.values):
                        if k is None and isinstance(v, ast.Name) and v.id == name:
                            continue
                        if not isinstance(k, ast.Constant):
                            raise Unknown
                        keys.add(k.value)
                else:
                    raise Unknown
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == r.id:
                        if not isinstance(n.slice, ast.Constant):
                            raise Unknown
                        keys.add(n.slice.value)
            else:
                keys |= built(p, g, r.id, depth=depth)
        elif isinstance(r, ast.Dict) and all(isinstance(k, ast.Constant) for k in r.keys):
            keys |= {k.value for k in r.keys}
        else:
            raise Unknown
    return keys


def reads(p, f, name, depth=0, seen=(), after=0):
    """[(key, node, function, asked first)] read from the dictionary `name` of f, there or in what it is handed to"""
    out = []
    if depth > 3 or (f, name) in seen:
        return out
    seen = seen + ((f, name),)
    for n in p.own_nodes(f):
        if getattr(n, "lineno", 0) <= after:
            continue
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.slice, ast.Constant):
            out.append((n.slice.value, n, f, False))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.left, ast.Constant) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == name:
            out.append((n.left.value, n, f, True))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.args and isinstance(n.args[0], ast.Constant):
            out.append((n.args[0].value, n, f, True))
        elif isinstance(n, ast.Call):
            for i, a in list(enumerate(n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if isinstance(a, ast.Name) and a.id == name:
                    for g in p.callees(f, n):
                        if g is None or not hasattr(g, "node"):
                            continue
                        qs = [q[0] for q in g.params]
                        if isinstance(i, int) and i < len(qs):
                            out += reads(p, g, qs[i], depth + 1, seen)
                        elif isinstance(i, str) and i in qs:
                            out += reads(p, g, i, depth + 1, seen)
    return out


def in_try(f, node):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and n.handlers and any(x is node for s in n.body for x in ast.walk(s)):
            return True
    return False


def check(p, rep, tier):
    rep.rule("legacy", "a legacy format is mapped to an existing format with the same parts in the same order", floor=3)
    rep.rule("order", "the parts are read in the order the name of the format lists them", floor=3)
    rep.rule("groups", "a pattern captures every part, each in a group of its own that fits the part", floor=3)
    rep.rule("months", "every month a pattern accepts is in exactly one of the twelve months of its language", floor=3)
    rep.rule("tables", "every table of months has twelve months and no name twice", floor=1)
    rep.rule("eras", "every era a pattern accepts has a period, and the periods follow each other", floor=0)
    rep.rule("digits", "every digit a pattern accepts is translated to its value", floor=1)
    rep.rule("numbers", "the decimal separator is the one the format names; everything else that is accepted is removed", floor=1)
    rep.rule("literals", "a fixed format yields the value in its name", floor=0)
    rep.rule("iso", "a date is written year first, month, day, with the parts its format has", floor=0)
    rep.rule("mapped", "a format is compared with the name it has at that point", floor=1)
    rep.rule("parts", "a part that is read was put there before", floor=0)
    rep.rule("length", "lengths are taken of values, not of constants", floor=0)
    rep.rule("zeros", "removing zeros leaves a zero a zero and a whole number whole", floor=0)
    T = find_tables(p)
    for k in ("dates", "months", "legacy", "numbers"):
        if k not in T:
            raise AnalysisError(f"no table of {k} of inline formats found")
    merged = lambda k: {a: (b, m, n) for m, nm, n, t in T.get(k, []) for a, b in t.items()}
    dates, numbers, legacy, orders, months = (merged(k) for k in ("dates", "numbers", "legacy", "orders", "months"))
    literal = {"ixt:fixed-" + k for k in FIXED}

    # -- tables of months
    low = any(isinstance(n, ast.Attribute) and n.attr in ("lower", "casefold") for f in near(p, users(p, T, "months")) for n in ast.walk(f.node))
    names = {}
    for cc, (ms, m, node) in months.items():
        rep.ob("tables", f"months {cc}", len(ms) == 12, f"the table of months for {cc!r} has {len(ms)} months", loc(m, node), f"C19-tables:{cc}")
        at = {}
        for i, alts in enumerate(ms):
            for a in alts:
                at.setdefault(a, set()).add(i + 1)
        for a, where in sorted(at.items()):
            if len(where) > 1:
                rep.ob("tables", f"months {cc} {a}", False, f"{a!r} is a name of months {sorted(where)} in the table for {cc!r}", loc(m, node), f"C19-tables:{cc}:{a}")
        names[cc] = {a: min(w) for a, w in at.items()}
        for i, forms in enumerate(MONTHS[cc].split(" | ") if cc in MONTHS else []):
            for a in forms.split():
                if a in names[cc] and len(ms) == 12:
                    rep.ob("tables", f"months {cc} {a} means", names[cc][a] == i + 1, f"{a!r} is month {i + 1} in {cc!r}, but the table says {names[cc][a]}", loc(m, node), f"C19-tables:{cc}:{a}:means")

    # -- digits
    digit_maps = [t for _, _, _, t in T.get("digits", [])]
    for m, nm, node, t in T.get("digits", []):
        for c, v in t.items():
            d = unicodedata.digit(c, None)
            rep.ob("digits", f"{hex(ord(c))}", d is None or str(d) == v, f"the digit {c!r} is {d}, but translated to {v!r}", loc(m, node), f"C19-digits:{hex(ord(c))}")
    known = {c: v for t in digit_maps for c, v in t.items()}
    translated = bool(known)

    def norm(s):
        s = "".join(known.get(c, c) for c in s)
        return s.lower() if low else s

    # -- the order the parts are read in
    default = {}
    readers = [f for f in users(p, T, "orders")]
    rebound = []
    for f in readers:
        names_o = {n for _, n, _, _ in T.get("orders", []) if n}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id in names_o for x in ast.walk(n.value)):
                v = n.targets[0].id
                if isinstance(n.value, ast.Call) and len(n.value.args) == 2:
                    rebound.append((f, n.value.args[1]))
                if isinstance(n.value, ast.BoolOp):
                    rebound.append((f, n.value.values[-1]))
                if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v and x.func.attr in ("append", "insert", "extend", "remove", "pop") or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v for x in ast.walk(f.node)):
                    rebound += [(f, b) for b in bindings(p, f, v) if b is not n.value]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "group" and len(n.args) == 1:
                a = n.args[0]
                off, var = (a.right.value, a.left) if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and isinstance(a.right, ast.Constant) else (0, a)
                if isinstance(var, ast.Name):
                    for lp in ast.walk(f.node):
                        if isinstance(lp, (ast.For, ast.comprehension)) and isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Name) and lp.iter.func.id == "enumerate" and isinstance(lp.target, ast.Tuple) and isinstance(lp.target.elts[0], ast.Name) and lp.target.elts[0].id == var.id:
                            st = lp.iter.args[1] if len(lp.iter.args) > 1 else next((k.value for k in lp.iter.keywords if k.arg == "start"), None)
                            st = 0 if st is None else st.value if isinstance(st, ast.Constant) else None
                            if st is not None:
                                rep.ob("order", f"{f.qualname} group", st + off == 1, f"{f.qualname} reads the first part from group {st + off} of the match", f.loc(n), f"C19-order:{f.qualname}:group")
    for parts in (("day", "month", "year"), ("day", "month"), ("month", "year")):
        for f, e in rebound:
            try:
                default[frozenset(parts)] = parts_list(p, f, e, parts)
            except Unknown:
                pass
    for fmt, (order, m, node) in sorted(orders.items()):
        if fmt not in dates:
            rep.ob("order", f"{fmt} exists", False, f"{fmt} has an order of parts, but no pattern", loc(m, node), f"C19-order:{fmt}:nopattern")
    for fmt, (pat, m, node) in sorted(dates.items()):
        toks = tokens(fmt)
        where = loc(m, node)
        try:
            gs = pattern_groups(pat)
        except Exception as ex:
            rep.ob("groups", fmt, False, f"the pattern of {fmt} is not a regular expression: {ex}", where, f"C19-groups:{fmt}:syntax")
            continue
        used = list(orders[fmt][0]) if fmt in orders else default.get(frozenset(toks))
        if used is not None:
            rep.ob("order", fmt, used == toks, f"{fmt} is read as {', '.join(used)}", loc(*orders[fmt][1:]) if fmt in orders else where, f"C19-order:{fmt}")
        named = {g.name for g in gs if g.name}
        if named:
            rep.ob("groups", f"{fmt} named", set(toks) <= named | {"monthname"} or not named & set(PARTS), f"the pattern of {fmt} names the groups {sorted(named)}", where, f"C19-groups:{fmt}:names")
            byname = {g.name: g for g in gs if g.name}
            slots = [(t, byname.get(t)) for t in toks]
        else:
            rep.ob("groups", f"{fmt} count", len(gs) >= len(toks), f"the pattern of {fmt} captures {len(gs)} texts for {len(toks)} parts", where, f"C19-groups:{fmt}:count")
            slots = [(t, gs[i] if i < len(gs) else None) for i, t in enumerate(toks)]
        for t, g in slots:
            if g is None:
                continue
            rep.ob("groups", f"{fmt} {t} nested", g.parent is None, f"in the pattern of {fmt} the text read as {t} is a piece of another group", where, f"C19-groups:{fmt}:{t}:nested")
            L = pattern_language(g.sub, witness=t == "month")
            if L is None:
                continue
            if t in ("day", "year"):
                bad = sorted(x for x in L if not norm(x).isdecimal() and not (t == "year" and x == "元"))
                bad += sorted(x for x in L if norm(x).isdecimal() and not norm(x).isascii())
                rep.ob("digits" if bad and bad[0].isdigit() else "groups", f"{fmt} {t}", not bad, f"the text {fmt} reads as {t} may be {bad[:3]}, which is no number" if bad else "", where, f"C19-groups:{fmt}:{t}")
                if t == "day" and not bad:
                    miss = [i for i in range(1, 32) if str(i) not in {norm(x) for x in L}]
                    rep.ob("groups", f"{fmt} days", not miss, f"the pattern of {fmt} has no day {miss[:3]}", where, f"C19-groups:{fmt}:days")
                if t == "year" and not bad and "era" not in toks:
                    ls = {len(x) for x in L}
                    rep.ob("groups", f"{fmt} years", 4 in ls, f"the pattern of {fmt} accepts no year of four digits", where, f"C19-groups:{fmt}:years")
            elif t == "month":
                named_m = "monthname" in fmt
                cc = "roman" if "monthroman" in fmt else fmt[-2:] if named_m and fmt[-3:-2] == "-" else None
                if cc not in months:
                    if cc is not None:
                        rep.ob("months", fmt, False, f"there is no table of months for {fmt}", where, f"C19-months:{fmt}:table")
                    continue
                forms = {norm(x) for x in L}
                if cc is None:
                    bad = sorted(x for x in forms if not x.isdecimal() or not x.isascii() or 1 <= int(x) <= 12 and x not in names[cc])
                    if not bad:
                        bad = sorted(x for x in forms if 1 <= int(x) <= 12 and names[cc][x] != int(x))
                else:
                    bad = sorted(x for x in forms if x not in names[cc])
                rep.ob("months", f"{fmt} known", not bad, f"{fmt} accepts the months {', '.join(bad[:6])}, which are in no month of its language", where, f"C19-months:{fmt}:unknown")
                have = {names[cc][x] for x in forms if x in names[cc]}
                miss = [i for i in range(1, len(months[cc][0]) + 1) if i not in have]
                rep.ob("months", f"{fmt} all", not miss, f"no text that {fmt} accepts means month {', '.join(map(str, miss))}", where, f"C19-months:{fmt}:missing")
                amb = first_ambiguity(pat, g, lambda x: names[cc].get(norm(x)))
                rep.ob("months", f"{fmt} first", amb is None, f"{fmt} reads {amb[1]!r} as {amb[0]!r}, another month, since that alternative comes first" if amb else "", where, f"C19-months:{fmt}:prefix")
            elif t == "era":
                for em, enm, enode, et in T.get("eras", []):
                    bad = sorted(x for x in L if x not in et)
                    rep.ob("eras", fmt, not bad, f"{fmt} accepts the eras {bad}, which have no period", where, f"C19-eras:{fmt}")

    # -- eras
    for m, nm, node, t in T.get("eras", []):
        import datetime
        spans = {}
        for k, (a, b) in t.items():
            try:
                spans[k] = datetime.date(*a[2]), datetime.date(*b[2])
            except Exception:
                rep.ob("eras", k, False, f"the period of {k} is no date", loc(m, node), f"C19-eras:{k}:date")
        for k in spans:
            long = [j for j in spans if j != k and j.startswith(k)]
            for j in long:
                rep.ob("eras", f"{k} {j}", spans[j] == spans[k], f"{k} and {j} are the same era with different periods", loc(m, node), f"C19-eras:{k}:{j}")
            rep.ob("eras", f"{k} span", spans[k][0] <= spans[k][1], f"the period of {k} ends before it starts", loc(m, node), f"C19-eras:{k}:span")
        seq = sorted(set(spans.values()))
        for (a, b), (c, d) in zip(seq, seq[1:]):
            rep.ob("eras", f"{b} {c}", b < c and (c - b).days <= 1, f"the eras ending {b} and starting {c} overlap or leave a gap", loc(m, node), f"C19-eras:{b}")

    # -- numbers
    stripped = removed_characters(p, T)
    for fmt, (pat, m, node) in sorted(numbers.items()):
        where = loc(m, node)
        try:
            gs = pattern_groups(pat)
        except Exception as ex:
            rep.ob("numbers", fmt, False, f"the pattern of {fmt} is not a regular expression: {ex}", where, f"C19-numbers:{fmt}:syntax")
            continue
        rep.ob("numbers", f"{fmt} groups", len(gs) >= 2 and all(g.parent is None for g in gs[:2]), f"the pattern of {fmt} does not capture a whole and a decimal part", where, f"C19-numbers:{fmt}:groups")
        if len(gs) < 2:
            continue
        cs = [charset(g.sub) for g in gs[:2]]
        sep = "," if "comma" in fmt else "." if "-dot" in fmt else None
        if cs[0] is not None and cs[1] is not None:
            if sep:
                other = "," if sep == "." else "."
                rep.ob("numbers", f"{fmt} separator", sep not in cs[0] and sep in cs[1] and other not in cs[1] and other in cs[0], f"{fmt} does not take {sep!r} for the decimal separator and {other!r} for one between thousands", where, f"C19-numbers:{fmt}:separator")
            for i, c in enumerate(cs):
                dig = {x for x in c if x.isdigit()}
                bad = sorted(x for x in dig if not x.isascii() and x not in known)
                rep.ob("digits", f"{fmt} {i}", not (bad and translated), f"{fmt} accepts the digits {bad[:3]}, which are not translated", where, f"C19-digits:{fmt}:{i}")
                need = set("0123456789") - c
                rep.ob("numbers", f"{fmt} {i} digits", not need, f"part {i + 1} of a number in {fmt} cannot have the digits {sorted(need)}", where, f"C19-numbers:{fmt}:{i}:digits")
                if stripped is not None:
                    left = sorted(x for x in c - dig if x not in stripped)
                    rep.ob("numbers", f"{fmt} {i} removed", not left, f"{fmt} accepts {[hex(ord(x)) for x in left]} in a number, which is not removed", where, f"C19-numbers:{fmt}:{i}:left")

    # -- legacy
    for fmt, (to, m, node) in sorted(legacy.items()):
        where = loc(m, node)
        rep.ob("legacy", f"{fmt} exists", to in dates or to in numbers or to in literal, f"{fmt} is mapped to {to}, which does not exist", where, f"C19-legacy:{fmt}:exists")
        body = fmt.split(":")[-1]
        a, b = tokens(fmt), tokens(to)
        if body.startswith("date") and not a:
            a = ["month", "day", "year"] if body.endswith("us") else ["day", "month", "year"] if body.endswith(("uk", "eu")) else []
        elif body.startswith("date") and len(a) == 2 and set(a) == {"day", "month"} and body.endswith(("uk", "us", "eu")):
            pass
        if a:
            rep.ob("legacy", f"{fmt} order", a == b, f"{fmt} is mapped to {to}, which reads {', '.join(b)}", where, f"C19-legacy:{fmt}:order")
            if "long" in body or "short" in body:
                rep.ob("legacy", f"{fmt} name", "monthname" in to, f"{fmt} writes the month as a name, but is mapped to {to}", where, f"C19-legacy:{fmt}:name")
            lang = {"dk": "da", "en": "en", "uk": "en", "us": "en"}.get(body[-2:])
            if "monthname" in to and lang and not (body.endswith("eu")):
                rep.ob("legacy", f"{fmt} language", to.endswith("-" + lang), f"{fmt} is mapped to {to}, of another language", where, f"C19-legacy:{fmt}:language")
            rep.ob("legacy", f"{fmt} calendar", ("cal" in body and "in" in body) == ("date-ind" in to), f"{fmt} is mapped to {to}, of another calendar", where, f"C19-legacy:{fmt}:calendar")
        seps = re.findall(r"comma|dot|unit|dash", body)
        if body.startswith(("num", "zero")) and seps:
            want = "fixed-zero" if seps[-1] == "dash" else f"num-{seps[-1]}-decimal"
            rep.ob("legacy", f"{fmt} separator", want in to, f"{fmt} is mapped to {to}, of another decimal separator", where, f"C19-legacy:{fmt}:separator")
        if body.startswith("boolean") or body == "nocontent":
            want = "ixt:fixed-" + {"booleantrue": "true", "booleanfalse": "false"}.get(body, "empty")
            rep.ob("legacy", f"{fmt} literal", to == want, f"{fmt} is mapped to {to}", where, f"C19-legacy:{fmt}:literal")

    # -- literals
    for m, nm, node, t in T.get("literals", []):
        for k, v in t.items():
            w = FIXED.get(k.split("fixed-")[-1])
            rep.ob("literals", k, w is None or w == v, f"{k} yields {v!r}", loc(m, node), f"C19-literals:{k}")
    for f in p.all_functions():
        for n in p.own_nodes(f):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Eq):
                c = [x.value for x in (n.test.left, n.test.comparators[0]) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                if c and c[0].startswith("ixt:fixed-") and n.body:
                    s = n.body[0]
                    v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        w = FIXED.get(c[0][len("ixt:fixed-"):])
                        rep.ob("literals", f"{f.qualname} {c[0]}", w is not None and w == v.value, f"{f.qualname} yields {v.value!r} for {c[0]}", f.loc(s), f"C19-literals:{f.qualname}:{c[0]}")

    # -- the names compared with
    legacy_tables = {n for _, n, _, _ in T["legacy"] if n}
    current = set(dates) | set(numbers) | literal
    mappers = {g.name for g in users(p, T, "legacy") if any(isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant) for n in ast.walk(g.node))}

    def maps_name(x):
        return isinstance(x, ast.Name) and x.id in legacy_tables or isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", None)) in mappers

    for f in p.all_functions():
        maps = []
        for n in p.own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and (any(isinstance(x, ast.Name) and x.id in legacy_tables for x in ast.walk(n.value)) or maps_name(n.value)):
                maps.append((n, n.targets[0].id))
        if not maps:
            continue
        n0, var = maps[0]
        rep.ob("mapped", f.qualname, True, "", f.loc(n0), f"C19-mapped:{f.qualname}")
        for n in p.own_nodes(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq):
                sides = [n.left, n.comparators[0]]
                if any(isinstance(x, ast.Name) and x.id == var for x in sides):
                    for c in sides:
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            if n.lineno < n0.lineno and c.value in current and any(v == c.value for v, _, _ in legacy.values()):
                                rep.ob("mapped", f"{f.qualname} {c.value}", False, f"{f.qualname} looks for {c.value} before the legacy names of it are mapped to it", f.loc(n), f"C19-mapped:{f.qualname}:{c.value}")
                            if n.lineno > n0.lineno and c.value in legacy:
                                rep.ob("mapped", f"{f.qualname} {c.value}", False, f"{f.qualname} looks for {c.value} after it was mapped to {legacy[c.value][0]}", f.loc(n), f"C19-mapped:{f.qualname}:{c.value}")

    # -- who maps: every function that looks a format up is given mapped names
    # -- dictionaries of parts
    dated = users(p, T, "dates")
    for f in p.all_functions():
        if not any(f.module is m for m, _, _, _ in T["dates"]) and f not in dated:
            continue
        for n in p.own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                gs = [g for g in p.callees(f, n.value) if g is not None and hasattr(g, "node")]
                if len(gs) != 1:
                    continue
                try:
                    keys = returned(p, gs[0], 0, n.value)
                except Unknown:
                    continue
                if not keys or not keys <= set(PARTS) | {"era"} | {"month_name"}:
                    continue
                v = n.targets[0].id
                loopy = only_in_loop(p, gs[0], keys)
                found = reads(p, f, v, after=n.end_lineno)
                for k, r, g, asked in found:
                    rep.ob("parts", f"{g.qualname} {k}", k in keys, f"{g.qualname} reads the part {k!r} of what {gs[0].qualname} returns, which never has it", g.loc(r), f"C19-parts:{g.qualname}:{k}")
                    if k in loopy and not asked and not in_try(g, r):
                        ok = any(a and kk == k and gg is g and rr.lineno < r.lineno for kk, rr, gg, a in found)
                        rep.ob("parts", f"{g.qualname} {k} missing", ok, f"{g.qualname} reads the part {k!r}, which {gs[0].qualname} leaves out when nothing in its table matches", g.loc(r), f"C19-parts:{g.qualname}:{k}:missing")
        # a part handed on before it is there
        for n in p.own_nodes(f):
            if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
                v = n.args[0].id
                bs = bindings(p, f, v)
                if not bs or not any(isinstance(b, ast.Dict) and not b.keys for b in bs) or any(q[0] == v for q in f.params):
                    continue
                put = {x.slice.value for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == v and isinstance(x.slice, ast.Constant) and x.lineno < n.lineno and not exclusive(f, x, n)}
                for g in p.callees(f, n):
                    if g is None or not hasattr(g, "node") or not g.params:
                        continue
                    q = g.params[0][0]
                    first = {}
                    for x in p.own_nodes(g):
                        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == q and isinstance(x.slice, ast.Constant) and x.slice.value in PARTS:
                            first.setdefault(x.slice.value, []).append(x)
                    for k, xs in first.items():
                        load = [x for x in xs if isinstance(x.ctx, ast.Load)]
                        store = [x for x in xs if isinstance(x.ctx, ast.Store)]
                        if load and not (store and min(s.lineno for s in store) < min(l.lineno for l in load)):
                            rep.ob("parts", f"{f.qualname} {g.qualname} {k}", k in put, f"{f.qualname} hands on the parts without {k!r}, which {g.qualname} reads", f.loc(n), f"C19-parts:{f.qualname}:{g.qualname}:{k}")

    # -- written dates
    for f in p.all_functions():
        if not any(f.module is m for m, _, _, _ in T["dates"]):
            continue
        for n in p.own_nodes(f):
            s = shown(n)
            if s and len(s[0]) > 1:
                seq, text = s
                iso = [x for x in ("year", "month", "day") if x in seq]
                between = "".join("#" if x is None else x for x in text)
                want = ("" if "year" in seq else "--") + "-".join("#" for _ in seq)
                rep.ob("iso", f"{f.qualname} {'-'.join(seq)}", seq == iso and between == want, f"{f.qualname} writes a date as {between} of {', '.join(seq)}", f.loc(n), f"C19-iso:{f.qualname}:{'-'.join(sorted(seq))}")
        if any(shown(n) for n in p.own_nodes(f)):
            for parts in (("day", "month", "year"), ("day", "month"), ("month", "year")):
                for r in returns(p, f, f.node.body, parts)[0]:
                    s = shown(r.value) if r.value is not None else None
                    if s and len(s[0]) > 1:
                        rep.ob("iso", f"{f.qualname} for {'-'.join(parts)}", set(s[0]) == set(parts), f"{f.qualname} writes {', '.join(s[0])} for a format of {', '.join(parts)}", f.loc(r), f"C19-iso:{f.qualname}:{'-'.join(parts)}")

    # -- lengths of constants
    for f in p.all_functions():
        for n in p.calls_in(f):
            if isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and n.args[0].value in PARTS + ("era",):
                rep.ob("length", f"{f.qualname} {n.args[0].value}", False, f"{f.qualname} takes the length of the word {n.args[0].value!r}, not of the part", f.loc(n), f"C19-length:{f.qualname}:{n.args[0].value}")

    # -- zeros
    for f in p.all_functions():
        calls = [n for n in p.calls_in(f) if isinstance(n.func, ast.Attribute) and n.func.attr in ("lstrip", "strip", "rstrip") and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and "0" in n.args[0].value]
        l = [n for n in calls if n.func.attr in ("lstrip", "strip")]
        if l:
            rep.ob("zeros", f"{f.qualname} zero", falls_back(p, f), f"{f.qualname} removes the zeros of a number and leaves nothing of a zero", f.loc(l[0]), f"C19-zeros:{f.qualname}:zero")
        for n in calls:
            if n.func.attr in ("rstrip", "strip") and isinstance(n.func.value, ast.Name) and any(q[0] == n.func.value.id for q in f.params):
                for g, a in arguments(p, f, n.func.value.id) or []:
                    ts = written(p, g, a)
                    if any(isinstance(x, str) for t in ts for x in t):
                        rep.ob("zeros", f"{f.qualname} {g.qualname} whole", all(any(isinstance(x, str) and "." in x for x in t) for t in ts), f"{f.qualname} removes the zeros at the end of a number that {g.qualname} wrote without a decimal point", g.loc(a), f"C19-zeros:{f.qualname}:{g.qualname}")


def written(p, f, e, depth=0):
    """the texts e has where it stands"""
    if isinstance(e, ast.Name) and depth < 6:
        last = [n for n in p.own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and n.lineno < e.lineno]
        if last:
            return written(p, f, max(last, key=lambda n: n.lineno).value, depth + 1)
        return []
    if isinstance(e, ast.Call):
        out = []
        for g in p.callees(f, e):
            if g is None or not hasattr(g, "node") or depth > 5:
                return []
            for n in p.own_nodes(g):
                if isinstance(n, ast.Return) and n.value is not None:
                    out += written(p, g, n.value, depth + 1)
        return out
    return texts(p, f, e)


def exclusive(f, a, b):
    """a and b are in different branches of one if"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            ina = [any(x is a for s in br for x in ast.walk(s)) for br in (n.body, n.orelse)]
            inb = [any(x is b for s in br for x in ast.walk(s)) for br in (n.body, n.orelse)]
            if (ina[0] and inb[1]) or (ina[1] and inb[0]):
                return True
    return False


def only_in_loop(p, g, keys):
    """keys of the returned dictionary that are stored only under a condition inside of a loop over a table"""
    out = set()
    names = {n.value.id for n in p.own_nodes(g) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    for k in keys:
        stores = [n for n in p.own_nodes(g) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in names and isinstance(n.slice, ast.Constant) and n.slice.value == k]
        if not stores:
            continue
        ok = True
        for s in stores:
            cond = False
            for lp in ast.walk(g.node):
                if isinstance(lp, ast.For) and any(isinstance(i, ast.If) and any(x is s for b in i.body for x in ast.walk(b)) for i in ast.walk(lp)) and not any(x is s for b in lp.orelse for x in ast.walk(b)):
                    cond = True
            ok = ok and cond
        if ok:
            out.add(k)
    return out


def falls_back(p, f):
    """the function has a value for the empty text"""
    for n in p.own_nodes(f):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[-1], ast.Constant) and n.values[-1].value == "0":
            return True
        if isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            empty = any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) for x in ast.walk(t)) or isinstance(t, ast.Compare) and any(isinstance(c, ast.Constant) and c.value in ("", 0) for c in [t.left] + t.comparators) or isinstance(n, ast.IfExp) and isinstance(t, ast.Name)
            zero = any(isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.startswith("0") for c in ast.walk(n))
            if empty and zero:
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("zfill", "rjust"):
            return True
    # the caller may have one
    for g in p.all_functions():
        for n in p.own_nodes(g):
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[-1], ast.Constant) and n.values[-1].value == "0" and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f.name for c in ast.walk(n)):
                return True
    return False


def removed_characters(p, T):
    """the characters that are removed from a number, None when that is not understood"""
    out, found = set(), False
    mods = {id(m) for m, _, _, _ in T["numbers"]}
    for f in p.all_functions():
        if id(f.module) not in mods:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                scope = n if isinstance(n, ast.For) else f.node
                rep_ = [c for c in ast.walk(scope) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "replace" and len(c.args) >= 2 and isinstance(c.args[0], ast.Name) and c.args[0].id == n.target.id and isinstance(c.args[1], ast.Constant) and c.args[1].value == ""]
                if rep_:
                    try:
                        v = data(p, f.module, n.iter, f)
                    except Unknown:
                        return None
                    if isinstance(v, (str, list, tuple, set)):
                        out |= set(v)
                        found = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "replace" and len(n.args) >= 2 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[1], ast.Constant) and n.args[1].value == "" and isinstance(n.args[0].value, str):
                out |= set(n.args[0].value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("sub", "translate"):
                return None
    return out if found else None
