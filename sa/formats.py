"""Constant tables of a module and the texts a regular expression accepts."""
from __future__ import annotations
import ast
import re
from collections import namedtuple

P, C = re._parser, re._constants
Group = namedtuple("Group", "index name parent sub")


class Unknown(Exception):
    pass


def module_assigns(m):
    out = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            out[s.targets[0].id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            out[s.target.id] = s.value
    return out


def data(p, m, e, f=None, depth=0):
    """the value of an expression of constants; calls are ("call", name, arguments)"""
    if depth > 60:
        raise Unknown
    go = lambda x: data(p, m, x, f, depth + 1)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Tuple):
        return tuple(elements(e, go))
    if isinstance(e, ast.List):
        return elements(e, go)
    if isinstance(e, ast.Set):
        return set(elements(e, go))
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                t = go(v)
                if not isinstance(t, dict):
                    raise Unknown
                out.update(t)
            else:
                try:
                    out[go(k)] = go(v)
                except TypeError:
                    raise Unknown
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
        a, b = go(e.left), go(e.right)
        try:
            return a + b if isinstance(e.op, ast.Add) else a | b
        except TypeError:
            raise Unknown
    if isinstance(e, ast.JoinedStr):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            elif v.conversion == -1 and v.format_spec is None:
                x = go(v.value)
                if not isinstance(x, (str, int)):
                    raise Unknown
                out += str(x)
            else:
                raise Unknown
        return out
    if isinstance(e, ast.Name):
        if f is not None:
            own = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            if len(own) == 1:
                return go(own[0])
            if own:
                raise Unknown
        a = module_assigns(m)
        if e.id in a:
            return data(p, m, a[e.id], None, depth + 1)
        r = p.resolve_expr(m, e, f)
        if r is not None and r[0] == "var" and len(r) > 2:
            pass
        for imp in ast.walk(m.tree):
            if isinstance(imp, ast.ImportFrom):
                for al in imp.names:
                    if (al.asname or al.name) == e.id and imp.module:
                        for mm in p.modules.values():
                            if mm.name == imp.module or mm.name.endswith("." + imp.module):
                                b = module_assigns(mm)
                                if al.name in b:
                                    return data(p, mm, b[al.name], None, depth + 1)
        raise Unknown
    if isinstance(e, ast.Call):
        nm = ast.unparse(e.func)
        if nm in ("re.compile",) and e.args:
            return go(e.args[0])
        if nm in ("dict", "list", "tuple", "set", "frozenset", "MappingProxyType", "types.MappingProxyType") and len(e.args) == 1 and not e.keywords:
            x = go(e.args[0])
            if nm in ("list", "tuple", "set", "frozenset"):
                return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[nm](x)
            return x
        if isinstance(e.func, ast.Attribute) and e.func.attr == "join" and len(e.args) == 1:
            s, xs = go(e.func.value), go(e.args[0])
            if isinstance(s, str) and isinstance(xs, (list, tuple)) and all(isinstance(x, str) for x in xs):
                return s.join(xs)
            raise Unknown
        if e.keywords:
            raise Unknown
        return ("call", nm, tuple(go(a) for a in e.args))
    if isinstance(e, ast.Subscript):
        t, k = go(e.value), go(e.slice)
        try:
            return t[k]
        except Exception:
            raise Unknown
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = go(e.operand)
        return -v
    raise Unknown


def elements(e, go):
    out = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            v = go(x.value)
            out += list(v)
        else:
            out.append(go(x))
    return out


def partial(p, m, e):
    """a table, without the entries that are not constants"""
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            try:
                if k is None:
                    t = data(p, m, v)
                    if isinstance(t, dict):
                        out.update(t)
                else:
                    out[data(p, m, k)] = data(p, m, v)
            except (Unknown, TypeError):
                continue
        return out
    try:
        return data(p, m, e)
    except Unknown:
        return None


def module_tables(p, m):
    """(name, node, table) for every module-level constant table, with what is added to it at module level"""
    added = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name):
            try:
                added.setdefault(s.targets[0].value.id, {})[data(p, m, s.targets[0].slice)] = data(p, m, s.value)
            except (Unknown, TypeError):
                pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "update" and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1:
            t = partial(p, m, s.value.args[0])
            if isinstance(t, dict):
                added.setdefault(s.value.func.value.id, {}).update(t)
    for name, e in module_assigns(m).items():
        if isinstance(e, (ast.Dict, ast.Call, ast.BinOp)):
            t = partial(p, m, e)
            if isinstance(t, dict):
                t = dict(t)
                t.update(added.get(name, {}))
                yield name, e, t


def pattern_groups(pat):
    """the capturing groups in order"""
    tree = P.parse(pat)
    names = {i: n for n, i in tree.state.groupdict.items()}
    out = {}

    def walk(sp, par):
        for op, av in sp:
            if op is C.SUBPATTERN:
                g = av[0]
                if g is not None:
                    out[g] = Group(g, names.get(g), par, av[3])
                walk(av[3], g if g is not None else par)
            elif op is C.BRANCH:
                for b in av[1]:
                    walk(b, par)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                walk(av[2], par)
            elif op in (C.ASSERT, C.ASSERT_NOT):
                walk(av[1], par)
    walk(tree, None)
    return [out[i] for i in sorted(out)]


def members(av):
    """the characters of a class, None for negated classes and categories"""
    xs = set()
    for o, a in av:
        if o is C.LITERAL:
            xs.add(chr(a))
        elif o is C.RANGE:
            xs |= {chr(c) for c in range(a[0], a[1] + 1)}
        elif o is C.CATEGORY and a is C.CATEGORY_DIGIT:
            xs |= set("0123456789")
        else:
            return None
    return xs


def sequences(sp, limit=60000, witness=False):
    """the texts in the order the alternatives are tried, None when there are too many"""
    res = [""]
    for op, av in sp:
        if op is C.LITERAL:
            xs = [chr(av)]
        elif op is C.IN:
            m = members(av)
            if m is None:
                return None
            xs = sorted(m)
        elif op is C.BRANCH:
            xs = []
            for b in av[1]:
                l = sequences(b, limit, witness)
                if l is None:
                    return None
                xs += l
        elif op is C.SUBPATTERN:
            xs = sequences(av[3], limit, witness)
            if xs is None:
                return None
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, s = av
            if witness and len(s) == 1 and s[0] == (C.IN, [(C.CATEGORY, C.CATEGORY_NOT_SPACE)]):
                # some of the texts: what stands for a vowel, or nothing
                res = [a + b for a in res for b in ([""] if lo == 0 else ["a", "\u0101"])]
                continue
            if hi > 4:
                return None
            l = sequences(s, limit, witness)
            if l is None:
                return None
            levels, cur = [], [""]
            for i in range(hi + 1):
                if i >= lo:
                    levels.append(cur)
                cur = [a + b for a in cur for b in l]
                if len(cur) > limit:
                    return None
            if op is C.MAX_REPEAT:
                levels.reverse()
            xs = [x for lv in levels for x in lv]
        elif op is C.AT or op in (C.ASSERT, C.ASSERT_NOT):
            xs = [""]
        else:
            return None
        res = [a + b for a in res for b in xs]
        if len(res) > limit:
            return None
    return res


def pattern_language(sp, witness=False):
    """the texts a pattern accepts; with witness, some of them when there are too many"""
    s = sequences(sp, witness=witness)
    return None if s is None else set(s)


def charset(sp):
    """every character the pattern can match, None when not understood"""
    out = set()
    for op, av in sp:
        if op is C.LITERAL:
            out.add(chr(av))
        elif op is C.IN:
            m = members(av)
            if m is None:
                return None
            out |= m
        elif op is C.BRANCH:
            for b in av[1]:
                c = charset(b)
                if c is None:
                    return None
                out |= c
        elif op is C.SUBPATTERN:
            c = charset(av[3])
            if c is None:
                return None
            out |= c
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            c = charset(av[2])
            if c is None:
                return None
            out |= c
        elif op is C.AT:
            continue
        else:
            return None
    return out


def follower(pat, g):
    """a predicate: can this text be the beginning of what comes after the group?"""
    tree = P.parse(pat)
    items = list(tree)
    at = next((i for i, (op, av) in enumerate(items) if op is C.SUBPATTERN and av[0] == g.index), None)
    if at is None:
        return None
    tests = []
    i = at + 1
    while i < len(items):
        op, av = items[i]
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and len(av[2]) == 1 and av[2][0][0] in (C.IN, C.NOT_LITERAL, C.ANY):
            tests.append((av[2][0], av[0], av[1]))
            i += 1
        elif op in (C.IN, C.NOT_LITERAL, C.ANY):
            tests.append(((op, av), 1, 1))
            i += 1
        else:
            break

    def ok(ch, item):
        op, av = item
        if op is C.ANY:
            return True
        if op is C.NOT_LITERAL:
            return chr(av) != ch
        neg = bool(av) and av[0][0] is C.NEGATE
        body = av[1:] if neg else av
        m = members(body)
        if m is None:
            return False
        return (ch not in m) if neg else (ch in m)

    def can(text):
        # greedy assignment of the characters to the repeated classes, in order
        states = {(0, 0)}
        for ch in text:
            new = set()
            for k, n in states:
                for j in range(k, len(tests)):
                    item, lo, hi = tests[j]
                    used = n if j == k else 0
                    if used < hi and ok(ch, item):
                        new.add((j, used + 1))
                    if used < lo:
                        break
            states = {(k, min(n, 50)) for k, n in new}
            if not states:
                return False
        return True
    return can


def first_ambiguity(pat, g, meaning):
    """(shorter, longer) when an earlier alternative is the beginning of a later one with another meaning and the rest may follow"""
    seq = sequences(g.sub)
    if seq is None:
        return None
    can = follower(pat, g)
    if can is None:
        return None
    seen = {}
    for i, x in enumerate(seq):
        seen.setdefault(x, i)
    order = sorted(seen, key=seen.get)
    for i, b in enumerate(order):
        for j in range(1, len(b)):
            a = b[:j]
            if a in seen and seen[a] < i and seen[a] < seen[b] and meaning(a) != meaning(b) and can(b[j:]):
                return a, b
    return None
