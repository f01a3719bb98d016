"""Languages of regular expressions and of conditions on a string, decided on automata."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                    # pragma: no cover
    import sre_parse as sp, sre_constants as sc


class Unsupported(Exception):
    pass


SAMPLES = "aqzAQZ059_-.:;{}/# \t\n\r,()%&\\\"'é߀٣日ā०\u00a0"


def cat(c, name):
    n = str(name)
    neg = "NOT_" in n
    r = (c.isdigit() or c.isdecimal()) if "DIGIT" in n else c.isspace() if "SPACE" in n else (c.isalnum() or c == "_")
    if "DIGIT" in n:
        r = c.isdecimal()
    return r != neg


class Nfa:
    """Thompson construction from a parsed pattern"""

    def __init__(self):
        self.eps, self.edges, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def link(self, a, b, what=None):
        self.eps.setdefault(a, []).append((b, what))

    def seq(self, items, a, flags):
        for it in items:
            a = self.item(it, a, flags)
        return a

    def edge(self, a, pred):
        b = self.new()
        self.edges.setdefault(a, []).append((b, pred))
        return b

    def item(self, it, a, flags):
        op, av = it
        ic = flags & re.I
        if op is sc.LITERAL:
            c = chr(av)
            return self.edge(a, (lambda x: x == c or x.lower() == c.lower()) if ic else (lambda x: x == c))
        if op is sc.NOT_LITERAL:
            c = chr(av)
            return self.edge(a, (lambda x: x.lower() != c.lower()) if ic else (lambda x: x != c))
        if op is sc.ANY:
            return self.edge(a, (lambda x: True) if flags & re.S else (lambda x: x != "\n"))
        if op is sc.IN:
            return self.edge(a, lambda x, av=av: in_set(x, av, ic))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            for _ in range(lo):
                a = self.seq(sub, a, flags)
            if hi is sc.MAXREPEAT:
                b = self.new()
                self.link(a, b)
                c = self.seq(sub, b, flags)
                self.link(c, b)
                return b
            end = self.new()
            self.link(a, end)
            if hi - lo > 200:
                raise Unsupported("large repeat")
            for _ in range(hi - lo):
                a = self.seq(sub, a, flags)
                self.link(a, end)
            return end
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            return self.seq(sub, a, (flags | add) & ~rem)
        if op is getattr(sc, "ATOMIC_GROUP", None):
            return self.seq(av, a, flags)
        if op is sc.BRANCH:
            end = self.new()
            for alt in av[1]:
                b = self.new()
                self.link(a, b)
                self.link(self.seq(alt, b, flags), end)
            return end
        if op is sc.AT:
            b = self.new()
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                self.link(a, b, "^")
            elif av is sc.AT_END:
                self.link(a, b, "$")
            elif av is sc.AT_END_STRING:
                self.link(a, b, "Z")
            else:
                raise Unsupported(str(av))
            return b
        raise Unsupported(str(op))


def in_set(x, items, ic):
    neg, hit = False, False
    cs = {x, x.lower(), x.upper()} if ic else {x}
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            hit |= chr(av) in cs
        elif op is sc.RANGE:
            hit |= any(len(c) == 1 and av[0] <= ord(c) <= av[1] for c in cs)
        elif op is sc.CATEGORY:
            hit |= cat(x, av)
        else:
            raise Unsupported(str(op))
    return hit != neg


def chars_of(items, out):
    """characters that tell the classes of a pattern apart"""
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL):
            out.update({chr(av), chr(av).lower(), chr(av).upper()[:1]})
        elif op is sc.IN:
            chars_of(av, out)
        elif op is sc.RANGE:
            for o in (av[0] - 1, av[0], av[1], av[1] + 1):
                if 0 < o < 0x110000:
                    out.add(chr(o))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            chars_of(av[2], out)
        elif op is sc.SUBPATTERN:
            chars_of(av[3], out)
        elif op is sc.BRANCH:
            for a in av[1]:
                chars_of(a, out)
        elif op is getattr(sc, "ATOMIC_GROUP", None):
            chars_of(av, out)
    return out


class Lang:
    """start, step(state, char), acc(state); alphabet hints"""

    def __init__(self, start, step, acc, hints):
        self.start, self.step, self.acc, self.hints = start, step, acc, frozenset(hints)

    def __and__(self, o):
        return Lang((self.start, o.start), lambda s, c: (self.step(s[0], c), o.step(s[1], c)), lambda s: self.acc(s[0]) and o.acc(s[1]), self.hints | o.hints)

    def __or__(self, o):
        return Lang((self.start, o.start), lambda s, c: (self.step(s[0], c), o.step(s[1], c)), lambda s: self.acc(s[0]) or o.acc(s[1]), self.hints | o.hints)

    def __invert__(self):
        return Lang(self.start, self.step, lambda s: not self.acc(s), self.hints)

    def word(self, limit=20000):
        """a shortest word, or None"""
        alpha = sorted(set(SAMPLES) | self.hints)
        seen, todo = {self.start}, [(self.start, "")]
        while todo:
            nxt = []
            for s, w in todo:
                if self.acc(s):
                    return w
                for c in alpha:
                    t = self.step(s, c)
                    if t not in seen:
                        seen.add(t)
                        nxt.append((t, w + c))
                        if len(seen) > limit:
                            raise Unsupported("automaton too large")
            todo = nxt
        return None

    def within(self, o):
        return (self & ~o).word() is None

    def meets(self, o):
        return (self & o).word() is not None

    def words(self, n=2000):
        """all words of a finite language (bounded)"""
        alpha = sorted(self.hints | set("0123456789"))
        live = self.live(alpha)
        out, todo = [], [(self.start, "")]
        while todo:
            nxt = []
            for s, w in todo:
                if self.acc(s):
                    out.append(w)
                    if len(out) > n:
                        return None
                for c in alpha:
                    t = self.step(s, c)
                    if t in live:
                        nxt.append((t, w + c))
            todo = nxt
            if len(todo) > 50000 or (todo and len(todo[0][1]) > 60):
                return None
        return out

    def live(self, alpha):
        succ, todo = {}, [self.start]
        while todo:
            s = todo.pop()
            if s in succ:
                continue
            succ[s] = {self.step(s, c) for c in alpha}
            todo += succ[s]
        good = {s for s in succ if self.acc(s)}
        while True:
            more = {s for s in succ if s not in good and succ[s] & good}
            if not more:
                return good
            good |= more


def parsed(pattern, flags=0):
    try:
        return sp.parse(pattern, flags)
    except re.error as e:
        raise Unsupported(str(e))


def regex(pattern, mode="match", flags=0):
    p = parsed(pattern, flags)
    return of_items(p, p.state.flags, mode)


def of_items(p, flags=0, mode="fullmatch"):
    n = Nfa()
    s0 = n.new()
    f = n.seq(p, s0, flags)

    def close(states, first):
        out, todo = set(), list(states)
        while todo:
            q, e = todo.pop()
            if (q, e) in out:
                continue
            out.add((q, e))
            for b, what in n.eps.get(q, ()):
                if what == "^":
                    if first:
                        todo.append((b, e))
                elif what == "$":
                    todo.append((b, max(e, 1)))
                elif what == "Z":
                    todo.append((b, 2))
                else:
                    todo.append((b, e))
        return out

    # states: frozenset of (node, ended), or markers 'any' (accepted whatever follows), 'nl' (a newline was consumed at the end)
    def fin(states):
        out = set(states)
        for q, e in states:
            if q == f and e == 0 and mode != "fullmatch":
                return frozenset(["any"])
        return frozenset(out)

    start = fin(close({(s0, 0)}, True))

    def step(S, c):
        if "any" in S:
            return S
        nxt = set()
        nl = False
        for x in S:
            if x == "nl":
                continue
            q, e = x
            if e == 0:
                for b, pred in n.edges.get(q, ()):
                    if pred(c):
                        nxt.add((b, 0))
            if q == f and e == 1 and c == "\n" and mode != "fullmatch":
                nl = True
        if mode == "search":
            nxt.add((s0, 0))
        r = close(nxt, False)
        if nl:
            return frozenset(fin(r) | {"nl"})
        return fin(r)

    def acc(S):
        return "any" in S or "nl" in S or any(x[0] == f for x in S if isinstance(x, tuple))
    return Lang(start, step, acc, chars_of(p, set()))


def lit(s):
    return regex("".join(re.escape(c) for c in s), "fullmatch")


ALL = Lang(0, lambda s, c: 0, lambda s: True, ())


def str_of(t):
    return t.args[0] if t.kind == "k" and isinstance(t.args[0], str) else None


def match_parts(t):
    """re.match/search/fullmatch call term -> (pattern, subject term, mode, flags) or None"""
    if t.kind != "call":
        return None
    m = t.args[0].split(".")[-1]
    if m not in ("match", "search", "fullmatch"):
        return None
    r, args = t.args[1], t.args[2]
    fl = 0
    if r is not None and r.kind == "call" and r.args[0].split(".")[-1] == "compile" and r.args[2]:
        pat, args = str_of(r.args[2][0]), args
        if len(r.args[2]) > 1 or r.args[3]:
            return None
        subj = args[0] if args else None
    elif args and len(args) >= 2:
        pat, subj = str_of(args[0]), args[1]
        if len(args) > 2 or t.args[3]:
            return None
    else:
        return None
    if pat is None or subj is None:
        return None
    return pat, subj, m, fl


def lang(c, s):
    """language of the values of s under which the condition holds, or None when the condition is not about s in a known way"""
    from .vf import NONE
    try:
        mp = match_parts(c)
        if mp is not None:
            return regex(mp[0], mp[2], mp[3]) if mp[1] is s else None
        if c.kind == "op":
            op, xs = c.args[0], c.args[1:]
            if op in ("is", "eq", "isnot", "ne") and len(xs) == 2:
                neg = op in ("isnot", "ne")
                a, b = xs
                if a is NONE or a.kind == "k":
                    a, b = b, a
                if b is NONE:
                    x = lang(a, s)
                    if match_parts(a) is None or x is None:
                        return None
                    return x if neg else ~x
                k = str_of(b)
                if a is s and k is not None:
                    return ~lit(k) if neg else lit(k)
                return None
            if op in ("not", "bool"):
                x = lang(xs[0], s)
                return x if x is None or op == "bool" else ~x
            if op in ("and", "or"):
                ls = [lang(x, s) for x in xs]
                if any(x is None for x in ls):
                    return None
                r = ls[0]
                for x in ls[1:]:
                    r = r & x if op == "and" else r | x
                return r
            if op in ("in", "notin") and len(xs) == 2 and xs[1] is s and str_of(xs[0]) is not None:
                x = regex(re.escape(str_of(xs[0])), "search")
                return ~x if op == "notin" else x
        if c.kind == "call" and c.args[1] is s and len(c.args[2]) == 1 and str_of(c.args[2][0]) is not None:
            k = re.escape(str_of(c.args[2][0]))
            m = c.args[0].split(".")[-1]
            if m == "startswith":
                return regex(k, "match")
            if m == "endswith":
                return regex("(?s:.*)" + k, "fullmatch")
        if c is s:
            return regex("(?s:.+)", "fullmatch")
    except Unsupported:
        return None
    return None


def flat(items):
    """top-level sequence with groups kept: [('lit', c) | ('group', id, items) | ('at',) | ('other', item)]"""
    out = []
    for op, av in items:
        if op is sc.LITERAL:
            out.append(("lit", chr(av)))
        elif op is sc.SUBPATTERN:
            gid, a, r, sub = av
            if gid is None and not a and not r:
                out += flat(sub)
            else:
                out.append(("group", gid, sub))
        elif op is sc.AT:
            out.append(("at",))
        else:
            out.append(("other", (op, av)))
    return out
