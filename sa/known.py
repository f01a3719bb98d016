"""Constant propagation for given values of the attributes of an element: what a term evaluates to when the
attributes of one element are known, and the decision of conditions about them while a function is interpreted."""
import contextlib
import re
from . import vf
from .vf import T, K, NONE, Interp, alts


class Unknown(Exception):
    pass


class Known:
    def __init__(self, P, el, attrs):
        """attrs: attribute name (prefixed) -> str; other attributes of el are absent"""
        self.P, self.el, self.attrs = P, el, attrs
        self.memo = {}

    def value(self, t):
        """python value of the term, or Unknown"""
        r = self.P.R(t)
        return self.ev(r)

    def ev(self, t):
        if t.id in self.memo:
            v = self.memo[t.id]
        else:
            try:
                v = (True, self._ev(t))
            except Unknown:
                v = (False, None)
            self.memo[t.id] = v
        if not v[0]:
            raise Unknown
        return v[1]

    def _ev(self, t):
        k = t.kind
        if k == "k":
            return t.args[0]
        if k == "xa" and t.args[0] is self.el and t.args[1].kind == "k":
            return self.attrs.get(t.args[1].args[0])
        if k == "phi":
            got = []
            for g, x in alts(t):
                ok = True
                for c, b in g:
                    if bool(self.ev(self.P.R(c))) != b:
                        ok = False
                        break
                if ok:
                    got.append(self.ev(x))
            if got and all(type(x) is type(got[0]) and x == got[0] for x in got):
                return got[0]
            raise Unknown
        if k == "tup":
            return tuple(self.ev(x) if isinstance(x, vf.Term) else x for x in t.args[0])
        if k == "op":
            o, xs = t.args[0], t.args[1:]
            if o == "and":
                r = True
                for x in xs:
                    r = self.ev(x)
                    if not r:
                        return r
                return r
            if o == "or":
                r = False
                for x in xs:
                    r = self.ev(x)
                    if r:
                        return r
                return r
            vs = [self.ev(x) for x in xs]
            try:
                if o == "not":
                    return not vs[0]
                if o == "bool":
                    return bool(vs[0])
                if o == "in":
                    return vs[0] in vs[1]
                if o == "notin":
                    return vs[0] not in vs[1]
                if o == "eq":
                    return vs[0] == vs[1]
                if o in ("ne", "noteq"):
                    return vs[0] != vs[1]
                if o == "is" and vs[1] in (None, True, False):
                    return vs[0] is vs[1]
                if o == "isnot" and vs[1] in (None, True, False):
                    return vs[0] is not vs[1]
                if o == "lt":
                    return vs[0] < vs[1]
                if o in ("le", "lte"):
                    return vs[0] <= vs[1]
                if o == "gt":
                    return vs[0] > vs[1]
                if o in ("ge", "gte"):
                    return vs[0] >= vs[1]
                if o == "add":
                    return vs[0] + vs[1]
            except (TypeError, IndexError):
                raise Unknown
            raise Unknown
        if k == "call" and isinstance(t.args[0], str):
            n = t.args[0].split(".")[-1]
            if n in ("lower", "upper", "strip", "endswith", "startswith", "split", "partition", "rpartition", "replace", "casefold", "removeprefix",
                     "removesuffix"):
                if len(t.args) < 3 or not isinstance(t.args[1], vf.Term) or not isinstance(t.args[2], tuple) or t.args[3:] not in ((), ((),)):
                    raise Unknown
                vs = [self.ev(x) for x in (t.args[1],) + t.args[2]]
                if vs and all(isinstance(v, (str, tuple)) for v in vs) and isinstance(vs[0], str):
                    try:
                        r = getattr(vs[0], n)(*vs[1:])
                    except (TypeError, ValueError):
                        raise Unknown
                    return tuple(r) if isinstance(r, list) else r
        if k == "idx":
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            try:
                return a[b]
            except (TypeError, IndexError, KeyError):
                raise Unknown
        raise Unknown

    def oracle(self, c):
        if c.kind in ("attr",):
            return None
        try:
            return bool(self.value(c))
        except Unknown:
            return None


@contextlib.contextmanager
def given(known):
    old, vf.ORACLE = vf.ORACLE, known.oracle
    try:
        yield known
    finally:
        vf.ORACLE = old
