"""Symbolic objects: construct a class with one symbol per constructor parameter."""
import ast
from .vf import Interp, State, T, K, NONE, alts, vals, _ann_classes

CALL = ast.parse("f()", mode="eval").body


def node():
    n = ast.parse("f()", mode="eval").body
    n._synthetic = True
    return n


def begin(I, module):
    st = State()
    fr = I.push_module_frame(module)
    st.frames[fr.fid] = {}
    return st


def annotated(I, f, name, term):
    for n, k, a, d in f.params:
        if n == name and a is not None:
            cs = _ann_classes(I.p, f.module, a, f)
            if cs:
                I.types[term.id] = {c.fullname for c in cs}
    return term


def construct(I, st, c, overrides=None, tag="ctor"):
    """-> (object term, {param: symbol})"""
    init = c.lookup("__init__")
    syms, kwargs = {}, []
    if init is not None:
        for n, k, a, d in init.params[1:]:
            if k in ("var", "kwvar"):
                continue
            s = (overrides or {}).get(n)
            if s is None:
                s = annotated(I, init, n, T("sym", tag, c.name, n))
            I.term_by_id[s.id] = s
            syms[n] = s
            kwargs.append((n, s))
    elif c.is_dataclass:
        for k in reversed(c.mro()):
            for n in k.classvars:
                s = T("sym", tag, c.name, n)
                syms[n] = s
                kwargs.append((n, s))
    o = I.construct(c, [], kwargs, st, node())
    return o, syms


def call(I, st, obj, name, args=(), kwargs=()):
    c = obj.args[0]
    f = c.lookup(name)
    if f is None:
        return None
    if f.is_static:
        return I.call_func(f, list(args), list(kwargs), st, node())
    return I.call_func(f, [obj] + list(args), list(kwargs), st, node())


def concrete_subclasses(p, base):
    b = p.cls(base)
    out = [c for c in b.all_subclasses() if not c.abstract_names()]
    if not b.abstract_names() and b.methods:
        out.append(b)
    return out


def typed_dict_keys(p, f, ann):
    """keys of the TypedDict named in a **kwargs: Unpack[...] annotation"""
    if ann is None:
        return []
    for n in ast.walk(ann):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = p.resolve_expr(f.module, n, f)
            if r and r[0] == "class" and any(str(b).split(".")[-1] == "TypedDict" for b in r[1].external_bases):
                return list(r[1].classvars)
    return []
