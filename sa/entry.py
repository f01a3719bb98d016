"""Value flow of a whole parsing step, from the parser's method down to the stores it fills.

The stores themselves (repositories) stay opaque: every insertion and lookup is an event whose
arguments are terms over the source documents."""
from .vf import Interp, T, K, NONE, alts, vals, subterms
from .prov import Prov, READERS
from .project import AnalysisError
from . import objs

STORE_OPS = {"has", "get", "upsert", "insert_context", "get_context_copy", "insert", "has_typed_qname", "get_typed_by_qname", "get_by_qname",
             "get_by_id", "has_id", "get_typed_by_id"}
SOURCE = {"xa", "text", "tag", "tail", "elem", "root", "attrib"}


def entries(p, method, base="FilingParser"):
    out = []
    for c in sorted(objs.concrete_subclasses(p, base), key=lambda c: c.name):
        f = c.lookup(method)
        if f is None or f.is_abstract:
            raise AnalysisError(f"{c.name}.{method} not found")
        out.append((c, f))
    if not out:
        raise AnalysisError(f"no subclass of {base}")
    return out


def run(p, f, extra=()):
    memo = p.__dict__.setdefault("_entry_runs", {})
    key = (f.fullname, tuple(sorted(extra)))
    if key not in memo:
        I = Interp(p, opaque=READERS | STORE_OPS | set(extra))
        v, st = I.run(f)
        memo[key] = (I, v, st)
    return memo[key]


def op_of(e):
    """(store class, operation) of a call event on a repository"""
    if e.kind != "call" or not e.name or "." not in e.name:
        return None
    c, op = e.name.split(".")[-2:]
    return (c, op) if c.endswith("Repository") else None


def source_free(t):
    return not any(x.kind in SOURCE for x in subterms(t))
