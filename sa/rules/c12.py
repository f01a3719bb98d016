"""C12: children of a network node stay in ascending numeric order, and none is lost."""
from ..project import AnalysisError
from ..vf import Interp, T, alts, vals, show, subterms, truth, NONE
from .. import objs


def key_ok(I, st, key, cls, order_of):
    """does the sort key yield the node's own order, unchanged, first?"""
    if key is None or key is NONE:
        return False, "no sort key"
    x = T("sym", "probe", cls.name)
    I.types[x.id] = {cls.fullname}
    outs = []
    for g, k in alts(key):
        if k.kind in ("lam", "fn", "bm", "meth", "cls"):
            v = I.call_value(k, [x], [], st, objs.node())
        elif k.kind == "call" and k.args[0].endswith(("methodcaller", "attrgetter")) and k.args[2]:
            nm = k.args[2][0]
            v = I.call_method(x, nm.args[0], [], [], st, objs.node(), None) if k.args[0].endswith("methodcaller") else I.getattr(x, nm.args[0], st, objs.node())
        else:
            return False, f"sort key {show(k)} is not understood"
        outs.extend(vals(v))
    for v in outs:
        if v.kind == "tup" and v.args[0]:
            v = v.args[0][0]
        if v.kind == "call" and v.args[0] in ("float", "decimal.Decimal", "Decimal") and v.args[2]:
            v = v.args[2][0]
        if not is_order_of(v, x, order_of):
            return False, f"children are sorted by {show(v)} instead of the order value"
    return True, ""


def is_order_of(v, x, fields):
    if v.kind == "call" and v.args[1] is x and v.args[0].split(".")[-1] == "get_order" and not v.args[2]:
        return True
    return v.kind == "attr" and v.args[0] is x and v.args[1] in fields


def check(p, rep, tier):
    rep.rule("R1-sorted", "after an insertion the list returned as children is sorted ascending by the order value itself", 6)
    rep.rule("R2-kept", "the inserted child and all previous children are in the list; only the child's type can reject it", 6)
    rep.rule("R3-order", "the order a node reports is the number it was created with", 6)
    base = p.cls("INetworkNode")
    classes = objs.concrete_subclasses(p, "INetworkNode")
    for c in classes:
        I = Interp(p)
        st = objs.begin(I, c.module)
        probe_old = T("sym", "old child", c.name)
        I.types[probe_old.id] = {c.fullname}
        o, syms = objs.construct(I, st, c)
        # which fields hold the order
        ordv = objs.call(I, st, o, "get_order")
        if ordv is None:
            raise AnalysisError(f"{c.name} has no get_order")
        osyms = [s for n, s in syms.items() if "order" in n.lower()]
        good = all(any(v is s or (v.kind == "call" and v.args[0] == "float" and v.args[2] == (s,)) for s in osyms) for v in vals(ordv)) and osyms
        const_order = not osyms and all(v.kind == "k" and isinstance(v.args[0], (int, float)) for v in vals(ordv))
        good = good or const_order
        rep.ob("R3-order", c.name, good, f"{c.name} reports {show(ordv)} as its order, not the order it was created with", c.lookup("get_order").loc())
        fields = {k[1] for k, v in st.heap.items() if k[0] == o.id and isinstance(v, type(o)) and any(v is s for s in osyms)}
        add = c.lookup("_add_child")
        if add is None or add.is_abstract or add.cls is base:
            rep.ob("R2-kept", c.name, False, f"{c.name} cannot take children", c.module.relpath)
            continue
        child = T("sym", "child", c.name)
        I.types[child.id] = {c.fullname}
        # two insertions: the second shows what happens to earlier children
        objs.call(I, st, o, "_add_child", [probe_old])
        objs.call(I, st, o, "_add_child", [child])
        n0 = len(I.guards)
        lst = objs.call(I, st, o, "get_children")
        loc = add.loc()
        ok1, why1, ok2, why2 = True, "", True, ""
        for v in vals(lst):
            if v.kind in ("k",):
                continue
            order = st.heap.get((v.id, "#o"))
            if order is None:
                ok1, why1 = False, "children are never sorted"
            elif order[0] == "sorted" or order[0] == "insort":
                if order[0] == "insort" and not (order[2] and order[2][0] in ("insort", "sorted") or order[2] is None or order[2] == ("append",)):
                    ok1, why1 = False, "insertion into an unsorted list"
                rev = order[2] if order[0] == "sorted" else None
                if rev is not None and truth(rev) is not False:
                    ok1, why1 = False, "children are sorted in descending order"
                k_ok, w = key_ok(I, st, order[1], c, fields)
                if not k_ok:
                    ok1, why1 = False, w
            else:
                ok1, why1 = False, f"the children list ends up {order[0]}ed without being sorted by order"
            ents = I.entries(st, v)
            for want, nm in ((child, "the inserted child"), (probe_old, "a previously inserted child")):
                es = [e for e in ents if want in vals(e[1])]
                if not es:
                    ok2, why2 = False, f"{nm} is not in the list of children"
                elif not any(all(harmless(g, want) for g, pol in e[2]) for e in es):
                    bad = [show(g) for e in es for g, pol in e[2] if not harmless(g, want)]
                    ok2, why2 = False, f"{nm} is only kept under the condition {bad[:2]}"
        # destructive operations on the list during insertion
        for e in I.events:
            if e.kind in ("mutate", "delitem") and e.name in ("pop", "remove", "clear", "discard", "del"):
                ok2, why2 = False, "inserting a child removes another one"
        if const_order:
            ok1 = True     # all nodes of this class have the same order value: every arrangement is sorted
        rep.ob("R1-sorted", c.name, ok1, f"{c.name}: {why1}", loc)
        rep.ob("R2-kept", c.name, ok2, f"{c.name}: {why2}", loc)
        for f in I.functions_seen:
            rep.saw("functions analysed", f.fullname)
    rep.assume("list.sort/sorted/bisect.insort behave as documented; a node's order does not change after creation")


def harmless(g, child):
    """a type test of the child, or a null test"""
    if g.kind == "op" and g.args[0] == "isinstance":
        return True
    if g.kind == "op" and g.args[0] == "is" and g.args[2] is NONE:
        return True
    if g.kind == "sym" and g.args[0] == "ctor":
        return True   # how the constructor's children argument was given
    return False
