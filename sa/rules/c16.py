"""C16: a stored document is only ever served for its own address."""
from ..vf import Interp, T, K, NONE, alts, vals, show, subterms
from ..prov import Prov
from ..project import AnalysisError
from .. import objs
from .c29 import subst, conj

HASHES = {"sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b", "blake2s", "md5"}
REVERSIBLE = {"quote", "quote_plus", "encode", "decode", "hex", "b64encode", "urlsafe_b64encode", "b32encode", "b16encode", "hexlify", "pathname2url"}
LOSSY = {"replace", "split", "rsplit", "partition", "rpartition", "lower", "upper", "casefold", "strip", "lstrip", "rstrip", "basename", "dirname", "splitext",
         "sub", "translate", "removeprefix", "removesuffix", "hash", "crc32", "adler32", "group", "urlparse", "urlsplit", "normpath", "title", "capitalize"}
STORE = {"add_file", "get_file", "has_file"}
XOPS = {"has_etree", "get_etree", "add_etree", "get_uri"}
FOPS = STORE | {"download_and_add_file", "copy_and_add_file"}
Z = T("sym", "address")


def last(t):
    return str(t.args[0]).split(".")[-1] if t.kind == "call" else ""


def inj(t, u, same=()):
    """True: different u give different t; False: they need not; None: cannot tell"""
    if t is u:
        return True
    if t.kind == "k":
        return False
    if t.kind == "phi":
        rs = [inj(x, u, same) for x in vals(t)]
        return True if all(r is True for r in rs) else (None if None in rs and False not in rs else False)
    if not any(x is u for x in subterms(t)):
        if any(last(x) in ("hexdigest", "digest") and last(x.args[1]) in HASHES and not x.args[1].args[2] for x in subterms(t) if x.kind == "call" and x.args[1] is not None):
            return None                # a hash object that is fed step by step
        return False
    if t.kind == "op" and t.args[0] in ("add", "concat", "fstring", "mod"):
        rs = [inj(x, u, same) for x in t.args[1:] if hasattr(x, "kind")]
        return True if True in rs else (None if None in rs else False)
    if t.kind in ("fstr", "concat", "joined"):
        xs = [x for a in t.args for x in (a if isinstance(a, tuple) else (a,)) if hasattr(x, "kind")]
        rs = [inj(x, u, same) for x in xs]
        return True if True in rs else (None if None in rs else False)
    if t.kind in ("slice", "idx"):
        b = t.args[0]
        if last(b) in ("hexdigest", "hex") and t.kind == "slice":
            lo, hi = t.args[1], t.args[2]
            n = hi.args[0] if hi.kind == "k" else None
            if isinstance(n, int) and n >= 16 and (lo is NONE or lo is K(0)):
                return inj(b, u, same)
        return False
    if t.kind == "call":
        n = last(t)
        recv, args = t.args[1], t.args[2]
        if n in ("hexdigest", "digest") and recv is not None:
            if last(recv) in HASHES or last(recv) == "new":
                return inj(recv.args[2][-1], u, same) if recv.args[2] else None
            return None
        if n in ("str", "bytes", "abspath", "realpath") and args:
            return inj(args[0], u, same)
        if n == "join" and args and recv is None:
            rs = [inj(a, u, same) for a in args]
            return True if True in rs else None
        if n in REVERSIBLE:
            src = args[0] if recv is None or n in ("b64encode", "quote", "quote_plus", "hexlify", "urlsafe_b64encode") and args else recv
            return inj(src, u, same)
        if n == "replace" and recv is not None and [a.args[0] for a in args if a.kind == "k"] in [list(x) for x in same]:
            return inj(recv, u, same)
        if n in LOSSY:
            return False
        return None
    return None


def sh(xs):
    return " or ".join(sorted({show(x, 5)[:120] for x in xs})) or "nothing"


def run(p, f, opaque):
    memo = p.__dict__.setdefault("_c16", {})
    k = (f.fullname, tuple(sorted(opaque)))
    if k not in memo:
        I = Interp(p, opaque=set(opaque))
        v, st = I.run(f)
        memo[k] = (I, v, st)
    return memo[k]


def addr(f):
    ps = [n for n, k, a, d in f.params[1:] if k not in ("var", "kwvar")]
    n = next((x for x in ps if "uri" in x or "url" in x or "path" in x or "addr" in x), ps[0] if ps else None)
    return T("p", f.fullname, n) if n else None


def check(p, rep, tier):
    rep.rule("unique", "The entry name of a stored document is an injective function of its address.", floor=1)
    rep.rule("same-name", "Storing, looking for and reading a document compute its entry name from the address in the same way.", floor=3)
    rep.rule("content", "A document is stored byte for byte.", floor=0)
    rep.rule("passed-on", "The address is passed on unchanged from the caller to the store, and a document that is fetched or copied is stored and read under the address "
                          "it was fetched for.", floor=5)
    rep.rule("one-address", "While a document is loaded, one and the same (rewritten) address is used to ask for it, store it, read it and resolve its references.", floor=4)
    rep.rule("kept", "Nothing that tells addresses apart (case, query, folder) is taken from an address before its document is stored under it.", floor=1)
    rep.rule("fresh", "A local document is read as it is now, not as an earlier filing found it.", floor=0)
    rep.rule("lookup", "Whoever asks for a loaded document asks by an address that was resolved and rewritten like the stored one.", floor=1)
    rep.rule("rewrite", "Rewriting an address replaces the start it matched and keeps the rest.", floor=1)
    rep.assume("'/' and '\\\\' in a local address mean the same")
    P = Prov()
    store(p, rep, P)
    xmlstore(p, rep, P)
    service(p, rep, P)
    loading(p, rep, P)
    lookups(p, rep, P)
    rewriting(p, rep, P)


def names(I, P, u, skip=()):
    """terms computed from the address that are used as arguments of operations outside the package"""
    out = []
    for e in I.events:
        if e.kind != "call":
            continue
        n = str(e.name).split(".")[-1]
        if n in skip:
            continue
        out.append((e, n))
    return out


FSOPS = {"writetext", "writebytes", "setbytes", "settext", "upload", "writefile", "setfile", "setbinfile", "open", "openbin", "exists", "isfile", "readbytes",
         "getbytes", "download", "write_bytes", "write_text", "read_bytes"}


def store(p, rep, P):
    base = p.cls("FileRepository")
    seen = 0
    for c in sorted(objs.concrete_subclasses(p, "FileRepository"), key=lambda c: c.name):
        got = {}
        for m in sorted(STORE):
            f = c.lookup(m)
            if f is None or f.is_abstract:
                raise AnalysisError(f"{c.name}.{m} not found")
            I, v, st = run(p, f, ())
            u = addr(f)
            ks = set()
            for e in I.events:
                if e.kind == "call" and str(e.name).split(".")[-1] in FSOPS:
                    a = e.arg(0) if not (e.recv is not None and any(y is u for y in subterms(e.recv))) else e.recv
                    if a is not None and any(y is u for y in subterms(P.R(a), guards=True)):
                        ks.add(P.R(a))
            for x in list(vals(P.R(v))) + [P.R(a) for e in I.events if e.kind == "setitem" for a in e.args]:
                for y in subterms(x):
                    if y.kind == "idx" and any(z is u for z in subterms(y.args[1])):
                        ks.add(P.R(y.args[1]))
                    if y.kind == "op" and y.args[0] == "in" and any(z is u for z in subterms(y.args[1])):
                        ks.add(P.R(y.args[1]))
            if ks:
                got[m] = (f, u, ks)
        if not got:
            continue
        seen += 1
        rep.saw("stores", c.name)
        for m, (f, u, ks) in got.items():
            for k in ks:
                r = inj(k, u)
                if r is not None:
                    rep.ob("unique", f"{c.name}.{m}", r, f"{c.name}.{m} names the stored document {show(k, 6)[:170]}, which different addresses share", f.loc(),
                           key=f"unique:{c.name}")
        keys = {m: {subst(k, {u: Z}) for k in ks} for m, (f, u, ks) in got.items()}
        ref = keys.get("add_file") or next(iter(keys.values()))
        for m, ks in sorted(keys.items()):
            rep.ob("same-name", f"{c.name}.{m}", ks == ref, f"{c.name}.{m} uses the entry name {sh(ks)} where add_file uses {sh(ref)}", got[m][0].loc(),
                   key=f"same-name:{c.name}.{m}")
        f = c.lookup("add_file")
        I, v, st = run(p, f, ())
        ps = [n for n, *_ in f.params[1:]]
        u = addr(f)
        data = next((T("p", f.fullname, n) for n in ps if T("p", f.fullname, n) is not u), None)
        for e in I.events:
            if e.kind == "call" and str(e.name).split(".")[-1] in FSOPS | {"write"} and data is not None:
                for a in e.args[0 if str(e.name).endswith("write") else 1:]:
                    x = P.R(a)
                    if any(y is data for y in subterms(x)):
                        ok = all(y.kind in ("p",) and y is data or last(y) in ("read", "readall", "getvalue") and y.args[1] is data and not y.args[2] for y in vals(x))
                        rep.ob("content", f"{c.name}.add_file", ok, f"{c.name}.add_file stores {show(x, 5)[:120]} instead of the bytes of the document", e.loc,
                               key=f"content:{c.name}")
    if not seen:
        raise AnalysisError("no store of files the analysis can see")


def xmlstore(p, rep, P):
    c = p.maybe_cls("XMLRepository")
    if c is None:
        return
    got = {}
    for m in ("has_etree", "get_etree", "add_etree"):
        f = c.lookup(m)
        if f is None or f.is_abstract:
            continue
        I, v, st = run(p, f, ())
        u = addr(f)
        ks = set()
        for t in list(vals(P.R(v))):
            for y in subterms(t):
                if y.kind == "idx" and any(z is u for z in subterms(y.args[1])):
                    ks.add(P.R(y.args[1]))
                if y.kind == "op" and y.args[0] in ("in", "notin") and any(z is u for z in subterms(y.args[1])):
                    ks.add(P.R(y.args[1]))
                if last(y) == "get" and y.args[2] and any(z is u for z in subterms(y.args[2][0])):
                    ks.add(P.R(y.args[2][0]))
        for e in I.events:
            if e.kind in ("setitem", "store") and e.args and hasattr(e.args[0], "kind") and any(z is u for z in subterms(P.R(e.args[0]))):
                ks.add(P.R(e.args[0]))
        if ks:
            got[m] = (f, u, ks)
    keys = {m: frozenset(subst(k, {u: Z}) for k in ks) for m, (f, u, ks) in got.items()}
    ref = keys.get("add_etree") or keys.get("get_etree")
    for m, ks in sorted(keys.items()):
        flat = {x for k in ks for x in vals(k)}
        want = {x for k in ref for x in vals(k)}
        rep.ob("same-name", f"XMLRepository.{m}", flat == want, f"XMLRepository.{m} uses the key {sh(flat)} where documents are stored under {sh(want)}", got[m][0].loc(),
               key=f"same-name:XMLRepository.{m}")
        for k in ks:
            r = inj(k, Z, same=[("\\", "/")])
            if r is not None:
                rep.ob("unique", f"XMLRepository.{m}", r, f"XMLRepository.{m} uses the key {show(k, 6)[:150]}, which different addresses share", got[m][0].loc(),
                       key="unique:XMLRepository")


def service(p, rep, P):
    c = p.cls("FileService")
    for m in sorted(FOPS):
        f = c.lookup(m)
        if f is None:
            continue
        u = addr(f)
        I, v, st = run(p, f, STORE)
        rep.saw("operations of the file service", m)
        calls = [e for e in I.events if e.kind == "call" and str(e.name).split(".")[-1] in STORE and e.recv is not None]
        own = [e for e in calls if e.args or e.kwargs]
        if m in STORE and not own:
            raise AnalysisError(f"FileService.{m} does not reach the store")
        for e in own:
            a = P.R(e.arg(0, "uri"))
            data = e.arg(1, "file")
            if data is not None:
                bad = [y for y in subterms(P.R(data)) if y.kind == "text" or last(y) in ("encode", "decode", "strip", "replace", "splitlines", "lower")]
                rep.ob("content", f"FileService.{m}: {str(e.name).split('.')[-1]}", not bad, f"FileService.{m} stores a document as {sh(bad)}, not as the bytes that were received", e.loc, key=f"content:{m}")
            rep.ob("passed-on", f"FileService.{m}: {str(e.name).split('.')[-1]}", a is u,
                   f"FileService.{m} calls {str(e.name).split('.')[-1]} with {show(a, 5)[:120]} instead of the address it was given", e.loc,
                   key=f"passed-on:{m}:{str(e.name).split('.')[-1]}")
        if m in ("download_and_add_file", "copy_and_add_file"):
            src = {"download_and_add_file": {"get", "request", "urlopen"}, "copy_and_add_file": {"open"}}[m]
            for e in I.events:
                if e.kind == "call" and str(e.name).split(".")[-1] in src and e not in calls:
                    a = [P.R(x) for x in list(e.args) + [y for _, y in e.kwargs] if hasattr(x, "kind")]
                    if not a or str(e.name).split(".")[-1] == "get" and (e.recv is None or "session" not in show(e.recv, 6).lower() and "requests" not in show(e.recv, 6)):
                        continue
                    ok = any(x is u or any(y is u for y in subterms(x)) for x in a) and (m != "download_and_add_file" or any(x is u for x in a))
                    rep.ob("passed-on", f"FileService.{m}: source", ok, f"FileService.{m} reads {sh(a)} instead of the address it was given", e.loc,
                           key=f"passed-on:{m}:source")


def loading(p, rep, P):
    c = p.cls("XMLService")
    f = c.lookup("add_etree_recursive")
    if f is None:
        raise AnalysisError("XMLService.add_etree_recursive not found")
    I, v, st = run(p, f, FOPS | XOPS | {"rewrite", "get_parser", f.name})
    me = f.name
    uses = []
    for e in I.events:
        if e.kind != "call" or e.recv is None:
            continue
        n = str(e.name).split(".")[-1]
        if n in FOPS | XOPS - {"get_uri"} and (e.args or e.kwargs):
            uses.append((n, e, P.R(e.arg(0, "uri"))))
        elif n == me and len(e.args) + len(e.kwargs) > 1:
            a = e.arg(1, "referencing_uri")
            if a is not None:
                uses.append(("references", e, P.R(a)))
    stored = {x for n, e, k in uses if n == "add_etree" for x in vals(k)}
    if not stored:
        raise AnalysisError("XMLService.add_etree_recursive stores no document the analysis can see")
    for n, e, k in uses:
        ks = set(vals(k))
        extra = {x for x in ks - stored if not (n == "copy_and_add_file" and any(last(y) in ("urlparse", "urlsplit") for y in subterms(x))
                                                  and any(any(z is s for s in stored) for z in subterms(x)))}
        rep.ob("one-address", f"{me}: {n}", not extra, f"{c.name}.{me}: {n} is given {sh(extra)}, but the document is stored as {sh(stored)}", e.loc,
               key=f"one-address:{n}")
        if n == "copy_and_add_file":
            short = ks - stored
            rep.ob("one-address", f"{me}: {n} whole", not short, f"{c.name}.{me}: a local document is copied as {sh(short)}, but read as {sh(stored)}", e.loc,
                   key=f"one-address:{n}:whole")
    raw = [x for x in stored if last(x) != "rewrite" and not (any(last(y) == "rewrite" for y in subterms(x)))]
    # an address that was normalised after it was rewritten is still rewritten
    rep.ob("one-address", f"{me}: rewritten", not raw, f"{c.name}.{me}: documents are stored under {sh(raw)}, which the catalog has not rewritten", f.loc(),
           key="one-address:rewritten")
    lossy = [(x, y) for x in stored for y in subterms(x) if loses(y)]
    rep.ob("kept", f"{me}: address", not lossy, f"{c.name}.{me}: documents with different addresses are stored under one, computed with {sh([y for _, y in lossy])}", f.loc(), key="kept:address")
    # an earlier copy only serves for addresses that are fetched, not for local files
    for n, e, k in uses:
        if n != "get_file":
            continue
        held = [(P.R(c0), pol) for c0, pol in e.guards]
        flat = [x for c0, pol in held for x in conj(c0, pol)]
        if any(last(y) == "has_file" and pol for x, pol in flat for y in vals(x)):
            other = [x for x, pol in flat if not any(last(y) in ("has_file", "has_etree") for y in vals(x)) and any(last(y) in ("startswith", "urlparse", "urlsplit", "match", "isfile", "exists")
                                                                                         or y.kind == "op" and y.args[0] == "in" for y in subterms(x, guards=True))]
            rep.ob("fresh", f"{me}: {n}", bool(other), f"{c.name}.{me}: a local document is read from the copy an earlier filing left, even if it has changed since",
                   e.loc, key="fresh:get_file")
    # what is parsed is what was read for that address
    for n, e, k in uses:
        if n == "add_etree":
            d = P.R(e.arg(1, "etree"))
            reads = [y for y in subterms(d) if last(y) in ("get_file", "download_and_add_file", "copy_and_add_file")]
            for y in reads:
                ks = set(vals(P.R(y.args[2][0]))) if y.args[2] else set()
                ks = {x for x in ks if not any(last(z) in ("urlparse", "urlsplit") for z in subterms(x))}
                rep.ob("one-address", f"{me}: content", ks <= stored, f"{c.name}.{me}: the document stored as {sh(stored)} is parsed from {sh(ks)}", e.loc,
                       key="one-address:content")


RESOLVERS = {"resolve_uri"}
FOLDS = {"lower", "upper", "casefold", "swapcase", "title", "capitalize", "basename", "quote", "unquote", "quote_plus", "unquote_plus"}


def consts(t):
    return [a.args[0] for a in (t.args[2] or ()) if hasattr(a, "kind") and a.kind == "k"]


def loses(t):
    """a step that makes one address of several (other than the ways to write a path, and the fragment)"""
    if t.kind == "attr" and t.args[1] in ("path", "netloc") and any(last(x) in ("urlparse", "urlsplit") for x in vals(t.args[0])):
        return True
    if t.kind != "call":
        return False
    n = last(t)
    if n in FOLDS:
        return True
    if n == "replace":
        return not set(consts(t)) <= {"/", "\\", "\\\\", "/./"}
    if n in ("split", "partition", "rsplit", "rpartition"):
        return any(isinstance(k, str) and k not in ("/", "\\", "#") for k in consts(t))
    return False


def lookups(p, rep, P):
    c = p.cls("XMLService")
    import ast
    n = 0
    loaders = {f for f in c.methods.values() if any(isinstance(k.func, ast.Attribute) and k.func.attr == "add_etree" for k in p.calls_in(f))}
    for f in p.all_functions():
        if f.cls is not None and f.cls.name == "XMLRepository":
            continue
        if f.cls is c and (f.name in ("has_etree", "get_etree") or f in loaders):
            continue
        sites = [k for k in p.calls_in(f) if isinstance(k.func, ast.Attribute) and k.func.attr in ("has_etree", "get_etree")
                 and any(x.endswith(("XMLService", "XMLRepository")) for x in p.type_names(f.module, k.func.value))]
        if not sites:
            continue
        I, v, st = run(p, f, XOPS | FOPS | {"rewrite", "resolve_uri"} | set(c.methods))
        done = set()
        for e in I.events:
            if e.kind == "call" and str(e.name).split(".")[-1] in ("has_etree", "get_etree") and e.args and e.recv is not None:
                a = P.R(e.arg(0, "uri"))
                ok = all(last(x) in set(RESOLVERS) | {"rewrite", "get_uri"} for x in vals(a))
                n += 1
                rep.ob("lookup", f"{f.qualname}: {str(e.name).split('.')[-1]}", ok,
                       f"{f.qualname} asks for the document {sh(vals(a))}, an address that was not resolved and rewritten like the ones documents are stored under",
                       e.loc, key=f"lookup:{f.qualname}")
    if not n:
        rep.ob("lookup", "none", True)


def rewriting(p, rep, P):
    for c in sorted(objs.concrete_subclasses(p, "URIRewriteRepository"), key=lambda c: c.name):
        f = c.lookup("rewrite")
        I, v, st = run(p, f, ())
        u = addr(f)
        for g, x in alts(P.R(v)):
            if x.kind == "noret":
                continue
            bad = ""
            if x is not u:
                rest = [y for y in subterms(x) if y.kind == "slice" and y.args[0] is u or last(y) in ("removeprefix", "replace") and y.args[1] is u]
                if not rest:
                    if not any(y.kind in ("call", "op") and any(z is u for z in subterms(y)) for y in subterms(x)):
                        bad = "the rest of the address is lost"
                for y in rest:
                    if y.kind == "slice":
                        lo = y.args[1]
                        start = [c0.args[2][0] for c0, pol in g if last(c0) == "startswith" and pol and c0.args[1] is u]
                        if start and last(lo) == "len" and lo.args[2] and lo.args[2][0] not in start:
                            bad = f"the rest starts at {show(lo, 4)[:60]}, not behind the start that matched"
                        if start and lo is not NONE and not any(any(z is s for z in subterms(lo)) for s in start):
                            bad = f"the rest starts at {show(lo, 4)[:60]}, not behind the start that matched"
                        if lo is NONE or y.args[2] is not NONE:
                            bad = "the rest of the address is cut"
            rep.ob("rewrite", f"{c.name}.rewrite", not bad, f"{c.name}.rewrite answers {show(x, 5)[:140]}: {bad}", f.loc(), key=f"rewrite:{c.name}")
