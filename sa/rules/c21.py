"""C21: network access, file writes and execution happen only where documented."""
from __future__ import annotations
import ast
import re
from ..project import AnalysisError, FuncInfo, dotted, is_main_guard
from ..consts import module_value
from ..guards import Guards, entails, atoms
from ..strings import texts

HTTP_READ = {"get", "head"}
HTTP_SEND = {"post", "put", "patch", "delete", "request", "send", "options"}
NET_EXT = re.compile(r"^(requests\.(get|head|post|put|patch|delete|request|options|api\..*)|urllib\.request\..*|urllib3\..*|http\.client\..*|socket\.(socket|create_connection)|ftplib\..*|smtplib\..*|httpx\..*|aiohttp\..*)$")
NOT_NET = re.compile(r"^(urllib\.request\.(url2pathname|pathname2url|Request|quote|unquote)|urllib3\.(util|exceptions).*)$")
EXEC_EXT = re.compile(r"^(os\.(system|popen|exec\w*|spawn\w*|fork)|subprocess\..*|pickle\.loads?|marshal\.loads?|shelve\.open|yaml\.load|yaml\.unsafe_load|importlib\.import_module|runpy\..*|code\..*)$")
WRITE_EXT = {"os.makedirs": 0, "os.mkdir": 0, "os.chmod": 0, "os.utime": 0, "os.truncate": 0, "os.symlink": 1, "os.link": 1, "os.mkfifo": 0,
             "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "shutil.unpack_archive": 1, "shutil.copymode": 1, "shutil.make_archive": 0}
MOVE_EXT = {"shutil.move", "os.rename", "os.replace", "os.renames"}
DEL_EXT = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree"}
FS_WRITE = {"writebytes", "writetext", "writefile", "setbytes", "settext", "upload", "setfile", "appendbytes", "appendtext", "create", "touch", "makedir", "makedirs", "setinfo"}
FS_DEL = {"remove", "removedir", "removetree", "clean"}
FS_MOVE = {"move", "movedir", "copy", "copydir"}
PATH_WRITE = {"write_text", "write_bytes", "touch", "mkdir", "symlink_to", "hardlink_to", "chmod"}
PATH_DEL = {"unlink", "rmdir"}
FRAME_WRITE = {"to_csv", "to_excel", "to_parquet", "to_pickle", "to_feather", "to_hdf", "to_sql", "savefig"}
OPENERS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.open", "zipfile.ZipFile", "tarfile.open", "fs.open_fs"}


class Top(FuncInfo):
    """the statements of a module, as a function without parameters"""

    def __init__(self, m):
        node = ast.Module(body=[s for s in m.tree.body if not is_main_guard(s) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))], type_ignores=[])
        super().__init__("<module>", m.name, m, None, node, None)
        self._params = []


def ob(rep, rule, ok, f, node, key, detail):
    rep.ob(rule, key, ok, detail, f.loc(node) if not isinstance(f, Top) else f"{f.module.relpath}:{getattr(node, 'lineno', 0)}", key)


class Where:
    """where a path leads"""

    def __init__(self, p):
        self.p = p

    def tops(self):
        return [Top(m) for m in self.p.modules.values()]

    def arguments(self, f, name):
        """(caller, expression) passed for a parameter; the default counts when it is left out"""
        q = next(x for x in f.params if x[0] == name)
        pos = [x[0] for x in f.params if x[1] == "pos"]
        i = pos.index(name) if name in pos else None
        if i is not None and pos[0] in ("self", "cls") and f.cls is not None and not f.is_static:
            i -= 1
        want = f.cls.name if f.name == "__init__" and f.cls is not None else f.name
        out = []
        for g in list(self.p.all_functions()) + self.tops():
            for c in (n for n in ast.walk(g.node) if isinstance(n, ast.Call)) if isinstance(g, Top) else self.p.calls_in(g):
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
                if nm == "cls" and g.cls is not None and f.name == "__init__":
                    nm = g.cls.name
                if nm != want or f.name == "__init__" and isinstance(c.func, ast.Attribute) and c.func.attr == "__init__":
                    continue
                if not isinstance(g, Top):
                    known = self.p.callees(g, c)
                    if f not in known and (known or f.name == "open" or sum(h.name == f.name for h in self.p.all_functions()) > 1 or isinstance(c.func, ast.Name) and not self.p.resolve_expr(g.module, c.func, g)):
                        continue
                v = next((k.value for k in c.keywords if k.arg == name), None)
                if v is None and i is not None and i < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args[:i + 1]):
                    v = c.args[i]
                if v is None and q[3] is not None and not any(k.arg is None for k in c.keywords):
                    out.append((f, q[3]))
                elif v is not None:
                    out.append((g, v))
        return out

    def attr_values(self, f, a):
        out = []
        if f.cls is None:
            return out
        for k in f.cls.mro():
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in s.targets):
                    out.append((f, s.value))
            for g in k.methods.values():
                for s in ast.walk(g.node):
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == a:
                                out.append((g, s.value))
        return out

    def name_values(self, f, name):
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(n.value)
                    elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                        i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Name) and x.id == name)
                        out.append(n.value.elts[i] if isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(t.elts) else n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                out.append(n.value)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name:
                        out.append(i.context_expr)
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out.append(n.iter)
        return out

    def of(self, f, e, seen=frozenset()):
        key = (f.fullname, id(e))
        if key in seen or len(seen) > 80:
            return set()
        seen = seen | {key}
        go = lambda x, g=f: self.of(g, x, seen)
        if isinstance(e, ast.Constant):
            if not isinstance(e.value, str):
                return set()
            v = e.value
            if re.match(r"https?://", v):
                return set()
            if v.startswith(("temp://", "mem://")):
                return {"temp"}
            v = re.sub(r"^(osfs|file)://", "", v)
            return {"fixed"} if v.startswith("/") else {"relative"}
        if isinstance(e, ast.JoinedStr):
            s = "".join(v.value for v in e.values if isinstance(v, ast.Constant))
            first = e.values[0] if e.values else None
            if isinstance(first, ast.FormattedValue):
                return self.below(go(first.value), s)
            if isinstance(first, ast.Constant) and re.match(r"^(osfs|file)://$", str(first.value)) and len(e.values) > 1:
                return self.below(go(e.values[1].value), s)
            return go(first) if first is not None else set()
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Div)):
            s = " ".join(x.value for x in ast.walk(e.right) if isinstance(x, ast.Constant) and isinstance(x.value, str)) + " " + self.const(f, e.right)
            return self.below(go(e.left), s)
        if isinstance(e, ast.IfExp):
            return go(e.body) | go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[go(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return go(e.value)
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return go(e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(set(), *[go(v) for v in e.elts])
        if isinstance(e, ast.Name):
            if e.id == "__file__":
                return {"package"}
            g = f
            while g is not None:
                if any(q[0] == e.id for q in g.params):
                    if e.id in ("self", "cls"):
                        return set()
                    args = self.arguments(g, e.id)
                    out = set().union(set(), *[self.of(h, v, seen) for h, v in args])
                    own = [v for v in self.name_values(g, e.id)]
                    for v in own:
                        out |= self.of(g, v, seen)
                    if not args or self.public(g):
                        out.add("given")
                    return out
                vs = self.name_values(g, e.id)
                if vs:
                    return set().union(*[self.of(g, v, seen) for v in vs])
                g = g.parent
            v = module_value(self.p, f.module, e.id)
            if v is not None:
                return self.of(Top(f.module), v, seen)
            r = self.p.resolve_expr(f.module, e, f)
            return set()
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                vs = self.attr_values(f, e.attr)
                return set().union(set(), *[self.of(g, v, seen) for g, v in vs])
            if e.attr in ("parent", "stem", "name", "path", "parents"):
                return go(e.value)
            if e.attr == "name" or e.attr == "filename":
                return go(e.value)
            r = self.p.resolve_expr(f.module, e, f)
            return set()
        if isinstance(e, ast.Call):
            return self.call(f, e, go, seen)
        return set()

    def const(self, f, e):
        cache = self.__dict__.setdefault("consts", {})
        if id(e) not in cache:
            try:
                cache[id(e)] = e, " ".join(sorted({"".join(x for x in t if isinstance(x, str)) for t in texts(self.p, f, e)}))
            except Exception:
                cache[id(e)] = e, ""
        return cache[id(e)][1]

    def below(self, where, s):
        """a place inside of `where`, with s among the names on the way"""
        if "home" in where and re.search(r"(^|[/\\ ])\.?brel", s):
            return (where - {"home"}) | {"own"}
        return where

    def ext(self, f, fn):
        r = self.p.resolve_expr(f.module, fn, None if isinstance(f, Top) else f)
        if r is not None and r[0] == "ext":
            return r[1]
        if r is not None and r[0] == "mod":
            return r[1]
        if r is None and isinstance(fn, ast.Name):
            return fn.id
        return None

    def call(self, f, e, go, seen):
        d = self.ext(f, e.func) or ""
        last = d.split(".")[-1]
        args = list(e.args)
        rest = lambda xs: " ".join(self.const(f, x) for x in xs)
        if d in ("os.path.expanduser",) or last == "expanduser" and args:
            s = self.const(f, args[0]) if args else ""
            return {"own"} if re.search(r"~.*[/\\]\.?brel", s) else {"home"}
        if isinstance(e.func, ast.Attribute) and e.func.attr == "expanduser":
            return {"own"} if re.search(r"~.*[/\\]\.?brel", ast.unparse(e.func.value)) else {"home"}
        if last in ("open_fs", "OSFS") and args and re.match(r"(osfs://)?~", self.const(f, args[0])):
            return {"own"} if re.search(r"~.*[/\\]\.?brel", self.const(f, args[0])) else {"home"}
        if d in ("pathlib.Path.home",):
            return {"home"}
        if d in ("os.getcwd", "pathlib.Path.cwd", "os.getcwdb") or d == "os.curdir":
            return {"current"}
        if d.startswith("tempfile.") or last in ("TempFS", "MemoryFS"):
            ds = [k.value for k in e.keywords if k.arg == "dir"]
            return set().union(*[go(x) for x in ds]) if ds else {"temp"}
        if d.startswith("appdirs.") or d.startswith("platformdirs."):
            return {"own"}
        if d in ("os.path.join", "fs.path.join", "pathlib.Path", "pathlib.PurePath", "os.sep.join") and args:
            return self.below(go(args[0]), " ".join(" " + self.const(f, a) for a in args[1:]))
        if d.startswith("os.path.") and args:
            return go(args[0])
        if last in ("open_fs", "OSFS", "SubFS", "fspath", "str", "Path", "urlparse", "unquote", "url2pathname", "list", "sorted") and (args or e.keywords):
            return go(args[0] if args else e.keywords[0].value)
        if d in OPENERS and args:
            return go(args[0])
        if d == "os.environ.get" or d == "os.getenv":
            return set()
        gs = self.p.callees(f, e) if not isinstance(f, Top) else self.top_callees(f, e)
        if gs:
            out = set()
            for g in gs:
                if g.name != "__init__":
                    out |= set().union(set(), *[self.of(g, n.value, seen) for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None])
            return out
        if isinstance(e.func, ast.Attribute):
            # a method of a path, a string or an open file
            s = " ".join(" " + self.const(f, a) for a in args)
            return self.below(go(e.func.value), s)
        return set()

    def top_callees(self, f, e):
        r = self.p.resolve_expr(f.module, e.func)
        return [r[1]] if r is not None and r[0] == "func" else []

    def public(self, f):
        return f.cls is not None and f.cls.name == "Filing" and not f.name.startswith("_")


OWNED = {"own", "temp"}
SAY = {"relative": "the directory the program was started in", "current": "the directory the program was started in", "given": "a place the caller named",
       "package": "the installed package", "home": "the user's home directory", "fixed": "a fixed place of the system"}


def say(w):
    return " or ".join(sorted({SAY[x] for x in w if x in SAY}))


def check(p, rep, tier):
    rep.rule("request", "The library sends a request only to fetch the address it was asked for, or from the EDGAR helpers to the SEC.", floor=2)
    rep.rule("asked", "A document is fetched only when its address is remote and it is not stored yet.", floor=2)
    rep.rule("remote", "An address counts as remote by its scheme, not by the first letters of a file name.", floor=1)
    rep.rule("write", "What is written goes to the library's own folder or to a temporary one.", floor=3)
    rep.rule("remove", "Nothing but temporary files is removed or moved away.", floor=1)
    rep.rule("parse", "XML is read from opened documents, without fetching what it refers to.", floor=2)
    rep.rule("execute", "Nothing is executed that a document or a cache contains.", floor=1)
    W = Where(p)
    G = Guards(p)
    start = [f for f in p.all_functions() if f.name == "open" and f.cls is not None and f.cls.name == "Filing"]
    if len(start) != 1:
        raise AnalysisError(f"{len(start)} functions Filing.open")
    reach = reached(p, start[0])
    fs = list(p.all_functions()) + W.tops()
    n = 0
    for f in fs:
        for c in ([x for x in ast.walk(f.node) if isinstance(x, ast.Call)] if isinstance(f, Top) else p.calls_in(f)):
            n += 1
            effect(p, rep, W, G, f, c, reach)
    rep.saw("calls", n)
    rep.ob("execute", "C21-execute:all calls", True)
    remote(p, rep)


def reached(p, f0):
    todo, seen = [f0], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += list(f.nested.values())
        for c in p.calls_in(f):
            todo += p.callees(f, c)
            r = p.resolve_expr(f.module, c.func, f)
            if r is not None and r[0] == "class":
                todo += [m for m in r[1].methods.values() if m.name.startswith("__") and m.name.endswith("__")]
        for n in p.own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute):
                r = p.resolve_expr(f.module, n, f)
                if r is not None and r[0] == "func":
                    todo.append(r[1])
    return seen


def session_like(p, W, f, e):
    """is the receiver an HTTP session"""
    try:
        if any(re.search(r"requests\.sessions\.Session|httpx\.|urllib3\.", t) for t in p.type_names(f.module, e)):
            return True
    except Exception:
        pass
    for v in W.name_values(f, e.id) if isinstance(e, ast.Name) else [v for _, v in W.attr_values(f, e.attr)] if isinstance(e, ast.Attribute) else []:
        if isinstance(v, ast.Call) and (W.ext(f, v.func) or "").split(".")[-1] in ("Session", "PoolManager"):
            return True
    if isinstance(e, ast.Name):
        v = module_value(p, f.module, e.id)
        if isinstance(v, ast.Call) and (W.ext(f, v.func) or "").split(".")[-1] in ("Session", "PoolManager"):
            return True
        g = f
        while g is not None:
            for q in g.params:
                if q[0] == e.id and q[2] is not None and "Session" in ast.unparse(q[2]):
                    return True
            g = g.parent
    if isinstance(e, ast.Attribute):
        for g, v in W.attr_values(f, e.attr):
            if isinstance(v, ast.Name):
                for q in g.params:
                    if q[0] == v.id and q[2] is not None and re.search(r"\bSession\b", ast.unparse(q[2])):
                        return True
    d = (dotted(e) or "").split(".")[-1].lower().strip("_")
    return d in ("session", "http_session", "requests_session")


def mode(f, c, i, names=("mode",)):
    v = next((k.value for k in c.keywords if k.arg in names), None)
    if v is None and len(c.args) > i:
        v = c.args[i]
    if v is None:
        return ""
    return v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None


def effect(p, rep, W, G, f, c, reach):
    d = W.ext(f, c.func) or ""
    a = c.func.attr if isinstance(c.func, ast.Attribute) else ""
    shown = ast.unparse(c.func)[:60]
    key = f"{f.qualname}:{shown}"
    # ------------------------------------------------ network
    if a in HTTP_READ | HTTP_SEND and isinstance(c.func, ast.Attribute) and session_like(p, W, f, c.func.value) or NET_EXT.match(d) and not NOT_NET.match(d):
        request(p, rep, W, G, f, c, d, a, key, f in reach)
        return
    # ------------------------------------------------ execution
    if EXEC_EXT.match(d) or d in ("eval", "exec", "compile", "__import__") and not isinstance(c.func, ast.Attribute):
        if c.args and not isinstance(c.args[0], ast.Constant):
            ob(rep, "execute", False, f, c, f"C21-execute:{key}", f"{f.qualname} calls {shown} on {ast.unparse(c.args[0])[:60]}")
    # ------------------------------------------------ parsing
    if re.match(r"^lxml\.(etree|html(\.html5parser)?|objectify)\.(parse|XMLParser|HTMLParser|iterparse|XMLPullParser|ETCompatXMLParser)$", d):
        bad = [k.arg for k in c.keywords if k.arg in ("load_dtd", "dtd_validation", "huge_tree_network") and getattr(k.value, "value", None) is True
               or k.arg == "no_network" and getattr(k.value, "value", None) is False]
        ob(rep, "parse", not bad, f, c, f"C21-parse:{key}", f"{f.qualname}: the parser is told to fetch what a document refers to ({', '.join(bad)})")
        if d.split(".")[-1] in ("parse", "iterparse") and c.args:
            t = names_of(p, f, c.args[0]) if f in loading(p, W, reach) else set()
            by_name = "str" in t or isinstance(c.args[0], ast.Attribute) and c.args[0].attr in ("name", "filename", "path")
            ob(rep, "parse", not by_name or f not in loading(p, W, reach), f, c, f"C21-parse:{key}:source", f"{f.qualname} parses {ast.unparse(c.args[0])[:60]} by name: a name that is an address is fetched without asking whether it is stored")
    if a == "xinclude":
        ob(rep, "parse", False, f, c, f"C21-parse:{key}", f"{f.qualname} includes what a document refers to")
    # ------------------------------------------------ writing
    for kind, path, what in writes(p, W, f, c, d, a):
        where = W.of(f, path) if path is not None else {"relative"}
        bad = where - OWNED
        if kind == "write":
            ob(rep, "write", not bad, f, c, f"C21-write:{key}", f"{f.qualname} {what} in {say(bad)}")
        elif kind == "remove":
            if where == {"own"} or where == {"own", "temp"}:
                ok = flagged(p, W, G, f, c)
                ob(rep, "remove", ok, f, c, f"C21-remove:{key}", f"{f.qualname} {what} in the library's own folder, so stored documents are lost")
            else:
                ob(rep, "remove", not bad, f, c, f"C21-remove:{key}", f"{f.qualname} {what} in {say(bad)}")


def loading(p, W, reach):
    """the functions that load the documents references lead to: whoever has documents fetched, and what they use"""
    if "_c21_loading" not in p.__dict__:
        net = {f.name for f in reach for c in p.calls_in(f) if isinstance(c.func, ast.Attribute) and c.func.attr in HTTP_READ | HTTP_SEND and session_like(p, W, f, c.func.value)
               or NET_EXT.match(W.ext(f, c.func) or "")}
        out = set()
        for f in reach:
            for c in p.calls_in(f):
                if (c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)) in net and isinstance(c.func, (ast.Attribute, ast.Name)) and p.callees(f, c):
                    out |= reached(p, f)
        # what is handed to them as a value (the document parsers) lives beside the services
        p.__dict__["_c21_loading"] = out | {f for f in p.all_functions() if "services" in f.module.name}
    return p.__dict__["_c21_loading"]


def names_of(p, f, e):
    try:
        return {t.split(".")[-1] for t in p.type_names(f.module, e)}
    except Exception:
        return set()


def arg(c, i, *names):
    v = next((k.value for k in c.keywords if k.arg in names), None)
    return v if v is not None else c.args[i] if len(c.args) > i and not isinstance(c.args[i], ast.Starred) else None


def fs_like(p, W, f, e):
    if any(t in ("FS", "OSFS", "SubFS", "TempFS", "WrapFS") for t in names_of(p, f, e)):
        return True
    vs = W.name_values(f, e.id) if isinstance(e, ast.Name) else [v for _, v in W.attr_values(f, e.attr)] if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" else []
    if isinstance(e, ast.Call):
        vs = [e]
    return any(isinstance(v, ast.Call) and (W.ext(f, v.func) or ast.unparse(v.func)).split(".")[-1] in ("open_fs", "OSFS", "TempFS", "opendir", "makedir", "makedirs") for v in vs)


def path_like(p, W, f, e):
    return any(t in ("Path", "PosixPath", "PurePath") for t in names_of(p, f, e))


def writes(p, W, f, c, d, a):
    """(kind, path expression, what is done)"""
    out = []
    if d in OPENERS and d not in ("fs.open_fs", "zipfile.ZipFile", "tarfile.open", "os.open"):
        m = mode(f, c, 1)
        if m and re.search(r"[wax+]", m):
            out.append(("write", arg(c, 0, "file", "filename"), "writes a file"))
    elif d in ("zipfile.ZipFile", "tarfile.open"):
        m = mode(f, c, 1)
        if m and re.search(r"[wax]", m):
            out.append(("write", arg(c, 0, "file", "name"), "writes an archive"))
    elif d in WRITE_EXT:
        out.append(("write", arg(c, WRITE_EXT[d], "path", "name", "dst", "extract_dir"), f"calls {d}"))
    elif d in MOVE_EXT:
        out.append(("remove", arg(c, 0, "src"), "moves a file away"))
        out.append(("write", arg(c, 1, "dst"), "moves a file"))
    elif d in DEL_EXT:
        out.append(("remove", arg(c, 0, "path"), f"calls {d}"))
    elif a in ("extractall", "extract") and not any(t in ("Series", "str") for t in names_of(p, f, c.func.value)):
        v = arg(c, 0 if a == "extractall" else 1, "path")
        out.append(("write", v, "extracts an archive"))
    elif isinstance(c.func, ast.Attribute) and a in FS_WRITE | FS_DEL | FS_MOVE | {"open", "openbin"} and fs_like(p, W, f, c.func.value):
        if a in FS_WRITE:
            out.append(("write", c.func.value, f"calls {ast.unparse(c.func)}"))
        elif a in FS_DEL:
            out.append(("remove", c.func.value, f"calls {ast.unparse(c.func)}"))
        elif a in FS_MOVE:
            out.append(("remove" if a.startswith("move") else "write", c.func.value, f"calls {ast.unparse(c.func)}"))
        else:
            m = mode(f, c, 1)
            if m and re.search(r"[wax+]", m):
                out.append(("write", c.func.value, f"opens a file for writing"))
    elif isinstance(c.func, ast.Attribute) and a in PATH_WRITE | PATH_DEL | {"rename", "replace", "open"} and path_like(p, W, f, c.func.value):
        if a in PATH_WRITE:
            out.append(("write", c.func.value, f"calls {a}"))
        elif a in PATH_DEL or a in ("rename", "replace"):
            out.append(("remove", c.func.value, f"calls {a}"))
        else:
            m = mode(f, c, 0)
            if m and re.search(r"[wax+]", m):
                out.append(("write", c.func.value, "writes a file"))
    elif a in FRAME_WRITE and c.args:
        out.append(("write", c.args[0], f"calls {a}"))
    elif a == "write" and any(t in ("_ElementTree", "ElementTree") for t in names_of(p, f, c.func.value)):
        out.append(("write", arg(c, 0, "file"), "writes a document"))
    # a deletion that is handed on (atexit, finalizers)
    for i, x in enumerate(c.args):
        if isinstance(x, (ast.Attribute, ast.Name)):
            y = W.ext(f, x) if not (isinstance(x, ast.Name) and x.id in ("eval", "exec")) else None
            if y in DEL_EXT:
                v = c.args[i + 1] if len(c.args) > i + 1 else next((k.value for k in c.keywords if k.arg == "path"), None)
                if v is not None:
                    out.append(("remove", v, f"has {y} called"))
    return out


def flagged(p, W, G, f, c):
    """the deletion only happens when a parameter is set that nobody sets"""
    conds = G.conditions(f, c)
    for q in f.params:
        for nm in (q[0],):
            if entails(conds, (nm, True)):
                args = W.arguments(f, q[0])
                if args and all(isinstance(v, ast.Constant) and not v.value for _, v in args):
                    return True
        if entails(conds, (q[0], False)):
            args = W.arguments(f, q[0])
            if args and all(isinstance(v, ast.Constant) and v.value for _, v in args):
                return True
    return False


# ---------------------------------------------------------------- requests
SEC = re.compile(r"^https://([a-z]+\.)*sec\.gov/")


def request(p, rep, W, G, f, c, d, a, key, inside):
    verb = a if a in HTTP_READ | HTTP_SEND else d.split(".")[-1]
    if verb in HTTP_SEND or any(k.arg in ("data", "json", "files") for k in c.keywords):
        ob(rep, "request", False, f, c, f"C21-request:{key}:sends", f"{f.qualname} sends something over the network ({ast.unparse(c.func)})")
        return
    url = arg(c, 0, "url", "uri")
    if url is None:
        return
    if not inside:
        ts = texts(p, f, url)
        known = [t for t in ts if t and isinstance(t[0], str)]
        for t in known:
            ob(rep, "request", bool(SEC.match(t[0])), f, c, f"C21-request:{key}:{t[0][:40]}", f"{f.qualname} contacts {t[0][:60]}, which is not the SEC")
        if not known:
            # built from an address elsewhere in the function
            ob(rep, "request", "edgar" in f.module.name.lower(), f, c, f"C21-request:{key}", f"{f.qualname} is not one of the EDGAR helpers but sends a request")
        return
    # reached from opening a filing: the address must be the one asked for
    x = G.canon(f, url)
    name = x.id if isinstance(x, ast.Name) else None
    params = {q[0] for q in f.params}
    ok = name in params
    pure = all(not (isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r"https?://", n.value)) for n in ast.walk(x))
    ob(rep, "request", ok or pure and not isinstance(x, (ast.BinOp, ast.JoinedStr, ast.Constant)), f, c, f"C21-request:{key}",
       f"{f.qualname} requests {ast.unparse(x)[:80]}, which is not the address it was asked for")
    need(p, rep, W, G, f, c, x, {"remote", "stored"}, key, 0, [f.qualname])


def need(p, rep, W, G, f, node, url, goals, key, depth, path):
    """the conditions under which node runs include the goals for this address, here or in every caller"""
    conds = G.conditions(f, node)
    left = set(goals)
    names = {}
    for x in conds:
        atoms(x, names)
    u = ast.unparse(url)
    for t, e in names.items():
        if "stored" in left and is_has(e):
            same = any(ast.unparse(y) == u for y in list(e.args) + [k.value for k in e.keywords])
            if same and entails(conds, (t, False)) in (True, None):
                left.discard("stored")
            elif same and entails(conds, (t, True)):
                ob(rep, "asked", False, f, node, f"C21-asked:{f.qualname}:stored", f"{f.qualname} fetches {u.split('@')[0]} when it is stored already")
                left.discard("stored")
        elif "stored" in left and relates(e, u) and not scheme_test(e) and not re.search(r"has_etree", t):
            # some other form of the question
            if isinstance(e, ast.Compare):
                left.discard("stored")
        if "remote" in left and scheme_test(e) and u_in(e, u):
            r = entails(conds, (t, True))
            if r or r is None or local_test(e) and entails(conds, (t, False)):
                left.discard("remote")
            elif entails(conds, (t, False)) and not local_test(e):
                ob(rep, "asked", False, f, node, f"C21-asked:{f.qualname}:local", f"{f.qualname} fetches {u.split('@')[0]} when it is local")
                left.discard("remote")
    for g in goals - left:
        ob(rep, "asked", True, f, node, f"C21-asked:{f.qualname}:{g}:ok", "")
    if not left:
        return
    nm = url.id if isinstance(url, ast.Name) else None
    sites = []
    if nm in {q[0] for q in f.params} and depth < 5:
        for g in p.all_functions():
            for c in p.calls_in(g):
                cn = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
                if cn == f.name and g is not f:
                    pos = [q[0] for q in f.params if q[1] == "pos" and q[0] not in ("self", "cls")]
                    v = next((k.value for k in c.keywords if k.arg == nm), None)
                    if v is None and nm in pos and pos.index(nm) < len(c.args):
                        v = c.args[pos.index(nm)]
                    if v is not None:
                        sites.append((g, c, v))
        for g, c, v in sites:
            need(p, rep, W, G, g, c, G.canon(g, v), left, key, depth + 1, path + [g.qualname])
        return
    for g in sorted(left):
        what = "whether it is stored already" if g == "stored" else "whether it is remote"
        ob(rep, "asked", False, f, node, f"C21-asked:{f.qualname}:{g}", f"{f.qualname} fetches {u.split('@')[0]} without asking {what}" + (f" (through {' and '.join(reversed(path[:-1]))})" if len(path) > 1 else ""))


def is_has(e):
    return isinstance(e, ast.Call) and isinstance(e.func, (ast.Attribute, ast.Name)) and re.match(r"^_*(has|is|contains|exists)_?(file|stored|cached|document|uri)?$", e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id) is not None \
        and not re.search("etree|remote", ast.unparse(e.func))


def u_in(e, u):
    return any(isinstance(n, (ast.expr,)) and ast.unparse(n) == u for n in ast.walk(e))


def relates(e, u):
    return u_in(e, u) and any(isinstance(n, ast.Call) for n in ast.walk(e))


def scheme_test(e):
    s = ast.unparse(e)
    return "http" in s or "scheme" in s or "remote" in s.lower() or local_test(e)


def local_test(e):
    s = ast.unparse(e)
    return bool(re.search(r"isfile|os\.path\.exists|is_local|is_file", s))


# ---------------------------------------------------------------- what is remote
def remote(p, rep):
    """every test for a leading 'http' includes the rest of the scheme"""
    W = Where(p)
    for f in p.all_functions():
        for c in p.calls_in(f):
            if isinstance(c.func, ast.Attribute) and c.func.attr == "startswith" and c.args:
                vals = [x for x in ast.walk(c.args[0]) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                if isinstance(c.args[0], ast.Name):
                    vals = [y for t in texts(p, f, c.args[0]) for y in [ast.Constant(value="".join(x for x in t if isinstance(x, str)))]]
                hs = [v.value for v in vals if re.match(r"https?", v.value) and len(v.value) < 9]
                if hs:
                    if not decides_fetch(p, f, c):
                        continue
                    ok = all("://" in h or h.rstrip("s") == "http:" for h in hs)
                    ob(rep, "remote", ok, f, c, f"C21-remote:{f.qualname}:{ast.unparse(c.func.value)}", f"{f.qualname}: a local file whose name starts with {hs[0]!r} is taken for a remote document")


def decides_fetch(p, f, c):
    """the answer is about where a document comes from: asked in the code that finds documents"""
    return "services" in f.module.name or "loader" in f.module.name or "file" in f.module.name.split(".")[-1]
