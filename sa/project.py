"""Program model of the brel package: modules, classes, functions, name
resolution, mypy expression types.  Nothing of brel is imported or executed."""
from __future__ import annotations
import ast, os, sys, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable file)."""


class FuncInfo:
    __slots__ = ("_locals", "name", "qualname", "module", "cls", "node", "parent", "nested", "decorators", "_params")

    def __init__(self, name, qualname, module, cls, node, parent):
        self.name, self.qualname, self.module, self.cls, self.node, self.parent = name, qualname, module, cls, node, parent
        self.nested = {}
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) or "?" for d in getattr(node, "decorator_list", [])]
        self._params = None

    @property
    def fullname(self):
        return self.module.name + "." + self.qualname

    @property
    def is_abstract(self):
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d.split(".")[-1] in ("property", "cached_property") for d in self.decorators)

    @property
    def params(self):
        """[(name, kind, annotation, default)] kind in pos/kw/var/kwvar"""
        if self._params is None:
            a = self.node.args
            out = []
            pos = a.posonlyargs + a.args
            nd = len(pos) - len(a.defaults)
            for i, p in enumerate(pos):
                out.append((p.arg, "pos", p.annotation, a.defaults[i - nd] if i >= nd else None))
            if a.vararg:
                out.append((a.vararg.arg, "var", a.vararg.annotation, None))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                out.append((p.arg, "kw", p.annotation, d))
            if a.kwarg:
                out.append((a.kwarg.arg, "kwvar", a.kwarg.annotation, None))
            self._params = out
        return self._params

    def loc(self, node=None):
        n = node or self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<func {self.fullname}>"


class ClassInfo:
    def __init__(self, name, qualname, module, node):
        self.name, self.qualname, self.module, self.node = name, qualname, module, node
        self.methods = {}      # name -> FuncInfo (last definition)
        self.classvars = {}    # name -> value expr or None (annotation only)
        self.bases = []        # resolved ClassInfo or str
        self.subclasses = []
        self._mro = None

    @property
    def fullname(self):
        return self.module.name + "." + self.qualname

    def mro(self):
        if self._mro is None:
            seen, out = set(), []

            def merge(seqs):
                res = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        c = s[0]
                        if not any(c in t[1:] for t in seqs):
                            break
                    else:
                        c = seqs[0][0]
                    res.append(c)
                    seqs = [[x for x in t if x is not c] for t in seqs]
                    seqs = [t for t in seqs if t]
                return res
            cb = [b for b in self.bases if isinstance(b, ClassInfo)]
            self._mro = [self] + merge([b.mro() for b in cb] + [cb])
        return self._mro

    def all_subclasses(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out

    def is_subclass_of(self, other):
        return other in self.mro()

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            # private methods are looked up under their mangled name
            pre = "_" + c.name.lstrip("_") + "__"
            if name.startswith(pre) and name[len(pre) - 2:] in c.methods:
                return c.methods[name[len(pre) - 2:]]
        return None

    def abstract_names(self):
        names = {}
        for c in reversed(self.mro()):
            for n, f in c.methods.items():
                names[n] = f
        return {n: f for n, f in names.items() if f.is_abstract}

    @property
    def is_enum(self):
        return any((isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag")) or
                   (isinstance(b, ClassInfo) and b.is_enum) for b in self.bases)

    @property
    def is_dataclass(self):
        return any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass"
                   for d in self.node.decorator_list)

    @property
    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def __repr__(self):
        return f"<class {self.fullname}>"


class Module:
    def __init__(self, name, path, relpath, source, is_pkg):
        self.name, self.path, self.relpath, self.source, self.is_pkg = name, path, relpath, source, is_pkg
        self.tree = ast.parse(source, filename=path)
        self.symbols = {}    # name -> ('class',ci)|('func',fi)|('mod',name)|('from',mod,name)|('var',[exprs])
        self.star = []
        self.classes, self.functions = [], []

    def __repr__(self):
        return f"<module {self.name}>"


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None


def is_main_guard(s):
    return (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name)
            and s.test.left.id == "__name__")


class Project:
    def __init__(self, root=None, pkg="brel", types=True):
        self.root = root or REPO
        self.pkg = pkg
        self.modules = {}
        self.classes = {}     # fullname -> ClassInfo
        self.functions = {}   # fullname -> FuncInfo
        self.parents = {}     # id(node) -> parent node (per module ast)
        self._load()
        self._types = None
        self.want_types = types
        self.mypy_errors = None

    # ---- loading
    def _load(self):
        base = os.path.join(self.root, self.pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        h = hashlib.sha256()
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                if not f[:-3].isidentifier():
                    continue   # not importable (e.g. "__init__ copy.py")
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                src = open(path, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode())
                try:
                    m = Module(".".join(parts), path, rel, src, is_pkg)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel}: {e}")
                self.modules[m.name] = m
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index(m)
        for c in list(self.classes.values()):
            for b in c.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                r = self.resolve_expr(c.module, e)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subclasses.append(c)
                else:
                    c.bases.append(r[1] if r and r[0] == "ext" else (dotted(e) or "?"))

    def _index(self, m):
        for n in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(n):
                self.parents[id(ch)] = n

        def add_func(node, qual, cls, parent):
            fi = FuncInfo(node.name, qual, m, cls, node, parent)
            # keep the first of several same-named definitions under a distinct key only if overloads/setters
            self.functions.setdefault(fi.fullname, fi)
            if fi.fullname in self.functions and self.functions[fi.fullname].node is not node:
                if not any(d.endswith(".setter") for d in fi.decorators):
                    self.functions[fi.fullname] = fi
            m.functions.append(fi)
            node._fi = fi
            for s in ast.walk(node):
                if s is node:
                    continue
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and self._enclosing_def(s) is node:
                    sub = add_func(s, qual + ".<locals>." + s.name, None, fi)
                    fi.nested[s.name] = sub
            return fi

        def add_class(node, qual):
            ci = ClassInfo(node.name, qual, m, node)
            node._ci = ci
            self.classes[ci.fullname] = ci
            m.classes.append(ci)
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = add_func(s, qual + "." + s.name, ci, None)
                    if not any(d.endswith(".setter") for d in f.decorators):
                        ci.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for x in ([t] if isinstance(t, ast.Name) else getattr(t, "elts", [])):
                            if isinstance(x, ast.Name):
                                ci.classvars[x.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ci.classvars[s.target.id] = s.value
                elif isinstance(s, ast.ClassDef):
                    add_class(s, qual + "." + s.name)
            return ci

        def top(stmts):
            for s in stmts:
                if is_main_guard(s):
                    continue
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.symbols[s.name] = ("func", add_func(s, s.name, None, None))
                elif isinstance(s, ast.ClassDef):
                    m.symbols[s.name] = ("class", add_class(s, s.name))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.symbols[a.asname] = ("mod", a.name)
                        else:
                            m.symbols[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    modname = s.module or ""
                    if s.level:
                        base = m.name.split(".")
                        if not m.is_pkg:
                            base = base[:-1]
                        base = base[: len(base) - (s.level - 1)]
                        modname = ".".join(base + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == "*":
                            m.star.append(modname)
                        else:
                            m.symbols[a.asname or a.name] = ("from", modname, a.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in tg:
                        for x in ([t] if isinstance(t, ast.Name) else getattr(t, "elts", [])):
                            if isinstance(x, ast.Name):
                                cur = m.symbols.get(x.id)
                                if cur and cur[0] == "var":
                                    cur[1].append(s.value)
                                else:
                                    m.symbols[x.id] = ("var", [s.value], m)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        top(getattr(s, fld, []) or [])
                    for hd in getattr(s, "handlers", []) or []:
                        top(hd.body)
                elif type(s).__name__ == "TypeAlias":
                    m.symbols[s.name.id] = ("var", [s.value], m)
        top(m.tree.body)
        # imports inside functions
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and hasattr(n, "_fi"):
                n._imports = {}
                for s in ast.walk(n):
                    if isinstance(s, ast.ImportFrom) and s.level == 0:
                        for a in s.names:
                            n._imports[a.asname or a.name] = ("from", s.module or "", a.name)
                    elif isinstance(s, ast.Import):
                        for a in s.names:
                            n._imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])

    def _enclosing_def(self, n):
        n = self.parents.get(id(n))
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            n = self.parents.get(id(n))
        return n

    def enclosing_function(self, n):
        while n is not None:
            n = self.parents.get(id(n))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and hasattr(n, "_fi"):
                return n._fi
        return None

    # ---- name resolution
    def lookup_in_module(self, modname, name, seen=None):
        """-> ('class',ci)|('func',fi)|('var',exprs,module)|('mod',name)|('ext',dotted)|None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            if modname.split(".")[0] == self.pkg:
                return None
            return ("ext", modname + "." + name)
        s = m.symbols.get(name)
        if s is None:
            for st in m.star:
                r = self.lookup_in_module(st, name, seen)
                if r and r[0] != "ext":
                    return r
            if modname + "." + name in self.modules:
                return ("mod", modname + "." + name)
            for st in m.star:
                if st.split(".")[0] != self.pkg:
                    return ("ext", st + "." + name)
            return None
        if s[0] == "from":
            if s[1] + "." + s[2] in self.modules and (s[1] not in self.modules or s[2] not in self.modules[s[1]].symbols):
                return ("mod", s[1] + "." + s[2])
            return self.lookup_in_module(s[1], s[2], seen)
        return s

    def resolve_expr(self, m, e, func=None):
        """Resolve a Name/Attribute chain to a global entity."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body, func)
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                imp = getattr(f.node, "_imports", {}).get(e.id)
                if imp:
                    if imp[0] == "from":
                        return self.lookup_in_module(imp[1], imp[2])
                    return imp
                if e.id in f.nested:
                    return ("func", f.nested[e.id])
                f = f.parent
            return self.lookup_in_module(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, func)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.lookup_in_module(b[1], e.attr)
                if r:
                    return r
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                f = b[1].lookup(e.attr)
                if f:
                    return ("func", f)
                for c in b[1].mro():
                    if e.attr in c.classvars:
                        return ("classvar", c, e.attr)
        return None

    def cls(self, name):
        """Find a class by simple name (unique)."""
        c = [x for x in self.classes.values() if x.name == name]
        if not c:
            raise AnalysisError(f"anchor class {name} not found")
        if len(c) > 1:
            raise AnalysisError(f"anchor class {name} ambiguous: {c}")
        return c[0]

    def maybe_cls(self, name):
        c = [x for x in self.classes.values() if x.name == name]
        return c[0] if len(c) == 1 else None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions:
                yield f

    # ---- syntactic call graph (class-hierarchy based)
    def own_nodes(self, f):
        """all AST nodes of a function body, without nested function and class bodies"""
        todo = list(f.node.body) + list(f.node.args.defaults) + [d for d in f.node.args.kw_defaults if d is not None]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def calls_in(self, f):
        return sorted((n for n in self.own_nodes(f) if isinstance(n, ast.Call)), key=lambda n: (n.lineno, n.col_offset))

    def local_names(self, f):
        r = getattr(f, "_locals", None)
        if r is None:
            r = {n for n, k, a, d in f.params}
            for n in self.own_nodes(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
            f._locals = r
        return r

    def callees(self, f, call, overrides=True):
        """possible project callees (constructors give __init__)"""
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                if fn.id in self.local_names(g) and fn.id not in g.nested:
                    return []
                g = g.parent
        out = []
        r = self.resolve_expr(f.module, fn, f)
        if r is not None and r[0] == "func":
            return [r[1]]
        if r is not None and r[0] == "class":
            i = r[1].lookup("__init__")
            return [i] if i is not None else []
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            if name.startswith("__") and not name.endswith("__"):
                c = f.cls
                g = f
                while c is None and g is not None:
                    g = g.parent
                    c = g.cls if g is not None else None
                if c is not None:
                    name = "_" + c.name.lstrip("_") + name
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls is not None:
                for k in f.cls.mro()[1:]:
                    if name in k.methods:
                        return [k.methods[name]]
                return []
            cls = self.classes_of(f.module, fn.value)
            if not cls and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
                cls = [f.cls]
            for c in cls:
                g = c.lookup(name) or c.lookup(fn.attr)
                if g is not None and g not in out:
                    out.append(g)
                if overrides:
                    for s in c.all_subclasses():
                        if name in s.methods and s.methods[name] not in out:
                            out.append(s.methods[name])
        return out

    # ---- mypy
    def _run_mypy(self):
        from mypy import build, options
        from mypy.find_sources import create_source_list
        o = options.Options()
        o.ignore_missing_imports = True
        o.check_untyped_defs = True
        o.export_types = True
        o.preserve_asts = True
        o.incremental = False
        o.cache_dir = os.devnull
        o.no_site_packages = True
        o.show_column_numbers = True
        o.enable_error_code = ["possibly-undefined"]
        o.process_error_codes(error_callback=lambda m: None)
        o.python_version = (3, 12)
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            srcs = create_source_list([self.pkg], o)
            srcs = [s for s in srcs if s.path and os.path.basename(s.path)[:-3].isidentifier()]
            r = build.build(srcs, options=o)
        except Exception as e:
            # blocking errors: no types
            raise AnalysisError(f"mypy could not analyse the tree: {e}")
        finally:
            os.chdir(cwd)
        self.mypy_errors = list(r.errors)
        self._types = {}
        self._mods = r.files
        want = {n for n in self.modules}
        paths = {}
        idx = {}
        # expression -> file is not recorded on the node; walk each file's tree
        from mypy.nodes import Node, Var, TypeInfo, MypyFile
        types = r.types
        attrs_of = {}
        skip = {"node", "info", "names", "type", "fullname", "line", "column", "end_line", "end_column",
                "__match_args__", "unanalyzed_items", "original_def", "type_args", "unanalyzed_type"}

        def attrs(cls):
            if cls not in attrs_of:
                out = []
                for c in cls.__mro__:
                    for a2 in getattr(c, "__mypyc_attrs__", ()) or ():
                        if a2 not in skip and a2 not in out:
                            out.append(a2)
                attrs_of[cls] = out
            return attrs_of[cls]

        def walk(root, out):
            seen, todo = set(), [root]
            while todo:
                o2 = todo.pop()
                if isinstance(o2, (list, tuple)):
                    todo.extend(o2)
                    continue
                if not isinstance(o2, Node) or isinstance(o2, (Var, TypeInfo)) or id(o2) in seen:
                    continue
                if isinstance(o2, MypyFile) and o2 is not root:
                    continue
                seen.add(id(o2))
                try:
                    t = types.get(o2)
                except TypeError:
                    t = None
                if t is not None:
                    out[(type(o2).__name__, o2.line, o2.column, o2.end_line, o2.end_column)] = t
                for a2 in attrs(type(o2)):
                    try:
                        v = getattr(o2, a2)
                    except AttributeError:
                        continue
                    if isinstance(v, (list, tuple, Node)):
                        todo.append(v)
        for name in self.modules:
            f = r.files.get(name)
            if f is None:
                continue
            out = {}
            walk(f, out)
            self._types[name] = out

    KIND = {ast.Call: ("CallExpr", "CastExpr", "SuperExpr", "RevealExpr"), ast.Name: ("NameExpr",), ast.Attribute: ("MemberExpr", "SuperExpr"),
            ast.Subscript: ("IndexExpr", "TypeApplication"), ast.List: ("ListExpr",), ast.Tuple: ("TupleExpr",),
            ast.Dict: ("DictExpr",), ast.Set: ("SetExpr",), ast.ListComp: ("ListComprehension",),
            ast.SetComp: ("SetComprehension",), ast.DictComp: ("DictionaryComprehension",),
            ast.GeneratorExp: ("GeneratorExpr",), ast.BinOp: ("OpExpr",), ast.BoolOp: ("OpExpr",),
            ast.IfExp: ("ConditionalExpr",), ast.Lambda: ("LambdaExpr",), ast.UnaryOp: ("UnaryExpr",),
            ast.Compare: ("ComparisonExpr",), ast.Starred: ("StarExpr",), ast.JoinedStr: ("CallExpr",),
            ast.Constant: ("StrExpr", "IntExpr", "FloatExpr", "NameExpr", "BytesExpr")}

    def type_of(self, m, node):
        if self._types is None:
            self._run_mypy()
        t = self._types.get(m.name)
        if t is None:
            return None
        for k in self.KIND.get(type(node), ()):
            r = t.get((k, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset))
            if r is not None:
                from mypy.types import get_proper_type
                return get_proper_type(r)
        return None

    def type_names(self, m, node):
        """Set of fullnames of the possible classes of an expression ('None' included)."""
        return names_of_type(self.type_of(m, node))

    def classes_of(self, m, node):
        return [self.classes[n] for n in self.type_names(m, node) if n in self.classes]


def names_of_type(t, depth=0):
    if t is None:
        return set()
    from mypy.types import (get_proper_type, Instance, UnionType, NoneType, TypeVarType, TupleType, CallableType,
                            TypeType, LiteralType, AnyType, Overloaded)
    t = get_proper_type(t)
    if isinstance(t, Instance):
        return {t.type.fullname}
    if isinstance(t, UnionType):
        out = set()
        for x in t.items:
            out |= names_of_type(x, depth + 1)
        return out
    if isinstance(t, NoneType):
        return {"None"}
    if isinstance(t, TypeVarType):
        return names_of_type(t.upper_bound, depth + 1)
    if isinstance(t, TupleType):
        return {"builtins.tuple"}
    if isinstance(t, CallableType) or isinstance(t, Overloaded):
        return {"<callable>"}
    if isinstance(t, TypeType):
        return {"<type>"}
    if isinstance(t, LiteralType):
        return names_of_type(t.fallback)
    if isinstance(t, AnyType):
        return {"Any"}
    return {"?"}


def elem_type(t):
    """element type of an iterable mypy type"""
    from mypy.types import get_proper_type, Instance, UnionType, TupleType
    t = get_proper_type(t)
    if isinstance(t, Instance) and t.args:
        return get_proper_type(t.args[0])
    return None


_project = None


def get_project():
    global _project
    if _project is None:
        _project = Project()
    return _project
