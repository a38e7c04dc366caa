"""Loader and name resolver for the analysed source tree (stdlib ast only).

Nothing in here imports or runs the analysed code: modules are parsed, top level
bindings are indexed, imports are followed, and classes are linearised (C3) so
that method lookups follow the real inheritance order.
"""
import ast
import os
import builtins as _bi


class Missing(Exception):
    """An anchor (public API class / function) could not be located"""


class Func:
    __slots__ = ("qual", "module", "cls", "node", "name", "decorators", "parent")

    def __init__(self, qual, module, cls, node, parent=None):
        self.qual = qual
        self.module = module
        self.cls = cls
        self.node = node
        self.name = getattr(node, "name", "<lambda>")
        self.parent = parent
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            parts = []
            while isinstance(d, ast.Attribute):
                parts.append(d.attr)
                d = d.value
            if isinstance(d, ast.Name):
                parts.append(d.id)
            self.decorators.append(".".join(reversed(parts)))

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_cm(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]

    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, qual, module, node):
        self.qual = qual
        self.name = node.name
        self.module = module
        self.node = node
        self.methods = {}
        self.attrs = {}       # class level assignments name -> expr
        self.annos = {}
        self.bases = []       # Class or "ext:..." strings
        self._mro = None
        self._attr_types = None

    def __repr__(self):
        return "<Class %s>" % self.qual

    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class Module:
    def __init__(self, name, path, rel, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.names = {}       # binding -> ("func",Func)|("class",Class)|("import",mod,attr)|("assign",expr)
        self.stars = []


class Project:
    def __init__(self, root, package="malcolm"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.by_name = {}
        self._load()

    # ---------------------------------------------------------------- load
    def _load(self):
        base = os.path.join(self.root, self.package)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in ("__pycache__", "tests", "test"))
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, self.root)
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = fn == "__init__.py"
                if is_pkg:
                    mod = mod[: -len(".__init__")]
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                tree = ast.parse(src, p)
                self.modules[mod] = Module(mod, p, rel, tree, src, is_pkg)
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.bases.append("ext:" + (ast.unparse(b)))

    def _index(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m.name + "." + s.name, m, None, s)
                    self._addf(f)
                    m.names[s.name] = ("func", f)
                elif isinstance(s, ast.ClassDef):
                    c = Class(m.name + "." + s.name, m, s)
                    self.classes[c.qual] = c
                    m.names[s.name] = ("class", c)
                    for x in s.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = Func(c.qual + "." + x.name, m, c, x)
                            if x.name in c.methods and f.decorators and any(
                                d.endswith(".setter") for d in f.decorators
                            ):
                                continue
                            c.methods[x.name] = f
                            self._addf(f)
                        elif isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = x.value
                        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                            c.annos[x.target.id] = x.annotation
                            if x.value is not None:
                                c.attrs[x.target.id] = x.value
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = ("import", a.name, None)
                        else:
                            m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
                elif isinstance(s, ast.ImportFrom):
                    src = self._abs(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(src)
                        else:
                            m.names[a.asname or a.name] = ("import", src, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            # "X = X" re-exports keep the original binding
                            if isinstance(s.value, ast.Name) and s.value.id == t.id:
                                continue
                            m.names[t.id] = ("assign", s.value)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.names[s.target.id] = ("assign", s.value)
                elif isinstance(s, ast.With):
                    body(s.body)
                elif isinstance(s, ast.If):
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.Try):
                    body(s.body)
                    for h in s.handlers:
                        body(h.body)
                    body(s.orelse)

        body(m.tree.body)

    def _addf(self, f):
        self.funcs[f.qual] = f
        self.by_name.setdefault(f.name, []).append(f)

    @staticmethod
    def _abs(m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)

    # ------------------------------------------------------------- resolve
    def resolve_name(self, m, name, seen=None):
        """-> ("func",Func)|("class",Class)|("module",Module)|("ext",dotted)|("assign",Module,expr)|None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            sub = self.modules.get(m.name + "." + name)
            if m.is_pkg and sub:
                return ("module", sub)
            for src in m.stars:
                sm = self.modules.get(src)
                if sm:
                    r = self.resolve_name(sm, name, seen)
                    if r:
                        return r
            return None
        if b[0] in ("func", "class"):
            return b
        if b[0] == "assign":
            e = b[1]
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(m, e, seen)
                if r and r[0] in ("func", "class", "module", "ext"):
                    return r
            return ("assign", m, e)
        _, mod, attr = b
        if attr is None:
            if mod in self.modules:
                return ("module", self.modules[mod])
            return ("ext", mod)
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], attr, seen)
            if r:
                return r
            sub = self.modules.get(mod + "." + attr)
            if sub:
                return ("module", sub)
            return ("ext", mod + "." + attr)
        return ("ext", mod + "." + attr)

    def resolve_expr(self, m, e, seen=None):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id, seen)
            if r is None and hasattr(_bi, e.id):
                return ("ext", "builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, seen)
            if not b:
                return None
            if b[0] == "module":
                r = self.resolve_name(b[1], e.attr)
                if r is None and b[1].name + "." + e.attr in self.modules:
                    return ("module", self.modules[b[1].name + "." + e.attr])
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                f = self.lookup(b[1], e.attr)
                if f:
                    return ("func", f)
                for c in self.mro(b[1]):
                    if isinstance(c, Class) and e.attr in c.attrs:
                        return ("assign", c.module, c.attrs[e.attr])
            return None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, seen)
        return None

    def anno_class(self, m, e):
        """Class named by an annotation, unwrapping Optional / Union[X, None] / strings / Annos"""
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            base = ast.unparse(e.value).split(".")[-1]
            if base in ("Optional", "Union"):
                sl = e.slice
                elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                for x in elts:
                    c = self.anno_class(m, x)
                    if c:
                        return c
            return None
        r = self.resolve_expr(m, e)
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "assign" and isinstance(r[2], (ast.Subscript,)):
            return self.anno_class(r[1], r[2])
        return None

    def anno_type(self, m, e, depth=0):
        """Type descriptor of an annotation: Class | ("dict", T) | ("list", T) | ("tuple", [T]) | None"""
        if e is None or depth > 6:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            base = ast.unparse(e.value).split(".")[-1]
            sl = e.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if base in ("Optional", "Union"):
                for x in elts:
                    t = self.anno_type(m, x, depth + 1)
                    if t:
                        return t
                return None
            if base in ("Dict", "dict", "Mapping", "OrderedDict", "DefaultDict") and len(elts) == 2:
                t = self.anno_type(m, elts[1], depth + 1)
                return ("dict", t, self.anno_type(m, elts[0], depth + 1))
            if base in ("List", "list", "Sequence", "Set", "set", "Iterable", "Iterator", "Deque", "Array"):
                return ("list", self.anno_type(m, elts[0], depth + 1))
            if base in ("Tuple", "tuple"):
                return ("tuple", [self.anno_type(m, x, depth + 1) for x in elts])
            return None
        r = self.resolve_expr(m, e)
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "assign" and isinstance(r[2], (ast.Subscript, ast.Constant)):
            return self.anno_type(r[1], r[2], depth + 1)
        return None

    # ------------------------------------------------------------- classes
    def mro(self, c):
        if c._mro is None:
            seqs = [[c]]
            for b in c.bases:
                if isinstance(b, Class):
                    seqs.append(list(self.mro(b)))
                else:
                    seqs.append([b])
            seqs.append(list(c.bases))
            out = []
            seqs = [list(s) for s in seqs]
            while any(seqs):
                for s in seqs:
                    if s and not any(s[0] in t[1:] for t in seqs):
                        h = s[0]
                        break
                else:
                    h = next(s for s in seqs if s)[0]
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        del s[0]
            c._mro = out
        return c._mro

    def lookup(self, c, name, after=None):
        found = after is None
        for k in self.mro(c):
            if not found:
                if k is after:
                    found = True
                continue
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def is_sub(self, c, other):
        """other: Class or bare external name"""
        for k in self.mro(c):
            if k is other or (isinstance(k, str) and k == other):
                return True
        return False

    def subclasses(self, c, strict=False):
        return [
            k for k in self.classes.values()
            if c in self.mro(k) and not (strict and k is c)
        ]

    def attr_types(self, c):
        """name -> Class, inferred from annotations and constructor assignments"""
        if c._attr_types is None:
            c._attr_types = {}
            out = {}
            for k in reversed(self.mro(c)):
                if not isinstance(k, Class):
                    continue
                for n, a in k.annos.items():
                    t = self.anno_class(k.module, a)
                    if t:
                        out[n] = t
                for f in k.methods.values():
                    pt = {}
                    for a in f.node.args.args + f.node.args.kwonlyargs:
                        t = self.anno_class(k.module, a.annotation)
                        if t:
                            pt[a.arg] = t
                    selfn = f.params[0] if f.params and not f.is_static else None
                    for n in ast.walk(f.node):
                        tgt, val, ann = None, None, None
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        else:
                            continue
                        if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                                and tgt.value.id == selfn):
                            continue
                        t = self.anno_class(k.module, ann) if ann is not None else None
                        if t is None and isinstance(val, ast.Call):
                            r = self.resolve_expr(k.module, val.func)
                            if r and r[0] == "class":
                                t = r[1]
                        if t is None and isinstance(val, ast.Name):
                            t = pt.get(val.id)
                        if t is not None:
                            out.setdefault(tgt.attr, t) if ann is None else out.__setitem__(tgt.attr, t)
            c._attr_types = out
        return c._attr_types

    def attr_descr(self, c):
        """name -> type descriptor (containers included), from annotations and constructor assignments"""
        d = getattr(c, "_attr_descr", None)
        if d is None:
            d = {}
            for k in reversed(self.mro(c)):
                if not isinstance(k, Class):
                    continue
                for n, a in k.annos.items():
                    t = self.anno_type(k.module, a)
                    if t:
                        d[n] = t
                for f in k.methods.values():
                    selfn = f.params[0] if f.params and not f.is_static else None
                    pt = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.AnnAssign):
                            tgt, ann = n.target, n.annotation
                        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Name) \
                                and n.value.id in pt:
                            tgt, ann = n.targets[0], pt[n.value.id]
                        else:
                            continue
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) \
                                and tgt.value.id == selfn:
                            t = self.anno_type(k.module, ann)
                            if t:
                                d.setdefault(tgt.attr, t)
            for n, t in self.attr_types(c).items():
                d[n] = t
            c._attr_descr = d
        return d

    # -------------------------------------------------------------- anchors
    def cls(self, name):
        """Find a class by bare or dotted name (must exist exactly once by bare name)"""
        if name in self.classes:
            return self.classes[name]
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise Missing("class %s not found" % name)
        raise Missing("class %s ambiguous: %s" % (name, [c.qual for c in hits]))

    def func(self, qual):
        """Module function 'pkg.mod.func' or method 'Class.method' (MRO lookup)"""
        if qual in self.funcs:
            return self.funcs[qual]
        if "." in qual:
            c, n = qual.rsplit(".", 1)
            f = self.lookup(self.cls(c), n)
            if f:
                return f
        hits = [f for f in self.by_name.get(qual, []) if f.cls is None]
        if len(hits) == 1:
            return hits[0]
        raise Missing("function %s not found" % qual)

    def method(self, c, name):
        f = self.lookup(c, name)
        if f is None:
            raise Missing("method %s.%s not found" % (c.qual, name))
        return f
