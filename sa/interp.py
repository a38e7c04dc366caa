"""Path-sensitive, interprocedural effect analysis over the Python AST.

`Interp` walks every control-flow path of an entry function (branches, loops
with a bounded number of iterations, try/except/else/finally, with, explicit
and implicit exceptions, inlined project calls, closures, context managers),
propagating *provenance terms* for values instead of values, and collecting the
ordered *events* a query declares interesting.  The result is the set of
distinct (outcome, events) traces.  No analysed code is imported or executed
and no solver is involved: branch conditions are opaque terms, remembered only
so that the same test is not decided both ways on one path.

Terms are nested tuples, see the constructors below.
"""
import ast
import re
import builtins as _bi
from .project import Class, Func, Project

# ------------------------------------------------------------------ terms
NONE = ("c", None)
NOT_NONE_OPS = ("+", "-", "*", "/", "//", "%", "fstr", "len", "==", "is", "in", "<", "not", "isinstance")
TRUE = ("c", True)
NOT_BOOL = ("new", "L", "D", "T", "fn", "cls", "clo", "bm", "exc", "partial", "o")
FALSE = ("c", False)


def const(v):
    return ("c", v)


def is_const(t, v=None):
    return t[0] == "c" and (v is None or t[1] == v)


def attr(b, *names):
    for n in names:
        b = ("a", b, n)
    return b


def show(t, depth=0):
    """Readable rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return "..."
    k = t[0]
    d = depth + 1
    if k == "c":
        return repr(t[1])
    if k == "p":
        return t[1]
    if k == "o":
        return "<%s>" % (t[1] if isinstance(t[1], str) else (t[2] or "obj").split(".")[-1])
    if k == "a":
        return show(t[1], d) + "." + t[2]
    if k == "i":
        return "%s[%s]" % (show(t[1], d), show(t[2], d))
    if k == "call":
        a = [show(x, d) for x in t[2]] + ["%s=%s" % (n, show(v, d)) for n, v in t[3]]
        return "%s(%s)" % (show(t[1], d), ", ".join(a))
    if k == "new":
        return "%s(%s)" % (t[1].split(".")[-1], ", ".join("%s=%s" % (n, show(v, d)) for n, v in t[2]))
    if k in ("cls", "fn", "mod", "ext"):
        return t[1].split(".")[-1]
    if k == "bm":
        return show(t[1], d) + "." + t[2].split(".")[-1]
    if k == "star":
        return "*" + show(t[1], d)
    if k == "T":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k in ("elem", "val", "idx"):
        return "%s<%s>" % (k, show(t[1], d))
    if k == "op":
        return t[1] + "(" + ", ".join(show(x, d) for x in t[2:]) + ")"
    if k == "exc":
        return "exc:" + str(t[1])
    if k in ("L", "D"):
        return "[..]" if k == "L" else "{..}"
    if k == "list":
        return "[" + ", ".join(show(x, d) for x in t[1]) + "]"
    if k == "dict":
        return "{" + ", ".join("%s: %s" % (show(a, d) if isinstance(a, tuple) else a, show(v, d)) for a, v in t[1]) + "}"
    if k == "clo":
        return t[1][0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t) + ")"
    return k + "(" + ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:3]) + ")"


def walk_term(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:] if t and isinstance(t[0], str) else t:
            if isinstance(x, tuple):
                for y in walk_term(x):
                    yield y


def contains(t, sub):
    return any(x == sub for x in walk_term(t))


def dotted(t):
    """'self.x.y' style rendering for attribute chains, '' if not a chain"""
    if t[0] == "a":
        b = dotted(t[1])
        return b + "." + t[2] if b else "." + t[2]
    if t[0] == "bm":
        b = dotted(t[1])
        return (b + "." if b else "") + t[2].split(".")[-1]
    if t[0] == "p":
        return t[1]
    if t[0] == "o" and isinstance(t[1], str):
        return t[1]
    if t[0] in ("ext", "fn", "cls", "mod"):
        return t[1]
    return ""


def last_name(t):
    """Bare name of a callable / attribute term"""
    if t[0] == "a":
        return t[2]
    if t[0] in ("bm",):
        return t[2].split(".")[-1]
    if t[0] in ("ext", "fn", "cls", "mod"):
        return t[1].split(".")[-1]
    if t[0] == "p":
        return t[1]
    if t[0] == "clo":
        return t[1][0]
    return ""


class Ev:
    """An event on a path"""
    __slots__ = ("kind", "term", "args", "kw", "node", "func", "extra", "_h")

    def __init__(self, kind, term, args=(), kw=(), node=None, func=None, extra=None):
        self.kind = kind
        self.term = term
        self.args = args
        self.kw = kw
        self.node = node
        self.func = func
        self.extra = extra
        self._h = hash((kind, term, args, kw, extra))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (self._h == o._h and self.kind == o.kind and self.term == o.term and self.args == o.args
                and self.kw == o.kw and self.extra == o.extra)

    def name(self):
        return last_name(self.term)

    def kwd(self, k, default=None):
        for n, v in self.kw:
            if n == k:
                return v
        return default

    def arg(self, i, name=None):
        if i < len(self.args):
            return self.args[i]
        return self.kwd(name) if name else None

    def loc(self):
        if self.node is not None and self.func is not None:
            return "%s:%d" % (self.func.module.rel, getattr(self.node, "lineno", 0))
        return "?"

    def __repr__(self):
        a = [show(x) for x in self.args] + ["%s=%s" % (n, show(v)) for n, v in self.kw]
        return "%s %s(%s)%s" % (self.kind, show(self.term), ", ".join(a),
                                " -> %s" % (self.extra,) if self.extra is not None else "")


class Query:
    """What to record and what to inline; subclass / instantiate with callables"""
    max_iter = 2
    max_depth = 14
    max_recursion = 2
    max_states = 25000
    raises = "guarded"      # "guarded": implicit exceptions only where something observes them; "all"
    record_conds = False

    def want_call(self, it, fn, args, kw, st):
        return False

    def want_store(self, it, base, name, value, st):
        return False

    def want_cond(self, it, term, st):
        return False

    def want_with(self, it, term, st):
        return False

    def node_interesting(self, node):
        """Does this AST node make the enclosing function worth inlining?"""
        return False

    def force_inline(self, f):
        return False

    def never_inline(self, f):
        return False

    def inline_ctor(self, c):
        return False

    def async_call(self, it, fn, args, kw, st):
        """return (callable term, args, kw) if this call runs a function later (spawn)"""
        return None

    def no_raise(self, it, fn, st):
        return False

    def opaque_result(self, it, fn, args, kw, st):
        return None

    def pure(self, it, fn, st):
        """calls whose result only depends on the terms and that never raise"""
        return False

    def raises_as(self, it, fn, st):
        """the exceptions a failing opaque call may raise"""
        return (("exc", "any", None),)

    def clobber(self, it, fn, args, st):
        """containers an opaque call may change"""
        return ()

    def effect(self, it, fn, args, kw, st):
        """what an opaque call that succeeded changes"""
        return st

    def counts(self, it, base, st):
        """possible numbers of elements of an unknown collection, None for 0..max_iter"""
        return None


class TooBig(Exception):
    pass


NORAISE_BUILTINS = {
    "isinstance", "len", "str", "repr", "print", "type", "id", "bool", "callable", "hasattr", "list", "dict",
    "tuple", "set", "enumerate", "zip", "reversed", "sorted", "object", "super", "range", "issubclass", "locals",
    "globals", "vars", "frozenset", "hash", "format", "abs",
}
CONTAINER_ONLY = {"append", "extend", "insert", "remove", "discard", "setdefault", "items", "keys", "values", "startswith",
                  "endswith", "split", "join", "format", "lower", "upper", "strip", "index", "copy", "__setitem__", "__delitem__"}
LOG_NAMES = {"debug", "info", "warning", "error", "exception", "critical", "log"}
NORAISE_EXT = {
    "time.time", "weakref.proxy", "functools.partial", "builtins.object", "collections.OrderedDict",
    "annotypes.stringify_error", "typing.cast", "threading.get_ident", "os.path.join", "logging.getLogger",
    "cothread.Yield", "operator.itemgetter",
}


class State:
    __slots__ = ("envs", "stack", "heap", "store", "conds", "events", "guard", "loops", "_n")

    def __init__(self):
        self.envs = {}
        self.stack = ()
        self.heap = {}
        self.store = {}
        self.conds = {}
        self.events = ()
        self.guard = 0
        self.loops = ()

    def copy(self):
        s = State.__new__(State)
        s.envs = self.envs
        s.stack = self.stack
        s.heap = self.heap
        s.store = self.store
        s.conds = self.conds
        s.events = self.events
        s.guard = self.guard
        s.loops = self.loops
        return s

    def set_local(self, fid, name, val):
        s = self.copy()
        e = dict(s.envs[fid])
        e[name] = val
        s.envs = dict(s.envs)
        s.envs[fid] = e
        return s

    def set_heap(self, uid, val):
        s = self.copy()
        s.heap = dict(s.heap)
        s.heap[uid] = val
        return s

    def set_store(self, key, val):
        s = self.copy()
        s.store = dict(s.store)
        if val is None:
            s.store.pop(key, None)
        else:
            s.store[key] = val
        return s

    def add_cond(self, term, val):
        s = self.copy()
        s.conds = dict(s.conds)
        s.conds[term] = val
        return s

    def snap(self, t, depth=0):
        """replace heap containers by their present contents"""
        if not isinstance(t, tuple) or not t:
            return t
        if depth > 8:
            return t
        if t[0] == "L" and len(t) == 2:
            h = self.heap.get(t[1])
            return t if h is None else ("list", tuple(self.snap(x, depth + 1) for x in h))
        if t[0] == "D" and len(t) == 2:
            h = self.heap.get(t[1])
            return t if h is None else ("dict", tuple((k if k == "**" else self.snap(k, depth + 1), self.snap(v, depth + 1)) for k, v in h))
        if t[0] in ("c", "cls", "fn", "ext", "mod", "p", "o", "g", "clo"):
            return t
        if t[0] in ("T",):
            return ("T", tuple(self.snap(x, depth + 1) for x in t[1]))
        if t[0] == "new":
            return ("new", t[1], tuple((n, self.snap(v, depth + 1)) for n, v in t[2]), t[3])
        if t[0] == "call":
            return ("call", t[1], tuple(self.snap(x, depth + 1) for x in t[2]),
                    tuple((n, self.snap(v, depth + 1)) for n, v in t[3]), t[4])
        if t[0] == "star":
            return ("star", self.snap(t[1], depth + 1))
        if t[0] == "op":
            return t[:2] + tuple(self.snap(x, depth + 1) for x in t[2:])
        return t

    def event(self, ev):
        args = tuple(self.snap(a) for a in ev.args)
        kw = tuple((n, self.snap(v)) for n, v in ev.kw)
        if args != ev.args or kw != ev.kw:
            ev = Ev(ev.kind, ev.term, args, kw, ev.node, ev.func, ev.extra)
        s = self.copy()
        s.events = s.events + (ev,)
        return s

    @property
    def frame(self):
        return self.stack[-1]


class Frame:
    __slots__ = ("fid", "func", "selfterm", "closure_fid", "cm", "concrete")

    def __init__(self, fid, func, selfterm, closure_fid=None, cm=None):
        self.fid = fid
        self.func = func
        self.selfterm = selfterm
        self.closure_fid = closure_fid
        self.cm = cm


class Trace:
    __slots__ = ("outcome", "value", "events", "state")

    def __init__(self, outcome, value, events, state=None):
        self.outcome = outcome
        self.value = value
        self.events = events
        self.state = state

    def __repr__(self):
        return "<%s %s | %s>" % (self.outcome, show(self.value) if self.value else "", "; ".join(map(repr, self.events)))


def _names_read(nodes, cache):
    out = set()
    for n in nodes:
        k = id(n)
        r = cache.get(k)
        if r is None:
            r = frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store))
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "super")
                   for x in ast.walk(n)):
                r = r | {"*"}
            cache[k] = (n, r)
        else:
            r = r[1]
        out |= r
    return out


OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}


class Interp:
    def __init__(self, project: Project, query: Query):
        self.p = project
        self.q = query
        self.closures = {}
        self._rel = None
        self._live = {}
        self.stats = {"inlined": set(), "states": 0, "calls": 0}
        self._rd_cache = {}
        self.hints = {}
        self.param_types = {}

    # ------------------------------------------------------- relevance
    def relevant(self, f):
        if self._rel is None:
            self._rel = self._relevance()
        return f.qual in self._rel

    def _relevance(self):
        direct = set()
        refs = {}
        for f in self.p.funcs.values():
            names = set()
            for n in ast.walk(f.node):
                if n is f.node:
                    continue
                if self.q.node_interesting(n):
                    direct.add(f.qual)
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, ast.Name):
                    names.add(n.id)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.With,)):
                    names.update(("__enter__", "__exit__"))
            refs[f.qual] = names
        rel_names = {q.split(".")[-1] for q in direct}
        rel = set(direct)
        # constructors make their class name relevant
        changed = True
        while changed:
            changed = False
            for q, names in refs.items():
                if q in rel:
                    continue
                if names & rel_names:
                    rel.add(q)
                    nm = q.split(".")[-1]
                    if nm not in rel_names:
                        rel_names.add(nm)
                    changed = True
            for q in list(rel):
                f = self.p.funcs[q]
                if f.name == "__init__" and f.cls and f.cls.name not in rel_names:
                    rel_names.add(f.cls.name)
                    changed = True
        return rel

    # ------------------------------------------------------------- types
    def type_of(self, t, st=None):
        d = self.descr(t, st)
        return d if isinstance(d, Class) else None

    def descr(self, t, st=None, depth=0):
        """type descriptor of a term (declared or inferred), None if unknown"""
        if depth > 12:
            return None
        k = t[0]
        if k == "o":
            return self.p.classes.get(t[2]) if t[2] else None
        if k == "new":
            return self.p.classes.get(t[1])
        if k == "exc":
            return self.p.classes.get(t[1])
        if st is not None:
            for c, v in st.conds.items():
                if v and c[0] == "op" and c[1] == "isinstance" and c[2] == t and c[3][0] == "cls":
                    return self.p.classes.get(c[3][1])
        r = None
        if k == "a":
            b = self.descr(t[1], st, depth + 1)
            if isinstance(b, Class):
                r = self.p.attr_descr(b).get(t[2])
        elif k == "p":
            r = self.param_types.get(t[1])
        elif k in ("val", "i", "elem"):
            b = self.descr(t[1], st, depth + 1)
            if isinstance(b, tuple):
                if b[0] == "dict":
                    r = b[2] if k == "elem" else b[1]
                elif b[0] == "list":
                    if k == "i" and t[2][0] == "op" and t[2][1] == "slice":
                        r = b
                    else:
                        r = b[1]
                elif b[0] == "tuple" and k == "i" and t[2][0] == "c" and isinstance(t[2][1], int) \
                        and -len(b[1]) <= t[2][1] < len(b[1]):
                    r = b[1][t[2][1]]
        elif k == "call":
            f = None
            if t[1][0] == "bm":
                f = self.p.funcs.get(t[1][2])
            elif t[1][0] == "fn":
                f = self.p.funcs.get(t[1][1])
            elif t[1][0] == "a" and t[1][2] in ("pop", "get", "setdefault", "popleft"):
                b = self.descr(t[1][1], st, depth + 1)
                if isinstance(b, tuple) and b[0] in ("dict", "list"):
                    r = b[1]
            elif t[1] == ("ext", "builtins.list") and len(t[2]) == 1:
                r = self.descr(t[2][0], st, depth + 1)
            if f is not None and f.node.returns is not None:
                r = self.p.anno_type(f.module, f.node.returns)
        if r is None:
            r = self.hints.get(t)
        return r

    # ------------------------------------------------------------- entry
    def run(self, func, self_cls=None, args=None, types=None, selfterm=None, conds=None, store=None):
        """Enumerate traces of `func`.  args: {param: term}; types: {param: Class}"""
        self.param_types = dict(types or {})
        st = State()
        if conds:
            st.conds = dict(conds)
        if store:
            st.store = dict(store)
        env = {}
        params = func.params
        a = func.node.args
        selft = None
        rest = list(params)
        if func.cls is not None and not func.is_static:
            if selfterm is None:
                c = self_cls or func.cls
                selfterm = ("o", "self", c.qual)
            selft = selfterm
            env[params[0]] = ("cls", (self_cls or func.cls).qual) if func.is_classmethod else selft
            rest = rest[1:]
        for n in rest + [x.arg for x in a.kwonlyargs]:
            env[n] = ("p", n)
            if n not in self.param_types:
                for x in a.args + a.kwonlyargs:
                    if x.arg == n:
                        c = self.p.anno_type(func.module, x.annotation)
                        if c:
                            self.param_types[n] = c
        if a.vararg:
            env[a.vararg.arg] = ("p", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("p", "**" + a.kwarg.arg)
        for n, t in (args or {}).items():
            env[n] = t
        if self.q.raises == "all":
            st.guard = 1
        fid = ("entry", func.qual)
        st.envs = {fid: env}
        st.stack = (Frame(fid, func, selft),)
        outs = self.block(func.node.body, st, frozenset())
        traces = {}
        for kind, val, s in outs:
            if kind in ("normal", "return"):
                v = val if kind == "return" else NONE
                tr = Trace("return", v, s.events, s)
            elif kind == "raise":
                tr = Trace("raise", val, s.events, s)
            else:
                continue
            key = (tr.outcome, tr.value, tr.events)
            traces.setdefault(key, tr)
        return list(traces.values())

    # ---------------------------------------------------------- statements
    def names_read(self, nodes):
        return _names_read(nodes, self._live)

    def block(self, stmts, st, live_after):
        """-> list of (kind, val, state); kinds normal/return/raise/break/continue"""
        states = [st]
        done = []
        n = len(stmts)
        for i, s in enumerate(stmts):
            if not states:
                break
            live = set(live_after)
            live |= self.names_read(stmts[i + 1:])
            nxt = []
            for x in states:
                for kind, val, y in self.stmt(s, x, live):
                    if kind == "normal":
                        nxt.append(y)
                    else:
                        done.append((kind, val, y))
            states = self.dedupe(nxt, live)
            self.stats["states"] = max(self.stats["states"], len(states) + len(done))
            if len(states) > self.q.max_states:
                raise TooBig("%s: %d states at line %s" % (st.frame.func.qual, len(states), s.lineno))
        done = self.dedupe_out(done)
        return done + [("normal", None, x) for x in states]

    def _reach(self, terms, heap):
        seen = set()
        work = list(terms)
        while work:
            t = work.pop()
            for x in walk_term(t):
                if isinstance(x, tuple) and len(x) == 2 and x[0] in ("L", "D") and x[1] not in seen:
                    seen.add(x[1])
                    h = heap.get(x[1])
                    if h:
                        work.extend(z for z in _flat(h))
        return seen

    def key(self, st, live, extra=()):
        fid = st.frame.fid
        env = st.envs[fid]
        if "*" in live:
            e = frozenset(env.items())
        else:
            nested = st.frame.func is not None and _has_nested(st.frame.func.node)
            if nested:
                e = frozenset(env.items())
            else:
                e = frozenset((k, v) for k, v in env.items() if k in live)
        others = frozenset((f.fid, frozenset(st.envs[f.fid].items())) for f in st.stack[:-1] if f.fid in st.envs)
        roots = [v for _, v in e] + [v for _, x in others for _, v in x] + list(st.store.values())
        roots.extend(extra)
        for ev in st.events:
            roots.append(ev.term)
            roots.extend(ev.args)
            roots.extend(v for _, v in ev.kw)
        if any(f.cm for f in st.stack):
            reach = set(st.heap)
        else:
            reach = self._reach(roots, st.heap)
        heap = frozenset((u, h) for u, h in st.heap.items() if u in reach)
        return (e, others, heap, frozenset(st.store.items()), st.events, st.guard, st.loops)

    def dedupe(self, states, live):
        if len(states) < 2:
            return states
        out = {}
        for s in states:
            k = self.key(s, live)
            o = out.get(k)
            if o is None:
                out[k] = s
            elif o.conds != s.conds:
                m = o.copy()
                m.conds = {a: b for a, b in o.conds.items() if s.conds.get(a) == b}
                out[k] = m
        return list(out.values())

    def dedupe_out(self, outs, live=None):
        if len(outs) < 2:
            return outs
        res = {}
        for kind, val, s in outs:
            lv = set() if kind in ("return", "raise") else ({"*"} if live is None else live)
            k = (kind, val, self.key(s, lv, (val,) if isinstance(val, tuple) else ()))
            o = res.get(k)
            if o is None:
                res[k] = (kind, val, s)
            elif o[2].conds != s.conds:
                m = o[2].copy()
                m.conds = {a: b for a, b in m.conds.items() if s.conds.get(a) == b}
                res[k] = (kind, val, m)
        return list(res.values())

    def stmt(self, s, st, live):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [("normal", None, st)]
        return m(s, st, live)

    def s_Expr(self, s, st, live):
        if isinstance(s.value, ast.Constant):
            return [("normal", None, st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self._yield(s.value, st)
        return [(("raise", v, x) if k == "raise" else ("normal", None, x)) for k, v, x in self.ev(s.value, st)]

    def _yield(self, node, st):
        fr = st.frame
        if fr.cm is not None:
            outs = []
            vals = [("ok", NONE, st)] if node.value is None else self.ev(node.value, st)
            for k, v, x in vals:
                if k == "raise":
                    outs.append((k, v, x))
                    continue
                if isinstance(node, ast.YieldFrom) and getattr(fr.cm, "gen", False):
                    outs.extend(fr.cm(v, x, True))
                else:
                    outs.extend(fr.cm(v, x))
            return outs
        outs = []
        vals = [("ok", NONE, st)] if getattr(node, "value", None) is None else self.ev(node.value, st)
        for k, v, x in vals:
            if k == "raise":
                outs.append((k, v, x))
            else:
                if self.q.want_call(self, ("ext", "<yield>"), (v,), (), x):
                    x = x.event(Ev("call", ("ext", "<yield>"), (v,), (), node, x.frame.func))
                outs.append(("normal", None, x))
        return outs

    def s_Pass(self, s, st, live):
        return [("normal", None, st)]

    def s_Import(self, s, st, live):
        for a in s.names:
            if a.asname or "." not in a.name:
                t = ("mod", a.name) if a.name in self.p.modules else ("ext", a.name)
                st = st.set_local(st.frame.fid, a.asname or a.name, t)
        return [("normal", None, st)]

    def s_ImportFrom(self, s, st, live):
        src = self.p._abs(st.frame.func.module, s)
        for a in s.names:
            t = ("ext", src + "." + a.name)
            if src in self.p.modules:
                r = self.p.resolve_name(self.p.modules[src], a.name)
                if r:
                    t = self._res_term(r)
            st = st.set_local(st.frame.fid, a.asname or a.name, t)
        return [("normal", None, st)]

    def s_Global(self, s, st, live):
        return [("normal", None, st)]

    s_Nonlocal = s_Global

    def s_ClassDef(self, s, st, live):
        return [("normal", None, st.set_local(st.frame.fid, s.name, ("ext", "local." + s.name)))]

    def s_FunctionDef(self, s, st, live):
        t = self._closure(s, st)
        return [("normal", None, st.set_local(st.frame.fid, s.name, t))]

    def _closure(self, node, st):
        f = st.frame.func
        name = getattr(node, "name", "<lambda>")
        key = (name, f.qual, node.lineno, node.col_offset)
        if key not in self.closures:
            nf = Func(f.qual + ".<locals>." + name, f.module, f.cls, node, parent=f)
            self.closures[key] = nf
        return ("clo", key, st.frame.fid)

    def s_Return(self, s, st, live):
        if s.value is None:
            return [("return", NONE, st)]
        return [(("raise" if k == "raise" else "return"), v, x) for k, v, x in self.ev(s.value, st)]

    def s_Break(self, s, st, live):
        return [("break", None, st)]

    def s_Continue(self, s, st, live):
        return [("continue", None, st)]

    def s_Raise(self, s, st, live):
        if s.exc is None:
            cur = st.envs[st.frame.fid].get("<exc>")
            return [("raise", cur or ("exc", "any", None), st)]
        out = []
        for k, v, x in self.ev(s.exc, st):
            if k == "raise":
                out.append((k, v, x))
            else:
                out.append(("raise", self._as_exc(v), x))
        return out

    def _as_exc(self, v):
        if v[0] == "exc":
            return v
        if v[0] == "new":
            return ("exc", v[1], v)
        if v[0] == "cls":
            return ("exc", v[1], v)
        if v[0] == "ext" and v[1].startswith("builtins."):
            return ("exc", v[1].split(".")[1], v)
        if v[0] == "call" and v[1][0] == "ext":
            n = v[1][1].split(".")[-1]
            return ("exc", n, v)
        return ("exc", "any", v)

    def s_Assert(self, s, st, live):
        out = []
        for k, truth, x in self.branch(s.test, st):
            if k == "raise":
                out.append(("raise", truth, x))
            elif truth:
                out.append(("normal", None, x))
            else:
                out.append(("raise", ("exc", "AssertionError", None), x))
        return out

    def s_If(self, s, st, live):
        out = []
        for k, truth, x in self.branch(s.test, st):
            if k == "raise":
                out.append(("raise", truth, x))
            else:
                out.extend(self.block(s.body if truth else s.orelse, x, live))
        return out

    def s_While(self, s, st, live):
        live = set(live) | self.names_read([s])
        out = []
        cur = [st]
        for it in range(self.q.max_iter + 1):
            nxt = []
            for x in cur:
                for k, truth, y in self.branch(s.test, x):
                    if k == "raise":
                        out.append(("raise", truth, y))
                    elif not truth:
                        out.extend(self.block(s.orelse, y, live))
                    elif it < self.q.max_iter:
                        y = y.copy()
                        y.loops = y.loops + ((s.lineno, it),)
                        for kk, vv, z in self.block(s.body, y, live):
                            z = z.copy()
                            z.loops = x.loops
                            if kk in ("normal", "continue"):
                                nxt.append(z)
                            elif kk == "break":
                                out.append(("normal", None, z))
                            else:
                                out.append((kk, vv, z))
            cur = self.dedupe(nxt, live)
            if not cur:
                break
        return out

    def s_For(self, s, st, live):
        live = set(live) | self.names_read([s])
        out = []
        for k, it, x in self.ev(s.iter, st):
            if k == "raise":
                out.append((k, it, x))
                continue
            for seq in self.iterations(it, x):
                states = [x]
                for idx, el in enumerate(seq):
                    nxt = []
                    for y in states:
                        y = y.copy()
                        base_loops = y.loops
                        y.loops = y.loops + ((s.lineno, idx),)
                        for kk, vv, z in self.assign(s.target, el, y):
                            if kk == "raise":
                                out.append((kk, vv, z))
                                continue
                            for k3, v3, w in self.block(s.body, z, live):
                                w = w.copy()
                                w.loops = base_loops
                                if k3 in ("normal", "continue"):
                                    nxt.append(w)
                                elif k3 == "break":
                                    out.append(("normal", None, w))
                                else:
                                    out.append((k3, v3, w))
                    states = self.dedupe(nxt, live)
                for y in states:
                    out.extend(self.block(s.orelse, y, live))
        return out

    s_AsyncFor = s_For

    def s_With(self, s, st, live):
        return self._with(s.items, s.body, st, live)

    s_AsyncWith = s_With

    def _with(self, items, body, st, live):
        if not items:
            return self.block(body, st, live)
        item = items[0]
        out = []
        for k, cm, x in self.ev_cm(item.context_expr, st):
            if k == "raise":
                out.append((k, cm, x))
                continue

            def run_body(v, y):
                # back in the frame of the with statement
                saved = y.stack
                y = y.copy()
                y.stack = x.stack
                res = []
                starts = [("ok", None, y)]
                if item.optional_vars is not None:
                    starts = self.assign(item.optional_vars, v, y)
                for kk, vv, z in starts:
                    if kk == "raise":
                        res.append((kk, vv, z))
                    else:
                        res.extend(self._with(items[1:], body, z, live))
                fixed = []
                for kk, vv, z in res:
                    z = z.copy()
                    z.stack = saved
                    fixed.append((kk, vv, z))
                return fixed

            if isinstance(cm, _CM):
                out.extend(self._inline_cm(cm, x, run_body))
                continue
            c = self.type_of(cm, x)
            if c and self.p.lookup(c, "__enter__") and self.p.lookup(c, "__exit__"):
                f_in, f_out = self.p.lookup(c, "__enter__"), self.p.lookup(c, "__exit__")
                if self.relevant(f_in) or self.relevant(f_out) or self.q.force_inline(f_out):
                    for kk, vv, y in self.call_func(f_in, cm, [], [], item.context_expr, x):
                        if kk == "raise":
                            out.append((kk, vv, y))
                            continue
                        y = y.copy()
                        y.guard += 1
                        for k3, v3, z in run_body(vv, y):
                            z = z.copy()
                            z.guard -= 1
                            a = [NONE] * 3 if k3 != "raise" else [("a", v3, "__class__"), v3, ("p", "<tb>")]
                            for k4, v4, w in self.call_func(f_out, cm, a, [], item.context_expr, z):
                                if k4 == "raise":
                                    out.append((k4, v4, w))
                                elif k3 == "raise" and is_const(v4, True):
                                    out.append(("normal", None, w))
                                else:
                                    out.append((k3, v3, w))
                    continue
            want = self.q.want_with(self, cm, x)
            y = x
            if want:
                y = y.event(Ev("enter", cm, (), (), item.context_expr, y.frame.func))
            y = y.copy()
            y.guard += 1
            for k3, v3, z in run_body(cm, y):
                z = z.copy()
                z.guard -= 1
                if want:
                    z = z.event(Ev("exit", cm, (), (), item.context_expr, z.frame.func))
                # suppress-like managers
                if k3 == "raise" and cm[0] == "call" and last_name(cm[1]) == "suppress":
                    out.append(("normal", None, z))
                    if len(cm[2]) == 1 and last_name(cm[2][0]) == "Exception":
                        continue
                out.append((k3, v3, z))
        return out

    def ev_cm(self, node, st):
        """Evaluate the expression of a with item, keeping project context managers unexpanded"""
        call = node if isinstance(node, ast.Call) else None
        target = node.func if call else node
        if isinstance(target, ast.Attribute):
            res = []
            for k, b, x in self.ev(target.value, st):
                if k == "raise":
                    return self.ev(node, st)
                c = self.type_of(b, x)
                f = self.p.lookup(c, target.attr) if c else None
                if f is not None and f.is_cm and (f.is_property == (call is None)):
                    if self.relevant(f) or self.q.force_inline(f):
                        args, kw = [], []
                        if call:
                            for kk, (args, kw), y in self.ev_args(call, x):
                                if kk == "raise":
                                    res.append((kk, args, y))
                                else:
                                    res.append(("ok", _CM(f, b, args, kw, node), y))
                        else:
                            res.append(("ok", _CM(f, b, [], [], node), x))
                        continue
                return self.ev(node, st)
            return res
        if call and isinstance(target, ast.Name):
            for k, b, x in self.ev(target, st):
                f = self._func_of(b)
                if k == "ok" and f is not None and f.is_cm and (self.relevant(f) or self.q.force_inline(f) or b[0] == "clo"):
                    res = []
                    for kk, ak, y in self.ev_args(call, x):
                        if kk == "raise":
                            res.append((kk, ak, y))
                        else:
                            res.append(("ok", _CM(f, None, ak[0], ak[1], node, b), y))
                    return res
        return self.ev(node, st)

    def _func_of(self, t):
        if t[0] == "fn":
            return self.p.funcs.get(t[1])
        if t[0] == "bm":
            return self.p.funcs.get(t[2])
        if t[0] == "clo":
            return self.closures.get(t[1])
        return None

    def _inline_cm(self, cm, st, run_body):
        st = st.copy()
        st.guard += 1
        res = self.call_func(cm.func, cm.obj, cm.args, cm.kw, cm.node, st, cm=run_body,
                             closure=cm.term, raw=True)
        out = []
        for k, v, x in res:
            x = x.copy()
            x.guard -= 1
            out.append((k, v, x))
        return out

    def s_Try(self, s, st, live):
        tail = self.names_read([h for h in s.handlers]) | self.names_read(s.orelse) | self.names_read(s.finalbody)
        live2 = set(live) | tail
        x = st.copy()
        x.guard += 1
        res = []
        for k, v, y in self.block(s.body, x, live2):
            y = y.copy()
            y.guard -= 1
            if k == "raise":
                res.extend(self._handlers(s, v, y, live2))
            elif k == "normal":
                y2 = y.copy()
                if s.finalbody:
                    y2.guard += 1
                for kk, vv, z in self.block(s.orelse, y2, live2):
                    if s.finalbody:
                        z = z.copy()
                        z.guard -= 1
                    res.append((kk, vv, z))
            else:
                res.append((k, v, y))
        if not s.finalbody:
            return self.dedupe_out(res, live2)
        res = self.dedupe_out([r for r in res if r[0] != "normal"]) + [
            ("normal", None, z) for z in self.dedupe([r[2] for r in res if r[0] == "normal"], live2)]
        out = []
        for k, v, y in res:
            for kk, vv, z in self.block(s.finalbody, y, set(live) | {"<exc>"}):
                if kk == "normal":
                    out.append((k, v, z))
                else:
                    out.append((kk, vv, z))
        return out

    def _handlers(self, s, exc, st, live):
        out = []
        remaining = True
        for h in s.handlers:
            m = self.matches(h.type, exc, st)
            if m == "no":
                continue
            y = st
            fid = y.frame.fid
            e = exc
            if exc[1] == "any" and h.type is not None and m == "maybe":
                t = self._exc_names(h.type, st)
                if len(t) == 1:
                    e = ("exc", list(t)[0], exc)
            old = y.envs[fid].get("<exc>")
            if h.name:
                y = y.set_local(fid, h.name, e)
            y = y.set_local(fid, "<exc>", e)
            if s.finalbody:
                y = y.copy()
                y.guard += 1
            for k, v, z in self.block(h.body, y, set(live) | {"<exc>"}):
                z = z.copy()
                if s.finalbody:
                    z.guard -= 1
                env = dict(z.envs[fid])
                if old is None:
                    env.pop("<exc>", None)
                else:
                    env["<exc>"] = old
                if h.name:
                    env.pop(h.name, None)
                z.envs = dict(z.envs)
                z.envs[fid] = env
                out.append((k, v, z))
            if m == "yes":
                remaining = False
                break
            if exc[1] == "any" and h.type is not None:
                # what goes on past this handler is none of its classes
                t = self._exc_names(h.type, st)
                if "?" not in t:
                    exc = exc[:3] + (frozenset(t) | (exc[3] if len(exc) > 3 else frozenset()),)
        if remaining:
            out.append(("raise", exc, st))
        return out

    def _exc_names(self, typ, st):
        elts = typ.elts if isinstance(typ, ast.Tuple) else [typ]
        names = set()
        for e in elts:
            r = None
            for k, v, _ in self.ev(e, st):
                r = v
            if r is None:
                names.add("?")
            elif r[0] == "cls":
                names.add(r[1])
            elif r[0] == "ext":
                names.add(r[1].split(".")[-1])
            else:
                names.add("?")
        return names

    def matches(self, typ, exc, st):
        if typ is None:
            return "yes"
        names = self._exc_names(typ, st)
        if names & {"Exception", "BaseException"}:
            return "yes"
        if exc[1] == "any":
            if len(exc) > 3 and "?" not in names and all(self._exc_anc(n) & exc[3] for n in names):
                return "no"
            return "maybe"
        anc = self._exc_anc(exc[1])
        if names & anc:
            return "yes"
        if "?" in names:
            return "maybe"
        if exc[2] is not None and isinstance(exc[2], tuple) and exc[2][0] == "exc":
            # narrowed from an unknown one: could be a subclass
            for n in names:
                if exc[1] in self._exc_anc(n):
                    return "maybe"
        return "no"

    def _exc_anc(self, n):
        out = {n}
        c = self.p.classes.get(n)
        if c is not None:
            for k in self.p.mro(c):
                if isinstance(k, Class):
                    out.add(k.qual)
                else:
                    out |= self._exc_anc(k.split(":")[1].split(".")[-1])
            return out
        b = getattr(_bi, n, None)
        if isinstance(b, type):
            out |= {k.__name__ for k in b.__mro__}
        return out

    # ------------------------------------------------------- assignment
    def s_Assign(self, s, st, live):
        out = []
        for k, v, x in self.ev(s.value, st):
            if k == "raise":
                out.append((k, v, x))
                continue
            cur = [("ok", None, x)]
            for t in s.targets:
                nxt = []
                for kk, vv, y in cur:
                    if kk == "raise":
                        nxt.append((kk, vv, y))
                    else:
                        nxt.extend(self.assign(t, v, y))
                cur = nxt
            out.extend((("raise", vv, y) if kk == "raise" else ("normal", None, y)) for kk, vv, y in cur)
        return out

    def s_AnnAssign(self, s, st, live):
        if s.value is None:
            return [("normal", None, st)]
        out = []
        for k, v, x in self.ev(s.value, st):
            if k == "raise":
                out.append((k, v, x))
            else:
                out.extend((("raise", vv, y) if kk == "raise" else ("normal", None, y))
                           for kk, vv, y in self.assign(s.target, v, x))
        return out

    def s_AugAssign(self, s, st, live):
        out = []
        load = _as_load(s.target)
        for k, cur, x in self.ev(load, st):
            if k == "raise":
                out.append((k, cur, x))
                continue
            for kk, v, y in self.ev(s.value, x):
                if kk == "raise":
                    out.append((kk, v, y))
                    continue
                if cur[0] == "L" and isinstance(s.op, (ast.Add, ast.BitOr)):
                    y = self.list_extend(cur, v, y)
                    out.append(("normal", None, y))
                    continue
                op = OPS.get(type(s.op), "?")
                val = self.binop(op, cur, v)
                if self.q.want_call(self, ("ext", "<aug%s>" % op), (cur, v), (), y):
                    y = y.event(Ev("call", ("ext", "<aug%s>" % op), (cur, v), (), s, y.frame.func))
                for k3, v3, z in self.assign(s.target, val, y):
                    out.append(("raise", v3, z) if k3 == "raise" else ("normal", None, z))
        return out

    def s_Delete(self, s, st, live):
        cur = [("ok", None, st)]
        for t in s.targets:
            nxt = []
            for k, v, x in cur:
                if k == "raise":
                    nxt.append((k, v, x))
                    continue
                if isinstance(t, ast.Subscript):
                    for kk, b, y in self.ev(t.value, x):
                        if kk == "raise":
                            nxt.append((kk, b, y))
                            continue
                        for k3, i, z in self.ev(t.slice, y):
                            if k3 == "raise":
                                nxt.append((k3, i, z))
                                continue
                            if z.guard and self._may_raise():
                                nxt.append(("raise", ("exc", "KeyError", None), z))
                            if b[0] == "D":
                                h = z.heap.get(b[1]) or ()
                                z = z.set_heap(b[1], tuple(kv for kv in h if kv[0] != i))
                            elif b[0] == "L" and z.heap.get(b[1]) is not None:
                                h = z.heap[b[1]]
                                n = i[1] if i[0] == "c" and isinstance(i[1], int) else None
                                if n is not None and -len(h) <= n < len(h) and not any(e[0] == "star" for e in h):
                                    n %= len(h)
                                    z = z.set_heap(b[1], h[:n] + h[n + 1:])
                                elif i[:2] == ("op", "slice") and i[2:] == (NONE, NONE, NONE):
                                    z = z.set_heap(b[1], ())
                                else:
                                    z = self._forget(z.set_heap(b[1], None), b)
                            if self.q.want_call(self, ("a", b, "__delitem__"), (i,), (), z):
                                z = z.event(Ev("call", ("a", b, "__delitem__"), (i,), (), t, z.frame.func))
                            z = z.set_store((b, "[]", i), None)
                            z = self._forget(z, ("i", b, i))
                            nxt.append(("ok", None, z))
                elif isinstance(t, ast.Name):
                    env = dict(x.envs[x.frame.fid])
                    env.pop(t.id, None)
                    y = x.copy()
                    y.envs = dict(y.envs)
                    y.envs[x.frame.fid] = env
                    nxt.append(("ok", None, y))
                else:
                    nxt.append(("ok", None, x))
            cur = nxt
        return [(("raise", v, x) if k == "raise" else ("normal", None, x)) for k, v, x in cur]

    def _may_raise(self):
        return True

    def assign(self, target, val, st):
        """-> list of (ok|raise, val, state)"""
        if isinstance(target, ast.Name):
            fid = st.frame.fid
            # nonlocal / global writes: find an enclosing frame that declares it nonlocal
            fr = st.frame
            if target.id not in st.envs[fid] and _declares(fr.func.node, target.id) and fr.closure_fid:
                fid = fr.closure_fid
            return [("ok", None, st.set_local(fid, target.id, val))]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            vals = None
            star = next((i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)), None)
            known = None
            if val[0] == "T":
                known = list(val[1])
            elif val[0] == "L" and st.heap.get(val[1]) is not None:
                known = list(st.heap.get(val[1]))
            if known is not None and not any(v[0] == "star" for v in known):
                if star is None and len(known) == n:
                    vals = known
                elif star is not None and len(known) >= n - 1:
                    after = n - 1 - star
                    end = len(known) - after
                    vals = known[:star] + [("T", tuple(known[star:end]))] + known[end:]
            if vals is None and star is not None:
                after = n - 1 - star
                vals = [self.item(val, const(i)) for i in range(star)]
                vals.append(self.item(val, ("op", "slice", const(star) if star else NONE, const(-after) if after else NONE, NONE)))
                vals += [self.item(val, const(i - after)) for i in range(after)]
            if vals is None:
                vals = [self.item(val, const(i)) for i in range(n)]
            cur = [("ok", None, st)]
            for t, v in zip(target.elts, vals):
                if isinstance(t, ast.Starred):
                    t = t.value
                nxt = []
                for k, vv, x in cur:
                    if k == "raise":
                        nxt.append((k, vv, x))
                    else:
                        nxt.extend(self.assign(t, v, x))
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for k, b, x in self.ev(target.value, st):
                if k == "raise":
                    out.append((k, b, x))
                else:
                    out.append(("ok", None, self.store_attr(b, target.attr, val, x, target)))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for k, b, x in self.ev(target.value, st):
                if k == "raise":
                    out.append((k, b, x))
                    continue
                for kk, i, y in self.ev(target.slice, x):
                    if kk == "raise":
                        out.append((kk, i, y))
                        continue
                    out.append(("ok", None, self.store_item(b, i, val, y, target)))
            return out
        return [("ok", None, st)]

    def store_attr(self, b, name, val, st, node):
        if self.q.want_store(self, b, name, val, st):
            st = st.event(Ev("store", ("a", b, name), (val,), (), node, st.frame.func))
        st = st.set_store((b, name), val)
        return self._forget(st, ("a", b, name))

    def store_item(self, b, i, val, st, node):
        if self.q.want_call(self, ("a", b, "__setitem__"), (i, val), (), st):
            st = st.event(Ev("call", ("a", b, "__setitem__"), (i, val), (), node, st.frame.func))
        if b[0] == "D":
            h = st.heap.get(b[1], ())
            h = tuple(kv for kv in h if kv[0] != i) + ((i, val),)
            return st.set_heap(b[1], h)
        if b[0] == "L":
            h = st.heap.get(b[1])
            if h is not None and i[0] == "c" and isinstance(i[1], int) and -len(h) <= i[1] < len(h):
                h = list(h)
                h[i[1]] = val
                return st.set_heap(b[1], tuple(h))
            return st
        st = st.set_store((b, "[]", i), val)
        return self._forget(st, ("i", b, i))

    def _forget(self, st, term):
        """drop remembered branch decisions that mention an overwritten location"""
        bad = [c for c in st.conds if contains(c, term)]
        if bad:
            st = st.copy()
            st.conds = {c: v for c, v in st.conds.items() if c not in bad}
        return st

    def _havoc(self, st):
        """an opaque call may change any mutable location: forget decisions about attributes/items"""
        bad = [c for c in st.conds if any(isinstance(x, tuple) and x and x[0] in ("a", "i", "call")
                                          for x in walk_term(c)) and not _fixed(c)]
        if bad:
            st = st.copy()
            st.conds = {c: v for c, v in st.conds.items() if c not in bad}
        return st

    # ---------------------------------------------------------- iteration
    def _counts(self, base, st):
        c = self.q.counts(self, base, st)
        return list(c) if c is not None else range(self.q.max_iter + 1)

    def iterations(self, it, st):
        """Possible element sequences of one traversal of `it`"""
        k = it[0]
        if k == "T":
            return self._expand(it[1])
        if k == "L":
            h = st.heap.get(it[1])
            if h is not None:
                return self._expand(h)
        if k == "D":
            h = st.heap.get(it[1])
            if h is not None:
                return self._expand([kv[0] if kv[0] != "**" else ("star", kv[1]) for kv in h])
        if k == "c" and isinstance(it[1], (str, tuple, list)):
            if len(it[1]) <= 4:
                return [[const(x) for x in it[1]]]
        if k == "call":
            n = last_name(it[1])
            a = it[2]
            if it[1][0] in ("a", "bm") and n in ("items", "values", "keys") and not a:
                base = it[1][1]
                if base[0] == "D":
                    h = st.heap.get(base[1])
                    if h is not None:
                        if n == "items":
                            els = [("T", kv) if kv[0] != "**" else ("star", kv[1]) for kv in h]
                        elif n == "values":
                            els = [kv[1] if kv[0] != "**" else ("star", kv[1]) for kv in h]
                        else:
                            els = [kv[0] if kv[0] != "**" else ("star", kv[1]) for kv in h]
                        return self._expand(els)
                out = []
                for cnt in self._counts(base, st):
                    if n == "items":
                        out.append([("T", (("elem", base, i), ("val", base, i))) for i in range(cnt)])
                    elif n == "values":
                        out.append([("val", base, i) for i in range(cnt)])
                    else:
                        out.append([("elem", base, i) for i in range(cnt)])
                return out
            if it[1][0] == "ext":
                if n == "enumerate" and a:
                    start = a[1] if len(a) > 1 else const(0)
                    return [[("T", (self.binop("+", start, const(i)) if start[0] == "c" else ("idx", a[0], i), e))
                             for i, e in enumerate(seq)] for seq in self.iterations(a[0], st)]
                if n in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset") and a:
                    seqs = self.iterations(a[0], st)
                    if n == "reversed":
                        seqs = [list(reversed(s)) for s in seqs]
                    return seqs
                if n == "zip" and a and all(x[0] != "star" for x in a):
                    first = self.iterations(a[0], st)
                    out = []
                    for seq in first:
                        cnt = len(seq)
                        others = []
                        for o in a[1:]:
                            m = [q for q in self.iterations(o, st) if len(q) == cnt]
                            others.append(m[0] if m else [("elem", o, i) for i in range(cnt)])
                        out.append([("T", (seq[i],) + tuple(o[i] for o in others)) for i in range(cnt)])
                    return out
                if n == "range" and len(a) == 1 and a[0][0] == "c" and isinstance(a[0][1], int) and a[0][1] <= 4:
                    return [[const(i) for i in range(a[0][1])]]
        return [[self.elem(it, i) for i in range(cnt)] for cnt in self._counts(it, st)]

    def elem(self, base, i):
        # elements of a copy are elements of the original
        while base[0] == "call" and base[1][0] == "ext" and last_name(base[1]) in (
                "list", "tuple", "sorted", "iter", "set", "copy") and len(base[2]) == 1:
            base = base[2][0]
        return ("elem", base, i)

    def _expand(self, els):
        """known elements, with ("star", t) standing for 0..max_iter unknown ones"""
        seqs = [[]]
        for e in els:
            if e[0] == "star":
                seqs = [s + [self.elem(e[1], i) for i in range(c)] for s in seqs for c in self._counts(e[1], None)]
            else:
                seqs = [s + [e] for s in seqs]
        return seqs

    # --------------------------------------------------------- expressions
    def ev(self, n, st):
        """-> list of (ok|raise, term, state)"""
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return [("ok", ("p", "<%s>" % type(n).__name__), st)]
        return m(n, st)

    def ev_list(self, nodes, st):
        cur = [("ok", [], st)]
        for n in nodes:
            nxt = []
            for k, vs, x in cur:
                if k == "raise":
                    nxt.append((k, vs, x))
                    continue
                if isinstance(n, ast.Starred):
                    for kk, v, y in self.ev(n.value, x):
                        if kk == "raise":
                            nxt.append((kk, v, y))
                        elif v[0] == "T":
                            nxt.append(("ok", vs + list(v[1]), y))
                        elif v[0] == "L" and y.heap.get(v[1]) is not None:
                            nxt.append(("ok", vs + list(y.heap[v[1]]), y))
                        else:
                            nxt.append(("ok", vs + [("star", v)], y))
                else:
                    for kk, v, y in self.ev(n, x):
                        nxt.append((kk, v, y) if kk == "raise" else ("ok", vs + [v], y))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        v = n.value
        try:
            hash(v)
        except TypeError:
            v = repr(v)
        return [("ok", ("c", v), st)]

    def _res_term(self, r):
        if r[0] == "func":
            return ("fn", r[1].qual)
        if r[0] == "class":
            return ("cls", r[1].qual)
        if r[0] == "module":
            return ("mod", r[1].name)
        if r[0] == "ext":
            return ("ext", r[1])
        return None

    def global_name(self, m, name, st):
        r = self.p.resolve_name(m, name)
        if r is None:
            if hasattr(_bi, name):
                return ("ext", "builtins." + name)
            return ("p", name)
        t = self._res_term(r)
        if t is not None:
            return t
        e = r[2]
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return ("c", -e.operand.value)
        if isinstance(e, ast.Tuple) and all(isinstance(x, ast.Constant) for x in e.elts):
            return ("T", tuple(("c", x.value) for x in e.elts))
        return ("g", r[1].name + "." + name)

    def e_Name(self, n, st):
        fr = st.frame
        fid = fr.fid
        env = st.envs[fid]
        if n.id in env:
            return [("ok", env[n.id], st)]
        # closures
        c = fr.closure_fid
        while c is not None:
            e = st.envs.get(c)
            if e is None:
                break
            if n.id in e:
                return [("ok", e[n.id], st)]
            c = e.get("<closure>")
        return [("ok", self.global_name(fr.func.module, n.id, st), st)]

    def e_Attribute(self, n, st):
        out = []
        for k, b, x in self.ev(n.value, st):
            if k == "raise":
                out.append((k, b, x))
            else:
                out.extend(self.get_attr(b, n.attr, x, n))
        return out

    def get_attr(self, b, name, st, node):
        s = st.store.get((b, name))
        if s is not None:
            return [("ok", s, st)]
        k = b[0]
        if k == "mod":
            m = self.p.modules[b[1]]
            r = self.p.resolve_name(m, name)
            if r is None and m.name + "." + name in self.p.modules:
                return [("ok", ("mod", m.name + "." + name), st)]
            return [("ok", self.global_name(m, name, st) if r else ("ext", b[1] + "." + name), st)]
        if k == "ext":
            return [("ok", ("ext", b[1] + "." + name), st)]
        if k == "cls":
            c = self.p.classes[b[1]]
            f = self.p.lookup(c, name)
            if f:
                if f.is_classmethod:
                    return [("ok", ("bm", b, f.qual), st)]
                return [("ok", ("fn", f.qual), st)]
            kc, e = self.p.class_attr(c, name)
            if isinstance(e, ast.Constant) and not self._is_enum(c):
                return [("ok", ("c", e.value), st)]
            return [("ok", ("a", b, name), st)]
        if k == "super":
            c = self.p.classes[b[2]]
            after = self.p.classes[b[3]]
            f = self.p.lookup(c, name, after=after)
            if f:
                if f.is_property:
                    return self.call_func(f, b[1], [], [], node, st)
                return [("ok", ("bm", b[1], f.qual), st)]
            return [("ok", ("a", b, name), st)]
        if k == "new":
            for pn, v in b[2]:
                if pn == name:
                    return [("ok", v, st)]
        c = self.type_of(b, st)
        if c is not None:
            f = self.p.lookup(c, name)
            if f is not None:
                if f.is_property:
                    if not f.is_cm and (self.relevant(f) or self.q.force_inline(f) or _trivial(f)) \
                            and not self.q.never_inline(f) and len(st.stack) < self.q.max_depth:
                        return self.call_func(f, b, [], [], node, st)
                    return [("ok", ("a", b, name), st)]
                if f.is_static:
                    return [("ok", ("fn", f.qual), st)]
                return [("ok", ("bm", b, f.qual), st)]
            kc, e = self.p.class_attr(c, name)
            if e is not None and isinstance(e, ast.Constant) and name.isupper():
                return [("ok", ("c", e.value), st)]
        return [("ok", ("a", b, name), st)]

    def _is_enum(self, c):
        return any(isinstance(k, str) and k.split(".")[-1] in ("ext:Enum", "Enum", "IntEnum") for k in self.p.mro(c))

    def item(self, b, i):
        if b[0] == "T" and i[0] == "c" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]) \
                and not any(x[0] == "star" for x in b[1]):
            return b[1][i[1]]
        if i[0] == "elem" and i[1] == b:
            return ("val", b, i[2])
        if b[0] == "elem" and b[1][0] == "call" and last_name(b[1][1]) == "items" and i[0] == "c":
            base = b[1][1][1] if b[1][1][0] in ("a", "bm") else None
            if base is not None:
                return ("elem", base, b[2]) if i[1] == 0 else ("val", base, b[2])
        return ("i", b, i)

    def e_Subscript(self, n, st):
        out = []
        for k, b, x in self.ev(n.value, st):
            if k == "raise":
                out.append((k, b, x))
                continue
            for kk, i, y in self.ev(n.slice, x):
                if kk == "raise":
                    out.append((kk, i, y))
                    continue
                out.extend(self.get_item(b, i, y, n))
        return out

    def get_item(self, b, i, st, node):
        s = st.store.get((b, "[]", i))
        if s is not None:
            return [("ok", s, st)]
        if i[0] == "c" and isinstance(i[1], int):
            # an element written through the other sign of the index may be this one
            for (key, v) in st.store.items():
                if len(key) == 3 and key[0] == b and key[1] == "[]" and key[2][0] == "c" and isinstance(key[2][1], int) \
                        and (key[2][1] < 0) != (i[1] < 0):
                    return [("ok", ("op", "alias", self.item(b, i), v), st)]
        out = []
        if b[0] == "D":
            h = st.heap.get(b[1], ())
            for kv in h:
                if kv[0] == i:
                    return [("ok", kv[1], st)]
            keys = [kv for kv in h if kv[0] != "**"]
            if i[0] == "c" and all(kv[0][0] == "c" for kv in keys) and len(keys) == len(h):
                return [("raise", ("exc", "KeyError", None), st)]
            if keys and len(keys) == len(h):
                # dispatch through a literal table: one path per entry
                for kv in keys:
                    y = st.add_cond(("op", "==", i, kv[0]), True)
                    if self._type_eq(i, kv[0], st) is False:
                        continue
                    if self.q.want_cond(self, ("op", "==", i, kv[0]), y):
                        y = y.event(Ev("cond", ("op", "==", i, kv[0]), (), (), node, y.frame.func, True))
                    out.append(("ok", kv[1], y))
                    if self._type_eq(i, kv[0], st) is True:
                        return [out[-1]]
                if st.guard:
                    out.append(("raise", ("exc", "KeyError", None), st))
                return out
        if b[0] == "L":
            h = st.heap.get(b[1])
            if h is not None and i[0] == "c" and isinstance(i[1], int):
                if not any(x[0] == "star" for x in h):
                    if -len(h) <= i[1] < len(h):
                        return [("ok", h[i[1]], st)]
        c = self.type_of(b, st)
        if c is not None:
            f = self.p.lookup(c, "__getitem__")
            if f is not None and self.relevant(f) and not self.q.never_inline(f):
                return self.call_func(f, b, [i], [], node, st)
        # typed / symbolic containers
        if st.guard and not (i[0] == "op" and i[1] == "slice"):
            if not (b[0] in ("T",) or i == ("c", 0) and b[0] == "call" and last_name(b[1]) in ("unpack", "split", "rsplit", "partition", "rpartition")):
                out.append(("raise", ("exc", "KeyError" if self._keyish(i) else "any", None), st))
        out.append(("ok", self.item(b, i), st))
        return out

    @staticmethod
    def _keyish(i):
        return not (i[0] == "c" and isinstance(i[1], int))

    def _type_eq(self, a, b, st):
        """type(x) == Cls decided when x's class is known"""
        if a[0] == "call" and a[1] == ("ext", "builtins.type") and b[0] == "cls":
            c = self.type_of(a[2][0], st)
            if c is not None and a[2][0][0] in ("o", "new"):
                return c.qual == b[1]
        return None

    def e_Slice(self, n, st):
        parts = [n.lower or ast.Constant(None), n.upper or ast.Constant(None), n.step or ast.Constant(None)]
        return [(k, ("op", "slice") + tuple(v) if k == "ok" else v, x) for k, v, x in self.ev_list(parts, st)]

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        return [(k, ("T", tuple(v)) if k == "ok" else v, x) for k, v, x in self.ev_list(n.elts, st)]

    def uid(self, n, st):
        f = st.frame
        return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0), f.fid, st.loops)

    def e_List(self, n, st):
        out = []
        for k, v, x in self.ev_list(n.elts, st):
            if k == "raise":
                out.append((k, v, x))
            else:
                u = self.uid(n, x) + (("set",) if isinstance(n, ast.Set) else ())
                out.append(("ok", ("L", u), x.set_heap(u, tuple(v))))
        return out

    e_Set = e_List

    def e_Dict(self, n, st):
        ks = [k if k is not None else ast.Constant("**") for k in n.keys]
        out = []
        for k, v, x in self.ev_list([z for kv in zip(ks, n.values) for z in kv], st):
            if k == "raise":
                out.append((k, v, x))
                continue
            items = []
            for i, kn in enumerate(n.keys):
                if kn is None:
                    d = v[2 * i + 1]
                    if d[0] == "D" and x.heap.get(d[1]) is not None:
                        for kv in x.heap[d[1]]:
                            items = [z for z in items if z[0] != kv[0] or kv[0] == "**"] + [kv]
                    else:
                        items.append(("**", d))
                else:
                    items = [z for z in items if z[0] != v[2 * i]] + [(v[2 * i], v[2 * i + 1])]
            u = self.uid(n, x)
            out.append(("ok", ("D", u), x.set_heap(u, tuple(items))))
        return out

    def e_Starred(self, n, st):
        return [(k, ("star", v) if k == "ok" else v, x) for k, v, x in self.ev(n.value, st)]

    def e_JoinedStr(self, n, st):
        nodes = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for k, v, x in self.ev_list(nodes, st):
            if k == "raise":
                out.append((k, v, x))
                continue
            parts = []
            it = iter(v)
            for p in n.values:
                if isinstance(p, ast.FormattedValue):
                    y = next(it)
                    parts.append(y if p.conversion != 114 else ("op", "repr", y))
                else:
                    parts.append(("c", p.value))
            if all(z[0] == "c" for z in parts):
                out.append(("ok", ("c", "".join(str(z[1]) for z in parts)), x))
            else:
                out.append(("ok", ("op", "fstr") + tuple(parts), x))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        return [("ok", self._closure(n, st), st)]

    def e_IfExp(self, n, st):
        out = []
        for k, t, x in self.branch(n.test, st):
            if k == "raise":
                out.append((k, t, x))
            else:
                out.extend(self.ev(n.body if t else n.orelse, x))
        return out

    def e_NamedExpr(self, n, st):
        out = []
        for k, v, x in self.ev(n.value, st):
            if k == "raise":
                out.append((k, v, x))
            else:
                out.append(("ok", v, x.set_local(x.frame.fid, n.target.id, v)))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        for k, v, x in self._yield(n, st):
            out.append(("raise", v, x) if k == "raise" else ("ok", ("p", "<sent>"), x))
        return out

    def e_YieldFrom(self, n, st):
        if st.frame.cm is not None and getattr(st.frame.cm, "gen", False):
            return self.e_Yield(n, st)
        return self.ev(n.value, st)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            out = []
            for k, v, x in self.ev(n.operand, st):
                out.append((k, v, x) if k == "raise" else ("ok", neg(v), x))
            return out
        out = []
        for k, v, x in self.ev(n.operand, st):
            if k == "raise":
                out.append((k, v, x))
            elif isinstance(n.op, ast.USub):
                out.append(("ok", ("c", -v[1]) if v[0] == "c" and isinstance(v[1], (int, float)) else ("op", "neg", v), x))
            elif isinstance(n.op, ast.Invert):
                out.append(("ok", ("op", "~", v), x))
            else:
                out.append(("ok", v, x))
        return out

    def binop(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "+":
                    return ("c", a[1] + b[1])
                if op == "-":
                    return ("c", a[1] - b[1])
                if op == "*" and not isinstance(a[1], str) and not isinstance(b[1], str):
                    return ("c", a[1] * b[1])
            except Exception:
                pass
        if op == "+" and a[0] == "T" and b[0] == "T":
            return ("T", a[1] + b[1])
        return ("op", op, a, b)

    def e_BinOp(self, n, st):
        op = OPS.get(type(n.op), "?")
        out = []
        for k, v, x in self.ev_list([n.left, n.right], st):
            if k == "raise":
                out.append((k, v, x))
                continue
            a, b = v
            if op == "+" and a[0] == "L" and x.heap.get(a[1]) is not None:
                u = self.uid(n, x)
                right = x.heap.get(b[1]) if b[0] == "L" else (b[1] if b[0] == "T" else (("star", b),))
                out.append(("ok", ("L", u), x.set_heap(u, tuple(x.heap[a[1]]) + tuple(right))))
            elif op == "+" and b[0] == "L" and x.heap.get(b[1]) is not None:
                u = self.uid(n, x)
                out.append(("ok", ("L", u), x.set_heap(u, (("star", a),) + tuple(x.heap[b[1]]))))
            else:
                out.append(("ok", self.binop(op, a, b), x))
        return out

    def e_BoolOp(self, n, st):
        # value of a short-circuit expression: one path per deciding operand
        is_and = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for x in cur:
                for k, val, y in self.ev(v, x):
                    if k == "raise":
                        out.append((k, val, y))
                        continue
                    if last:
                        out.append(("ok", val, y))
                        continue
                    for t, z in self.decide(val, y, v):
                        if t == is_and:
                            nxt.append(z)
                        else:
                            out.append(("ok", val if not is_boolish(val) else ("c", t), z))
            cur = nxt
        return out

    def e_Compare(self, n, st):
        out = []
        for k, v, x in self.ev_list([n.left] + n.comparators, st):
            if k == "raise":
                out.append((k, v, x))
                continue
            terms = []
            for i, op in enumerate(n.ops):
                terms.append(compare(type(op).__name__, v[i], v[i + 1]))
            if len(terms) == 1:
                out.append(("ok", terms[0], x))
            else:
                out.append(("ok", ("op", "and") + tuple(terms), x))
        return out

    def _comp(self, n, st, make):
        """comprehension: bounded loop building a container"""
        gens = n.generators

        def rec(gi, states):
            # states: list of (state, elements list)
            if gi == len(gens):
                res = []
                for x, acc in states:
                    for k, v, y in make(x):
                        if k == "raise":
                            raises.append((k, v, y))
                        else:
                            res.append((y, acc + [v]))
                return res
            g = gens[gi]
            res = []
            for x, acc in states:
                for k, it, y in self.ev(g.iter, x):
                    if k == "raise":
                        raises.append((k, it, y))
                        continue
                    for seq in self.iterations(it, y):
                        cur = [(y, list(acc))]
                        for idx, el in enumerate(seq):
                            nxt = []
                            for z, a in cur:
                                z = z.copy()
                                base = z.loops
                                z.loops = z.loops + ((n.lineno, idx),)
                                for kk, vv, w in self.assign(g.target, el, z):
                                    if kk == "raise":
                                        raises.append((kk, vv, w))
                                        continue
                                    oks = [w]
                                    skips = []
                                    for cond in g.ifs:
                                        no = []
                                        for o in oks:
                                            for k3, t3, q in self.branch(cond, o):
                                                if k3 == "raise":
                                                    raises.append((k3, t3, q))
                                                elif t3:
                                                    no.append(q)
                                                else:
                                                    skips.append(q)
                                        oks = no
                                    for o in oks:
                                        for q, a2 in rec(gi + 1, [(o, list(a))]):
                                            q = q.copy()
                                            q.loops = base
                                            nxt.append((q, a2))
                                    for q in skips:
                                        q = q.copy()
                                        q.loops = base
                                        nxt.append((q, list(a)))
                            cur = nxt
                        res.extend(cur)
            return res

        raises = []
        res = rec(0, [(st, [])])
        return res, raises

    def e_ListComp(self, n, st):
        res, raises = self._comp(n, st, lambda x: self.ev(n.elt, x))
        out = list(raises)
        seen = {}
        for x, els in res:
            u = self.uid(n, x) + (("set",) if isinstance(n, ast.SetComp) else ())
            y = x.set_heap(u, tuple(els))
            k = (tuple(els), self.key(y, {"*"}))
            if k not in seen:
                seen[k] = 1
                out.append(("ok", ("L", u), y))
        return out

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        def make(x):
            return [(k, ("T", tuple(v)) if k == "ok" else v, y) for k, v, y in self.ev_list([n.key, n.value], x)]
        res, raises = self._comp(n, st, make)
        out = list(raises)
        for x, els in res:
            u = self.uid(n, x)
            items = []
            for t in els:
                items = [z for z in items if z[0] != t[1][0]] + [(t[1][0], t[1][1])]
            out.append(("ok", ("D", u), x.set_heap(u, tuple(items))))
        return out

    # ------------------------------------------------------------ branches
    def branch(self, n, st):
        """-> list of (ok|raise, bool|exc, state)"""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            out = []
            cur = [st]
            for i, v in enumerate(n.values):
                nxt = []
                for x in cur:
                    for k, t, y in self.branch(v, x):
                        if k == "raise":
                            out.append((k, t, y))
                        elif t == is_and:
                            nxt.append(y)
                        else:
                            out.append(("ok", t, y))
                cur = nxt
            return out + [("ok", is_and, x) for x in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(k, (not t) if k == "ok" else t, x) for k, t, x in self.branch(n.operand, st)]
        out = []
        for k, v, x in self.ev(n, st):
            if k == "raise":
                out.append((k, v, x))
            else:
                for t, y in self.decide(v, x, n):
                    out.append(("ok", t, y))
        return out

    def truth(self, t, st):
        """True/False if known statically, else None"""
        k = t[0]
        if k == "c":
            return bool(t[1])
        if k == "T":
            if not t[1]:
                return False
            if any(x[0] != "star" for x in t[1]):
                return True
            return None
        if k in ("L", "D"):
            h = st.heap.get(t[1])
            if h is not None:
                if not h:
                    return False
                if k == "L" and any(x[0] != "star" for x in h):
                    return True
                if k == "D" and any(x[0] != "**" for x in h):
                    return True
            return None
        if k in ("fn", "cls", "clo", "bm", "mod", "partial", "exc"):
            return True
        if k == "new":
            c = self.p.classes.get(t[1])
            if c and not self.p.lookup(c, "__len__") and not self.p.lookup(c, "__bool__"):
                return True
            return None
        if k == "op":
            o = t[1]
            if o == "isinstance":
                return self._isinstance(t[2], t[3], st)
            if o == "fstr" and any(x[0] == "c" and x[1] not in ("", b"") for x in t[2:]):
                return True
            if o == "%" and t[2][0] == "c" and isinstance(t[2][1], str) and re.sub(r"%[-+ 0#]*[0-9.]*[a-z]", "", t[2][1]):
                return True
            if o in ("is", "=="):
                a, b = t[2], t[3]
                if a == b and o == "is":
                    return True
                if a[0] == "c" and b[0] == "c":
                    return a[1] == b[1] if o == "==" else (a[1] is b[1] or a[1] == b[1])
                for u, v in ((a, b), (b, a)):
                    if v == NONE and u[0] in ("new", "L", "D", "T", "fn", "cls", "clo", "bm", "exc", "partial"):
                        return False
                    if v == NONE and u[0] == "o":
                        return False
                    if v[0] == "c" and isinstance(v[1], bool) and (u[0] in ("L", "D", "T") or o == "is" and u[0] in NOT_BOOL):
                        return False
                    if v == NONE and u[0] == "op" and u[1] in NOT_NONE_OPS:
                        return False
                    if v == NONE and u[0] == "call" and self._declares_container(u[1]):
                        return False
                if a[0] == "cls" and b[0] == "cls":
                    return a[1] == b[1]
                r = self._type_eq(a, b, st)
                if r is None:
                    r = self._type_eq(b, a, st)
                if r is not None:
                    return r
                if a == b:
                    return True
            if o == "<" and t[2][0] == "c" and t[3][0] == "c":
                try:
                    return t[2][1] < t[3][1]
                except TypeError:
                    return None
            if o == "in":
                a, b = t[2], t[3]
                els = None
                if b[0] == "T":
                    els = b[1]
                elif b[0] == "L":
                    els = st.heap.get(b[1])
                elif b[0] == "D":
                    h = st.heap.get(b[1])
                    els = [kv[0] for kv in h] if h is not None and all(kv[0] != "**" for kv in h) else None
                elif b[0] == "c" and isinstance(b[1], (tuple, list)) :
                    els = [("c", x) for x in b[1]]
                if els is not None and not any(e[0] == "star" for e in els):
                    if not els:
                        return False
                    if any(e == a for e in els):
                        return True
                    if a[0] == "c" and all(e[0] == "c" for e in els):
                        return False
        return None

    def _isinstance(self, x, c, st):
        cs = c[1] if c[0] == "T" else [c]
        xc = self.type_of(x, st) if x[0] in ("o", "new", "exc") else None
        res = False
        for k in cs:
            if xc is not None and k[0] == "cls":
                kc = self.p.classes[k[1]]
                if kc in self.p.mro(xc):
                    return True
                continue
            if xc is not None and k[0] == "ext":
                nm = "ext:" + k[1].split(".")[-1]
                anc = set()
                for z in self.p.mro(xc):
                    if isinstance(z, str):
                        anc |= {"ext:" + a for a in self._exc_anc(z.split(":")[1].split(".")[-1])}
                if nm in anc:
                    return True
                continue
            if x[0] == "exc" and x[1] != "any":
                anc = self._exc_anc(x[1])
                if (k[1] in anc) or (k[1].split(".")[-1] in anc):
                    return True
                continue
            if x[0] == "exc" and k[0] == "ext" and k[1].split(".")[-1] in ("Exception", "BaseException"):
                return True
            if x[0] == "c" and k[0] == "ext" and k[1].startswith("builtins."):
                ty = getattr(_bi, k[1].split(".")[1], None)
                if isinstance(ty, type):
                    if isinstance(x[1], ty):
                        return True
                    continue
            if x[0] in ("L", "D", "T") and k[0] == "ext":
                if k[1].split(".")[-1] == {"L": "list", "D": "dict", "T": "tuple"}[x[0]]:
                    return True
                if k[1].startswith("builtins."):
                    continue
            res = None
        return res

    def _declares_container(self, fn):
        """the called function is declared to return a container"""
        f = self._func_of(fn)
        r = getattr(f.node, "returns", None) if f is not None else None
        if isinstance(r, ast.Subscript):
            r = r.value
        n = r.id if isinstance(r, ast.Name) else r.attr if isinstance(r, ast.Attribute) else None
        return n in ("Dict", "List", "Tuple", "Set", "OrderedDict", "dict", "list", "tuple", "set")

    def decide(self, t, st, node):
        """-> list of (bool, state)"""
        pol = True
        t = norm_cond(t)
        while t[0] == "op" and t[1] == "not":
            t = t[2]
            pol = not pol
        if t[0] == "op" and t[1] in ("and", "or"):
            is_and = t[1] == "and"
            cur = [st]
            out = []
            for s in t[2:]:
                nxt = []
                for x in cur:
                    for b, y in self.decide(s, x, node):
                        if b == is_and:
                            nxt.append(y)
                        else:
                            out.append((b, y))
                cur = nxt
            out += [(is_and, x) for x in cur]
            return [((b if pol else not b), x) for b, x in out]
        if t[0] == "op" and t[1] == "in" and t[3][0] in ("T", "L", "c", "D"):
            # membership in a literal container: disjunction of equalities
            els = None
            if t[3][0] == "T":
                els = t[3][1]
            elif t[3][0] == "L":
                els = st.heap.get(t[3][1])
            elif t[3][0] == "c" and isinstance(t[3][1], tuple):
                els = [("c", x) for x in t[3][1]]
            if els is not None and len(els) and not any(e[0] == "star" for e in els):
                ors = ("op", "or") + tuple(compare("Eq", t[2], e) for e in els)
                return [((b if pol else not b), x) for b, x in self.decide(ors, st, node)]
        v = self.truth(t, st)
        if v is None:
            v = st.conds.get(t)
        if v is None and t[0] == "op" and t[1] == "==":
            # x == c1 known true makes x == c2 false
            for u, w in ((t[2], t[3]), (t[3], t[2])):
                if w[0] == "c":
                    for ct, cv in st.conds.items():
                        if cv and ct[0] == "op" and ct[1] == "==":
                            if ct[2] == u and ct[3][0] == "c" and ct[3] != w:
                                v = False
                            elif ct[3] == u and ct[2][0] == "c" and ct[2] != w:
                                v = False
        if v is not None:
            if self.q.want_cond(self, t, st):
                st = st.event(Ev("cond", t, (), (), node, st.frame.func, v))
            return [((v if pol else not v), st)]
        out = []
        for b in (True, False):
            y = st.add_cond(t, b)
            if self.q.want_cond(self, t, y):
                y = y.event(Ev("cond", t, (), (), node, y.frame.func, b))
            out.append(((b if pol else not b), y))
        return out

    # --------------------------------------------------------------- calls
    def ev_args(self, n, st):
        out = []
        for k, vs, x in self.ev_list(n.args, st):
            if k == "raise":
                out.append((k, vs, x))
                continue
            for kk, ks, y in self.ev_list([a.value for a in n.keywords], x):
                if kk == "raise":
                    out.append((kk, ks, y))
                    continue
                kw = []
                for a, v in zip(n.keywords, ks):
                    if a.arg is not None:
                        kw.append((a.arg, v))
                    elif v[0] == "D" and y.heap.get(v[1]) is not None:
                        for kv in y.heap[v[1]]:
                            if kv[0] == "**":
                                kw.append(("**", kv[1]))
                            elif kv[0][0] == "c":
                                kw.append((kv[0][1], kv[1]))
                            else:
                                kw.append(("**", v))
                    else:
                        kw.append(("**", v))
                out.append(("ok", (vs, kw), y))
        return out

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.envs[st.frame.fid]:
            fr = st.frame
            f = fr.func
            while f.parent is not None:
                f = f.parent
            selft = fr.selfterm
            if selft is None:
                e = st.envs[fr.fid]
                selft = e.get("<self>")
            if f.cls is not None and selft is not None:
                c = self.type_of(selft, st) or f.cls
                return [("ok", ("super", selft, c.qual, f.cls.qual), st)]
        out = []
        for k, fn, x in self.ev(n.func, st):
            if k == "raise":
                out.append((k, fn, x))
                continue
            for kk, ak, y in self.ev_args(n, x):
                if kk == "raise":
                    out.append((kk, ak, y))
                else:
                    out.extend(self.apply(fn, ak[0], ak[1], n, y))
        return out

    def should_inline(self, f, st):
        if self.q.never_inline(f):
            return False
        if not (f.parent is not None or self.q.force_inline(f) or self.relevant(f)):
            return False
        if len(st.stack) >= self.q.max_depth:
            return False
        return True

    def apply(self, fn, args, kw, node, st):
        self.stats["calls"] += 1
        # things that run a function later
        a = self.q.async_call(self, fn, args, kw, st)
        if a is not None:
            return self._async(fn, args, kw, a, node, st)
        k = fn[0]
        if k == "partial":
            return self.apply(fn[1], list(fn[2]) + list(args), list(fn[3]) + list(kw), node, st)
        if k == "ext" and fn[1] == "functools.partial" and args:
            return [("ok", ("partial", args[0], tuple(args[1:]), tuple(kw)), st)]
        f = self._func_of(fn)
        if f is not None:
            obj = fn[1] if k == "bm" else None
            rec = sum(1 for fr in st.stack if fr.func is f)
            if self.should_inline(f, st):
                if rec >= self.q.max_recursion:
                    return []          # bounded recursion: deeper levels repeat the same code
                if _is_generator(f.node) and not f.is_cm:
                    return self._run_generator(f, fn, obj, args, kw, node, st)
                st0 = st
                if self.q.want_call(self, fn, tuple(args), tuple(kw), st):
                    st0 = st.event(Ev("call", fn, tuple(args), tuple(kw), node, st.frame.func))
                return self.call_func(f, obj, args, kw, node, st0, closure=fn if k == "clo" else None)
            return self.opaque(fn, args, kw, node, st, f)
        if k == "cls":
            return self.construct(fn, args, kw, node, st)
        if k == "o" or k == "new" or k == "a":
            c = self.type_of(fn, st)
            if c is not None:
                f = self.p.lookup(c, "__call__")
                if f is not None and self.should_inline(f, st):
                    return self.call_func(f, fn, args, kw, node, st)
        if k == "ext":
            r = self.builtin(fn, args, kw, node, st)
            if r is not None:
                return r
        if k == "a":
            r = self.container_method(fn, args, kw, node, st)
            if r is not None:
                return r
            if fn[2] == "format" and fn[1][0] == "c":
                return [("ok", ("op", "fstr", fn[1]) + tuple(args) + tuple(v for _, v in kw), st)]
        return self.opaque(fn, args, kw, node, st)

    def _run_generator(self, f, fn, obj, args, kw, node, st):
        """a generator function is followed when it is called, as making the list of what it yields"""
        u = ("gen", self.uid(node, st))

        def collect(v, x, many=False):
            h = x.heap.get(u)
            if h is None:
                h = ()
            if many:
                if v[0] == "L" and x.heap.get(v[1]) is not None:
                    h = h + tuple(x.heap[v[1]])
                elif v[0] == "T":
                    h = h + tuple(v[1])
                else:
                    h = h + (("star", v),)
            else:
                h = h + (v,)
            return [("normal", None, x.set_heap(u, h))]
        collect.gen = True
        st = st.set_heap(u, ())
        return [(k, v, x) if k == "raise" else ("ok", ("L", u), x)
                for k, v, x in self.call_func(f, obj, args, kw, node, st, cm=collect, closure=fn if fn[0] == "clo" else None)]

    def construct(self, fn, args, kw, node, st):
        c = self.p.classes[fn[1]]
        u = self.uid(node, st)
        init = self.p.lookup(c, "__init__")
        if init is not None and (self.q.inline_ctor(c)) and len(st.stack) < self.q.max_depth:
            o = ("o", u, c.qual)
            out = []
            for k, v, x in self.call_func(init, o, args, kw, node, st):
                out.append((k, v, x) if k == "raise" else ("ok", o, x))
            return out
        bound = []
        if init is not None:
            b, _ = self.bind(init, [("p", "<self>")] + list(args), kw, st)
            pn = init.params
            bound = [(n, v) for n, v in b.items() if n not in pn[:1]]
        else:
            bound = [("arg%d" % i, v) for i, v in enumerate(args)] + list(kw)
        t = ("new", c.qual, tuple(bound), u)
        if self.q.want_call(self, fn, tuple(args), tuple(kw), st):
            st = st.event(Ev("call", fn, tuple(args), tuple(kw), node, st.frame.func))
        out = [("ok", t, st)]
        if st.guard and init is not None and not self.q.no_raise(self, fn, st) and not _ctor_safe(init):
            out.append(("raise", ("exc", "any", None), st))
        return out

    def bind(self, f, args, kw, st):
        """parameter name -> term; second value: True when */** of unknown content was involved"""
        a = f.node.args
        params = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        fuzzy = False
        pos = list(args)
        i = 0
        extra = []
        for v in pos:
            if v[0] == "star":
                fuzzy = True
                # unknown number: remaining params are items of it
                j = 0
                while i < len(params):
                    env[params[i]] = self.item(v[1], const(j))
                    i += 1
                    j += 1
                extra.append(v)
                continue
            if i < len(params):
                env[params[i]] = v
                i += 1
            else:
                extra.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        kwrest = []
        for n, v in kw:
            if n == "**":
                fuzzy = True
                for p in params + kwonly:
                    if p not in env:
                        env[p] = ("i", v, const(p))
                kwrest.append(("**", v))
            elif n in params or n in kwonly:
                env[n] = v
            else:
                kwrest.append((const(n), v))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for p in params + kwonly:
            if p not in env:
                if p in defaults:
                    d = defaults[p]
                    if isinstance(d, ast.Constant):
                        env[p] = ("c", d.value)
                    elif isinstance(d, (ast.Name, ast.Attribute)):
                        r = self.p.resolve_expr(f.module, d)
                        t = self._res_term(r) if r else None
                        if t is None and r and r[0] == "assign" and isinstance(r[2], ast.Constant):
                            t = ("c", r[2].value)
                        env[p] = t or ("p", "default:" + ast.unparse(d))
                    elif isinstance(d, ast.Tuple) and not d.elts:
                        env[p] = ("T", ())
                    else:
                        env[p] = ("p", "default:" + ast.unparse(d))
                else:
                    env[p] = ("p", "missing:" + p)
        if a.vararg:
            env[a.vararg.arg] = ("T", tuple(extra))
        if a.kwarg:
            env[a.kwarg.arg] = ("kwd", tuple(kwrest))
        return env, fuzzy

    def call_func(self, f, obj, args, kw, node, st, cm=None, closure=None, raw=False):
        self.stats["inlined"].add(f.qual)
        args = list(args)
        selft = None
        if f.cls is not None and f.parent is None and not f.is_static:
            if obj is not None:
                args = [obj] + args
                selft = obj
            elif args:
                selft = args[0]
        env, _ = self.bind(f, args, kw, st)
        for x in f.node.args.args + f.node.args.kwonlyargs:
            if x.annotation is not None:
                t = env.get(x.arg)
                if t is not None and t[0] in ("a", "i", "val", "elem", "call", "p") and t not in self.hints:
                    ty = self.p.anno_type(f.module, x.annotation)
                    if ty is not None and self.descr(t, st) is None:
                        self.hints[t] = ty
        y = st.copy()
        y.envs = dict(y.envs)
        # kwargs dict objects
        a = f.node.args
        if a.kwarg and env.get(a.kwarg.arg, ("",))[0] == "kwd":
            u = ("kw", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), st.frame.fid, st.loops)
            y = y.set_heap(u, env[a.kwarg.arg][1])
            y.envs = dict(y.envs)
            env[a.kwarg.arg] = ("D", u)
        fid = (f.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), st.frame.fid if len(st.stack) < 40 else None,
               st.loops)
        cfid = None
        if closure is not None and closure[0] == "clo":
            cfid = closure[2]
            env["<closure>"] = cfid
            fr_env = st.envs.get(cfid, {})
            selft = None
            for fr in st.stack:
                if fr.fid == cfid:
                    selft = fr.selfterm
            if selft is None:
                selft = fr_env.get("<self>")
        if selft is not None:
            env["<self>"] = selft
        y.envs[fid] = env
        y.stack = st.stack + (Frame(fid, f, selft, cfid, cm),)
        if isinstance(f.node, ast.Lambda):
            res = [(("raise" if k == "raise" else "return"), v, x) for k, v, x in self.ev(f.node.body, y)]
        else:
            res = self.block(f.node.body, y, frozenset())
        out = []
        keep = _has_nested(f.node)
        for k, v, x in res:
            x = x.copy()
            x.stack = st.stack
            if not keep:
                x.envs = dict(x.envs)
                x.envs.pop(fid, None)
            if raw:
                # context manager: the with-body may have produced return/break/continue
                if k == "return" and v == NONE and False:
                    k = "normal"
                out.append((k, v, x))
            elif k == "raise":
                out.append((k, v, x))
            elif k == "return":
                out.append(("ok", v, x))
            elif k == "normal":
                out.append(("ok", NONE, x))
        # merge
        seen = {}
        for k, v, x in out:
            kk = (k, v, self.key(x, {"*"}, (v,) if isinstance(v, tuple) else ()))
            o = seen.get(kk)
            if o is None:
                seen[kk] = (k, v, x)
            elif o[2].conds != x.conds:
                m = o[2].copy()
                m.conds = {c: b for c, b in m.conds.items() if x.conds.get(c) == b}
                seen[kk] = (k, v, m)
        if len(seen) > self.q.max_states:
            raise TooBig(f.qual)
        return list(seen.values())

    def _async(self, fn, args, kw, a, node, st):
        target, targs, tkw = a
        y = st.event(Ev("spawn", fn, tuple(args), tuple(kw), node, st.frame.func))
        y = y.copy()
        g = y.guard
        y.guard = g + 1
        out = []
        for k, v, x in self.apply(target, list(targs), list(tkw), node, y):
            x = x.copy()
            x.guard = g
            if k == "raise":
                x = x.event(Ev("spawn_raise", fn, (v,), (), node, st.frame.func))
            x = x.event(Ev("spawn_end", fn, (), (), node, st.frame.func))
            out.append(("ok", ("call", fn, tuple(args), tuple(kw), self.uid(node, st)), x))
        return out

    def opaque(self, fn, args, kw, node, st, f=None):
        args = tuple(args)
        kw = tuple(kw)
        recorded = self.q.want_call(self, fn, args, kw, st)
        if recorded:
            st = st.event(Ev("call", fn, args, kw, node, st.frame.func))
        r = self.q.opaque_result(self, fn, args, kw, st)
        pure = self.q.pure(self, fn, st)
        val = r if r is not None else ("call", fn, args, kw, "pure" if pure else self.uid(node, st))
        if pure:
            return [("ok", val, st)]
        out = []
        if st.guard and not self._safe(fn, st) and not self.q.no_raise(self, fn, st) and not (
                fn[0] in ("a", "bm") and last_name(fn) in ("acquire", "release")):
            sr = st
            if recorded:
                # the recorded call itself failed on this path
                sr = st.event(Ev("raised", fn, args, kw, node, st.frame.func))
            for ex in self.q.raises_as(self, fn, st):
                out.append(("raise", ex, sr))
        if fn[0] == "a" and fn[2] in CONTAINER_ONLY and self.descr(fn[1], st) is None or \
                (fn[0] == "a" and fn[2] in CONTAINER_ONLY and isinstance(self.descr(fn[1], st), tuple)):
            # a container method only affects its container
            st = self._forget(st, fn[1])
        elif not self._safe(fn, st):
            st = self._havoc(st)
        for t in self.q.clobber(self, fn, args, st):
            if t[0] in ("L", "D") and st.heap.get(t[1]) is not None:
                st = self._forget(st.set_heap(t[1], None), t)
        st = self.q.effect(self, fn, args, kw, st)
        out.append(("ok", val, st))
        return out

    def _safe(self, fn, st):
        if fn[0] == "ext":
            if fn[1].startswith("builtins.") and fn[1].split(".")[1] in NORAISE_BUILTINS:
                return True
            if fn[1] in NORAISE_EXT:
                return True
            if fn[1].split(".")[0] == "log" and fn[1].split(".")[-1] in LOG_NAMES:
                return True
        if fn[0] == "a" and fn[2] in LOG_NAMES:
            b = fn[1]
            if b[0] == "a" and b[2] == "log" or b[0] == "g" and b[1].endswith(".log") or b == ("ext", "logging") \
                    or b[0] == "p" and b[1] in ("log", "logger"):
                return True
        return False

    def builtin(self, fn, args, kw, node, st):
        n = fn[1]
        if n.startswith("builtins."):
            n = n.split(".")[1]
        elif n in ("collections.OrderedDict", "typing.cast", "annotypes.OrderedDict"):
            n = n.split(".")[-1]
        else:
            return None
        if n == "isinstance" and len(args) == 2:
            return [("ok", ("op", "isinstance", args[0], args[1]), st)]
        if n == "bool" and len(args) == 1:
            return [("ok", ("op", "bool", args[0]), st)]
        if n == "cast" and len(args) == 2:
            return [("ok", args[1], st)]
        if n == "len" and len(args) == 1:
            a = args[0]
            if a[0] == "T" and not any(x[0] == "star" for x in a[1]):
                return [("ok", ("c", len(a[1])), st)]
            if a[0] in ("L", "D"):
                h = st.heap.get(a[1])
                if h is not None and not any(x[0] == "star" for x in h if a[0] == "L") and \
                        not any(x[0] == "**" for x in h) and not (a[1][-1] == "set" and len(h) > 1 and not (
                            all(x[0] == "c" for x in h) and len(set(h)) == len(h))):
                    return [("ok", ("c", len(h)), st)]
            return [("ok", ("op", "len", a), st)]
        if n in ("list", "set", "tuple") and len(args) <= 1 and not kw:
            if not args:
                if n == "tuple":
                    return [("ok", ("T", ()), st)]
                u = self.uid(node, st) + (("set",) if n == "set" else ())
                return [("ok", ("L", u), st.set_heap(u, ()))]
            a = args[0]
            h = None
            if a[0] == "T":
                h = a[1]
            elif a[0] == "L":
                h = st.heap.get(a[1])
            elif a[0] == "D" and st.heap.get(a[1]) is not None and not any(z[0] == "**" for z in st.heap[a[1]]):
                h = tuple(z[0] for z in st.heap[a[1]])
            if h is not None:
                if n == "tuple":
                    return [("ok", ("T", tuple(h)), st)]
                u = self.uid(node, st) + (("set",) if n == "set" else ())
                return [("ok", ("L", u), st.set_heap(u, tuple(h)))]
            if n == "tuple":
                return [("ok", ("T", (("star", a),)), st)]
            u = self.uid(node, st) + (("set",) if n == "set" else ())
            return [("ok", ("L", u), st.set_heap(u, (("star", a),)))]
        if n in ("dict", "OrderedDict"):
            items = []
            if args and args[0][0] == "D" and st.heap.get(args[0][1]) is not None:
                items = list(st.heap[args[0][1]])
            elif args:
                a = args[0]
                h = a[1] if a[0] == "T" else st.heap.get(a[1]) if a[0] == "L" else None
                pairs = None
                if h is not None:
                    pairs = []
                    for z in h:
                        zz = z[1] if z[0] == "T" else st.heap.get(z[1]) if z[0] == "L" else None
                        if zz is None or len(zz) != 2:
                            pairs = None
                            break
                        pairs = [y for y in pairs if y[0] != zz[0]] + [(zz[0], zz[1])]
                items = pairs if pairs is not None else [("**", a)]
            for k, v in kw:
                if k == "**":
                    items.append(("**", v))
                else:
                    items = [z for z in items if z[0] != const(k)] + [(const(k), v)]
            u = self.uid(node, st)
            return [("ok", ("D", u), st.set_heap(u, tuple(items)))]
        if n == "getattr" and len(args) >= 2 and args[1][0] == "c":
            res = self.get_attr(args[0], args[1][1], st, node)
            if len(args) == 3 and all(k == "ok" and v[0] == "a" for k, v, _ in res):
                # may be absent
                out = []
                for k, v, x in res:
                    c = self.type_of(args[0], x)
                    if c is not None and (self.p.attr_types(c).get(args[1][1])):
                        out.append((k, v, x))
                        continue
                    t = ("op", "hasattr", args[0], args[1])
                    for b, y in self.decide(t, x, node):
                        out.append(("ok", v if b else args[2], y))
                return out
            return res
        if n == "setattr" and len(args) == 3:
            if args[1][0] == "c":
                return [("ok", NONE, self.store_attr(args[0], args[1][1], args[2], st, node))]
            if self.q.want_store(self, args[0], "*", args[2], st):
                st = st.event(Ev("store", ("i", args[0], args[1]), (args[2],), (), node, st.frame.func))
            return [("ok", NONE, st)]
        if n == "hasattr" and len(args) == 2:
            return [("ok", ("op", "hasattr", args[0], args[1]), st)]
        if n == "callable" and len(args) == 1:
            if args[0][0] in ("fn", "bm", "clo", "partial"):
                return [("ok", TRUE, st)]
            return [("ok", ("op", "callable", args[0]), st)]
        if n == "map" and len(args) == 2:
            out = []
            for seq in self.iterations(args[1], st):
                cur = [("ok", [], st)]
                for el in seq:
                    nxt = []
                    for k, vs, x in cur:
                        if k == "raise":
                            nxt.append((k, vs, x))
                            continue
                        for kk, v, y in self.apply(args[0], [el], [], node, x):
                            nxt.append((kk, v, y) if kk == "raise" else ("ok", vs + [v], y))
                    cur = nxt
                for k, vs, x in cur:
                    if k == "raise":
                        out.append((k, vs, x))
                    else:
                        u = self.uid(node, x)
                        out.append(("ok", ("L", u), x.set_heap(u, tuple(vs))))
            return out
        if n in ("any", "all") and len(args) == 1 and not kw and args[0][0] in ("L", "T"):
            els = args[0][1] if args[0][0] == "T" else st.heap.get(args[0][1])
            if els is not None and not any(e[0] == "star" for e in els):
                if not els:
                    return [("ok", ("c", n == "all"), st)]
                return [("ok", ("op", "or" if n == "any" else "and") + tuple(els), st)]
        if n == "filter" and len(args) == 2 and not kw:
            out = []
            for seq in self.iterations(args[1], st):
                cur = [("ok", [], st)]
                for el in seq:
                    nxt = []
                    for k, vs, x in cur:
                        if k == "raise":
                            nxt.append((k, vs, x))
                            continue
                        if args[0] == NONE:
                            got = [("ok", el, x)]
                        else:
                            got = self.apply(args[0], [el], [], node, x)
                        for kk, v, y in got:
                            if kk == "raise":
                                nxt.append((kk, v, y))
                                continue
                            for b, z in self.decide(v, y, node):
                                nxt.append(("ok", vs + [el] if b else list(vs), z))
                    cur = nxt
                for k, vs, x in cur:
                    if k == "raise":
                        out.append((k, vs, x))
                    else:
                        u = self.uid(node, x)
                        out.append(("ok", ("L", u), x.set_heap(u, tuple(vs))))
            return out
        if n in ("enumerate", "zip", "reversed", "sorted", "iter", "range", "frozenset"):
            if self.q.want_call(self, fn, tuple(args), tuple(kw), st):
                st = st.event(Ev("call", fn, tuple(args), tuple(kw), node, st.frame.func))
            return [("ok", ("call", fn, tuple(args), tuple(kw), 0), st)]
        if n == "type" and len(args) == 1:
            return [("ok", ("call", fn, tuple(args), (), 0), st)]
        return None

    def list_extend(self, lst, v, st):
        h = st.heap.get(lst[1])
        if v[0] == "T":
            add = v[1]
        elif v[0] == "L" and st.heap.get(v[1]) is not None:
            add = st.heap[v[1]]
        else:
            add = (("star", v),)
        return st.set_heap(lst[1], tuple(h or ()) + tuple(add))

    def container_method(self, fn, args, kw, node, st):
        b, name = fn[1], fn[2]
        if b[0] == "L":
            h = st.heap.get(b[1])
            if h is None:
                return None
            if name in ("append", "add") and len(args) == 1:
                if name == "add" and args[0] in h:
                    return [("ok", NONE, st)]
                return [("ok", NONE, st.set_heap(b[1], h + (args[0],)))]
            if name in ("extend", "update") and len(args) == 1:
                return [("ok", NONE, self.list_extend(b, args[0], st))]
            if name == "insert" and len(args) == 2:
                if args[0] == const(0):
                    return [("ok", NONE, st.set_heap(b[1], (args[1],) + h))]
                return [("ok", NONE, st.set_heap(b[1], h + (args[1],)))]
            if name == "clear":
                return [("ok", NONE, st.set_heap(b[1], ()))]
            if name == "copy":
                u = self.uid(node, st)
                return [("ok", ("L", u), st.set_heap(u, h))]
            if name == "pop" and not any(x[0] == "star" for x in h) and h:
                if not args or args[0] == const(-1):
                    return [("ok", h[-1], st.set_heap(b[1], h[:-1]))]
                if args[0] == const(0):
                    return [("ok", h[0], st.set_heap(b[1], h[1:]))]
            if name == "remove" and len(args) == 1 and args[0] in h:
                i = h.index(args[0])
                return [("ok", NONE, st.set_heap(b[1], h[:i] + h[i + 1:]))]
            return None
        if b[0] == "D":
            h = st.heap.get(b[1])
            if h is None:
                return None
            closed = all(kv[0] != "**" for kv in h)
            if name in ("items", "values", "keys"):
                return [("ok", ("call", fn, (), (), 0), st)]
            if name == "get" and args:
                for kv in h:
                    if kv[0] == args[0]:
                        return [("ok", kv[1], st)]
                dflt = args[1] if len(args) > 1 else NONE
                if closed and all(kv[0][0] == "c" for kv in h) and args[0][0] == "c":
                    return [("ok", dflt, st)]
                if closed and h:
                    out = []
                    for kv in h:
                        te = self._type_eq(args[0], kv[0], st)
                        if te is False:
                            continue
                        out.append(("ok", kv[1], st.add_cond(("op", "==", args[0], kv[0]), True)))
                        if te is True:
                            return [out[-1]]
                    out.append(("ok", dflt, st))
                    return out
                if closed and not h:
                    return [("ok", dflt, st)]
            if name == "setdefault" and args:
                for kv in h:
                    if kv[0] == args[0]:
                        return [("ok", kv[1], st)]
                v = args[1] if len(args) > 1 else NONE
                return [("ok", v, st.set_heap(b[1], h + ((args[0], v),)))]
            if name == "update" and len(args) <= 1:
                items = list(h)
                add = []
                if args:
                    if args[0][0] == "D" and st.heap.get(args[0][1]) is not None:
                        add = list(st.heap[args[0][1]])
                    else:
                        add = [("**", args[0])]
                add += [(const(k) if k != "**" else "**", v) for k, v in kw]
                for k, v in add:
                    if k != "**":
                        items = [z for z in items if z[0] != k]
                    items.append((k, v))
                return [("ok", NONE, st.set_heap(b[1], tuple(items)))]
            if name == "pop" and args:
                for kv in h:
                    if kv[0] == args[0]:
                        return [("ok", kv[1], st.set_heap(b[1], tuple(z for z in h if z is not kv)))]
                if len(args) > 1 and closed:
                    return [("ok", args[1], st)]
            if name == "copy":
                u = self.uid(node, st)
                return [("ok", ("D", u), st.set_heap(u, h))]
            if name == "clear":
                return [("ok", NONE, st.set_heap(b[1], ()))]
        return None


class _CM(tuple):
    def __new__(cls, func, obj, args, kw, node, term=None):
        t = tuple.__new__(cls, ("cm", func.qual))
        t.func, t.obj, t.args, t.kw, t.node, t.term = func, obj, args, kw, node, term
        return t


def _flat(h):
    for x in h:
        if isinstance(x, tuple) and len(x) == 2 and (x[0] == "**" or isinstance(x[0], tuple)):
            if isinstance(x[0], tuple):
                yield x[0]
            yield x[1]
        else:
            yield x


def neg(t):
    if t[0] == "c":
        return ("c", not t[1])
    if t[0] == "op" and t[1] == "not":
        return t[2]
    return ("op", "not", t)


def is_boolish(t):
    return t[0] == "op" and t[1] in ("==", "is", "in", "<", "not", "isinstance", "and", "or", "hasattr", "callable")


def compare(op, a, b):
    if op in ("Eq", "NotEq"):
        if a[0] == "c" and b[0] != "c":
            a, b = b, a
        t = ("op", "==", a, b)
        if a[0] == "c" and b[0] == "c":
            t = ("c", a[1] == b[1])
        return t if op == "Eq" else neg(t)
    if op in ("Is", "IsNot"):
        if a[0] == "c" and b[0] != "c":
            a, b = b, a
        t = ("op", "is", a, b)
        return t if op == "Is" else neg(t)
    if op in ("In", "NotIn"):
        t = ("op", "in", a, b)
        return t if op == "In" else neg(t)
    if op == "Lt":
        return ("op", "<", a, b)
    if op == "Gt":
        return ("op", "<", b, a)
    if op == "LtE":
        return neg(("op", "<", b, a))
    if op == "GtE":
        return neg(("op", "<", a, b))
    return ("op", op, a, b)


def _fixed(c):
    """the class of a value, and whether it is None, stay what they are"""
    return c[0] == "op" and (c[1] == "isinstance" or c[1] == "is" and c[3] == NONE) and c[2][0] == "call" and c[2][-1] != "pure"


def norm_cond(t):
    """len(x) > 0, len(x) != 0, x is True, bool(x) ... -> x"""
    while True:
        if t[0] == "op" and t[1] == "bool":
            t = t[2]
            continue
        if t[0] == "op" and t[1] == "len":
            t = t[2]
            continue
        if t[0] == "op" and t[1] == "<" and t[2] == ("c", 0) and t[3][0] == "op" and t[3][1] == "len":
            t = t[3][2]
            continue
        if t[0] == "op" and t[1] == "<" and t[3] == ("c", 1) and t[2][0] == "op" and t[2][1] == "len":
            return ("op", "not", norm_cond(t[2][2]))
        if t[0] == "op" and t[1] == "==" and t[3] == ("c", 0) and t[2][0] == "op" and t[2][1] == "len":
            return ("op", "not", norm_cond(t[2][2]))
        if t[0] == "op" and t[1] in ("is", "==") and t[3][0] == "c" and isinstance(t[3][1], bool) and t[2][0] in NOT_BOOL:
            return t
        if t[0] == "op" and t[1] in ("is", "==") and t[3] == ("c", True) and t[3][1] is True:
            t = t[2]
            continue
        if t[0] == "op" and t[1] in ("is", "==") and t[3] == ("c", False) and t[3][1] is False:
            return ("op", "not", norm_cond(t[2]))
        if t[0] == "op" and t[1] == "not":
            return ("op", "not", norm_cond(t[2]))
        return t


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


_nest = {}


def _has_nested(node):
    k = id(node)
    r = _nest.get(k)
    if r is None or r[0] is not node:
        r = (node, any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node))
        _nest[k] = r
    return r[1]


_gen = {}


def _own_walk(node):
    """walk without entering nested functions"""
    work = list(ast.iter_child_nodes(node))
    while work:
        n = work.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            work.extend(ast.iter_child_nodes(n))


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_walk(node))


def _declares(node, name):
    if isinstance(node, ast.Lambda):
        return False
    return any(isinstance(x, (ast.Nonlocal,)) and name in x.names for x in _own_walk(node))


def _trivial(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Return)


def _ctor_safe(init):
    """__init__ that only stores its parameters cannot raise"""
    for s in init.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(getattr(s, "value", None), (ast.Name, ast.Constant, ast.List, ast.Dict)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == "__init__":
            continue
        if isinstance(s, ast.FunctionDef):
            continue
        return False
    return True
