"""Common query building blocks"""
import ast
from .interp import Interp, Query, Ev, contains, dotted, last_name, show, walk_term, TooBig  # noqa: F401
from .project import Class


class EQ(Query):
    """names: attribute / function names that make a function worth following;
    call(it, fn, args, kw, st), store(it, base, name, value, st), cond(it, term, st), with_(it, term, st): what to record;
    spawn: treat process.spawn / Spawned as running its target"""

    def __init__(self, names=(), call=None, store=None, cond=None, with_=None, spawn=False, force=(), never=(),
                 ctor=(), node=None, noraise=None, result=None, counts=None, effect=None, **kw):
        self.names = set(names)
        self._call = call
        self._store = store
        self._cond = cond
        self._with = with_
        self.spawn = spawn
        self.force = set(force)
        self.never = set(never)
        self.ctor = set(ctor)
        self._node = node
        self._noraise = noraise
        self._result = result
        self._counts = counts
        self._effect = effect
        self.never_mod = ()
        self.never_if = None
        for k, v in kw.items():
            setattr(self, k, v)

    def node_interesting(self, n):
        if isinstance(n, ast.Attribute) and n.attr in self.names:
            return True
        if isinstance(n, ast.Name) and n.id in self.names:
            return True
        return bool(self._node and self._node(n))

    def want_call(self, it, fn, args, kw, st):
        return bool(self._call and self._call(it, fn, args, kw, st))

    def want_store(self, it, base, name, value, st):
        return bool(self._store and self._store(it, base, name, value, st))

    def want_cond(self, it, term, st):
        return bool(self._cond and self._cond(it, term, st))

    def want_with(self, it, term, st):
        return bool(self._with and self._with(it, term, st))

    def force_inline(self, f):
        return f.name in self.force or f.qual in self.force

    def never_inline(self, f):
        return f.name in self.never or f.qual in self.never or f.qual.startswith(self.never_mod) or bool(self.never_if and self.never_if(f))

    def inline_ctor(self, c):
        return c.name in self.ctor or c.qual in self.ctor

    def no_raise(self, it, fn, st):
        return bool(self._noraise and self._noraise(it, fn, st))

    def opaque_result(self, it, fn, args, kw, st):
        return self._result(it, fn, args, kw, st) if self._result else None

    def counts(self, it, base, st):
        return self._counts(it, base, st) if self._counts else None

    def effect(self, it, fn, args, kw, st):
        return self._effect(it, fn, args, kw, st) if self._effect else st

    def async_call(self, it, fn, args, kw, st):
        if not self.spawn:
            return None
        if last_name(fn) == "spawn" and fn[0] in ("a", "bm") and args:
            return args[0], list(args[1:]), list(kw)
        if fn[0] == "cls" and fn[1].endswith(".Spawned") and args:
            a = args[1] if len(args) > 1 else ("T", ())
            k = args[2] if len(args) > 2 else None
            pos = list(a[1]) if a[0] == "T" else [("star", a)]
            kws = [] if k is None else [("**", k)]
            return args[0], pos, kws
        return None


def distinct_classes(p, base, names=None):
    """concrete variants of `base`: one representative per distinct resolution of the given method names"""
    if names is None:
        names = set()
        for k in p.mro(base):
            if isinstance(k, Class):
                names |= set(k.methods)
    seen = {}
    for c in [base] + sorted(p.subclasses(base, strict=True), key=lambda c: c.qual):
        sig = tuple(getattr(p.lookup(c, n), "qual", None) for n in sorted(names))
        seen.setdefault(sig, c)
    return list(seen.values())


def reach_names(p, func):
    """names of everything transitively referenced from a function (by bare name)"""
    seen = set()
    work = [func.name]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for f in p.by_name.get(n, []):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    work.append(x.attr)
                elif isinstance(x, ast.Name):
                    work.append(x.id)
    return seen


def path_lines(tr, n=30):
    out = []
    for e in tr.events[-n:]:
        out.append("%s %s" % (e.loc(), repr(e)[:200]))
    out.append("outcome: %s %s" % (tr.outcome, show(tr.value)[:80] if tr.value else ""))
    return out
