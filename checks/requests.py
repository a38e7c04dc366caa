"""Shared by C01-C03: every path of the request entry point for every request class"""
import ast
from sa.interp import contains, last_name, walk_term
from sa.q import EQ, Interp, distinct_classes

REQUESTS = ("Get", "Put", "Post", "Subscribe", "Unsubscribe")


def req_term(p, r):
    return ("o", "request", p.cls(r).qual)


def controllers(p):
    """one representative Controller class per distinct resolution of the methods a request can reach"""
    base = p.cls("Controller")
    entry = p.method(base, "handle_request")
    names = set()
    work = [entry]
    seen = set()
    while work:
        f = work.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        selfn = f.params[0] if f.params else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == selfn:
                for c in [base] + p.subclasses(base, strict=True):
                    m = p.lookup(c, n.attr)
                    if m is not None:
                        names.add(n.attr)
                        work.append(m)
    return distinct_classes(p, base, names | {"handle_request"})


def writer_maps(p):
    """attribute names of Controller that hold name -> write function (found from where they are filled)"""
    base = p.cls("Controller")
    out = set()
    for c in p.mro(base):
        for f in getattr(c, "methods", {}).values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) \
                                and isinstance(t.value.value, ast.Name) and t.value.value.id == "self":
                            v = n.value
                            src = ast.dump(f.node.args)
                            if isinstance(v, ast.Name) and "writeable_func" in src:
                                out.add(t.value.attr)
    return out


def is_lock(t):
    return t[0] == "a" and "lock" in t[2].lower() and t[2] != "lock_released"


class Traces:
    def __init__(self, ctx, locks=False, conds=False):
        p = ctx.p
        self.p = p
        self.ctx = ctx
        self.maps = writer_maps(p)
        self.locks = locks
        self.conds = conds

    def is_writer(self, fn):
        if fn[0] == "partial":
            return self.is_writer(fn[1])
        if fn[0] == "i" and fn[1][0] == "a" and fn[1][2] in self.maps:
            return True
        if fn[0] == "call" and last_name(fn[1]) in ("get", "pop") and fn[1][0] == "a" and fn[1][1][0] == "a" \
                and fn[1][1][2] in self.maps:
            return True
        return last_name(fn) in ("send_put", "send_post")

    @staticmethod
    def writer_key(fn):
        if fn[0] == "i":
            return fn[2]
        if fn[0] == "call":
            return fn[2][0] if fn[2] else None
        return None

    def run(self, cls, r):
        p = self.p
        req = req_term(p, r)
        cb = ("a", req, "callback")

        def call(it, fn, args, kw, st):
            if fn[0] == "a" and fn[2] == "callback":
                return True
            if self.is_writer(fn):
                return True
            n = last_name(fn)
            if n in ("set_took", "set_returned", "TimeStamp", "validate") and r == "Post":
                return True
            if self.locks and n == "freeze":
                return True
            if self.locks and n in ("acquire", "release") and fn[0] in ("a", "bm"):
                return True
            return False

        def cond(it, t, st):
            return self.conds and any(isinstance(x, tuple) and x and (x[0] == "a" and x[2] in ("writeable", "get", "delta"))
                                      or (isinstance(x, tuple) and x[:2] == ("op", "isinstance")) for x in walk_term(t))

        def effect(it, fn, args, kw, st):
            """the setter may change the value of the field: what is read afterwards is not what was there before"""
            ev = list(st.events)
            if r == "Put" and self.conds and any(e.kind == "call" and self.is_writer(e.term) for e in ev):
                for e in ev:
                    if e.kind == "cond" and e.term[:2] == ("op", "isinstance") and contains(e.term[2], ("a", req, "path")):
                        v = ("a", e.term[2], "value")
                        st = st.set_store((e.term[2], "value"), ("call", ("ext", "after"), (v,), (), "pure"))
            return st

        q = EQ(names={"callback", "get_put_function", "get_post_function", "check_field_writeable", "writeable"}
               | self.maps | ({"acquire", "release"} if self.locks else set()),
               call=call, cond=cond, effect=effect, with_=lambda it, t, st: self.locks and is_lock(t), spawn=True,
               # only the request's own effects: notification fan-out has its own property
               never={"notify_changes", "set_endpoint_data", "validate", "freeze"} if r == "Post" else {"freeze", "set_endpoint_data"},
               force={"lock_released", "get_put_function", "get_post_function", "update_method_logs"},
               noraise=lambda it, fn, st: last_name(fn) in ("major", "minor", "invalid", "stringify_error", "MethodLog", "TimeStamp"),
               max_iter=3 if self.ctx.thorough else 2,
               max_recursion=4 if self.ctx.thorough else 3)
        it = Interp(p, q)
        tr = it.run(p.method(cls, "handle_request"), cls, {"request": req})
        self.ctx.used(it, tr)
        return req, tr
