"""shared driving of the stateful / runnable controller entry points"""
from sa.interp import contains, last_name, show, NONE
from sa.q import EQ, Interp

OPAQUE = ("malcolm.core",)
REC = ("transition", "run_hooks", "put", "get", "stop", "set_value", "ignore_stops_before_now", "sleep", "unsubscribe_all", "prepare", "set_limitHigh",
       "create_part_contexts", "get_steps_per_run", "_part_params", "validate")
NEVER = {"transition", "run_hooks", "stop", "set_value", "ignore_stops_before_now", "sleep", "validate", "create_part_contexts", "get_steps_per_run", "update_health",
         "unsubscribe_all", "prepare"}


def self_of(c):
    return ("o", "self", c.qual)


def drive(ctx, c, meth, never=(), names=(), call=None, conds=None, max_iter=2, noraise=None, cond=None, follow=(), counts=None, args=None, store=None, force=(), effect=None, raises=None, never_if=None):
    p = ctx.p
    f = p.method(c, meth)
    S = self_of(c)
    q = EQ(names=set(REC) | {"abort_queue", "resume_queue", "part_contexts", "state"} | set(names),
           call=call or (lambda it, fn, a, k, st: last_name(fn) in REC), cond=cond if cond is not None else (lambda it, t, st: True),
           with_=lambda it, t, st: "_lock" in show(t) or "changes_squashed" in show(t), store=store or (lambda it, b, n, v, st: b == S),
           never=(NEVER | set(never)) - set(follow), never_mod=OPAQUE, counts=counts or (lambda it, b, st: [1]), max_iter=max_iter, noraise=noraise, force=set(force), effect=effect, never_if=never_if, **({"raises": raises} if raises else {}))
    it = Interp(p, q)
    cs = {("a", S, "abort_queue"): True, ("a", S, "resume_queue"): True, ("a", S, "process"): True}
    cs.update(conds or {})
    tr = it.run(f, c, args, conds=cs)
    ctx.used(it, tr)
    return f, S, tr, it


def trans(t):
    """[(index, state term, failed)] of every transition asked for on the path"""
    out = []
    for i, e in enumerate(t.events):
        if e.kind == "call" and e.name() == "transition":
            failed = i + 1 < len(t.events) and t.events[i + 1].kind == "raised" and t.events[i + 1].term == e.term
            out.append((i, e.args[0] if e.args else dict(e.kw).get("state"), failed))
    return out


def sval(x):
    return x[1] if x is not None and x[0] == "c" else None


def aborted(v):
    return v is not None and v[0] == "exc" and str(v[1]).endswith("AbortedError")


def hooks(t):
    """[(index, [hook terms])] of run_hooks calls"""
    out = []
    for i, e in enumerate(t.events):
        if e.kind == "call" and e.name() == "run_hooks":
            x = t.state.snap(e.args[0]) if e.args else NONE
            out.append((i, list(x[1]) if x[0] in ("list", "T") else [x]))
    return out


def hname(h):
    return h[1].split(".")[-1] if h[0] == "new" else h[0] == "call" and last_name(h[1]) or show(h)[:40]


def failed_at(t, i):
    return i + 1 < len(t.events) and t.events[i + 1].kind == "raised"


def moves(S):
    """a transition changes the state; anything else may have let somebody else change it"""
    key = (("a", S, "state"), "value")

    def effect(it, fn, args, kw, st):
        n = last_name(fn)
        if n == "transition":
            v = args[0] if args else dict(kw).get("state")
            return it._forget(st.set_store(key, v), ("a",) + key)
        if n in ("run_hooks", "get", "sleep", "func") or n.startswith("do_"):
            return it._forget(st.set_store(key, None), ("a",) + key)
        return st
    return effect


def could_be(t, term, value, upto=None):
    """may the term have had that (constant) value, given the tests taken on the path"""
    for e in t.events[:upto]:
        if e.kind != "cond":
            continue
        r = holds(e.term, term, value)
        if r is not None and r != bool(e.extra):
            return False
    return True


def holds(x, term, value):
    if x[0] == "op" and len(x) >= 3:
        o, a = x[1], x[2:]
        if o == "not":
            r = holds(a[0], term, value)
            return None if r is None else not r
        if o in ("==", "is", "!=", "is not") and term in a:
            other = a[1] if a[0] == term else a[0]
            if other[0] == "c":
                return (other[1] == value) == (o in ("==", "is"))
        if o in ("in", "not in") and a[0] == term:
            els = a[1]
            vals = None
            if els[0] in ("T", "list", "set", "L"):
                vals = els[1] if isinstance(els[1], tuple) else None
            elif els[0] == "c" and isinstance(els[1], (tuple, list, frozenset, set)):
                vals = [("c", v) for v in els[1]]
            if vals is not None and all(v[0] == "c" for v in vals):
                return (("c", value) in [tuple(v) for v in vals]) == (o == "in")
    return None
