"""Lock-depth dataflow along every path: explicit acquire/release, with-statements and the project's own lock context
managers are followed through inlining, including every exceptional exit."""
import ast
from sa.interp import last_name, show
from sa.q import EQ, Interp, path_lines
from checks.requests import REQUESTS, Traces, controllers, is_lock


def depths(events):
    """yield (event, lock depth before it)"""
    d = 0
    for e in events:
        yield e, d
        if e.kind == "enter" and is_lock(e.term):
            d += 1
        elif e.kind == "exit" and is_lock(e.term):
            d -= 1
        elif e.kind == "call" and e.name() == "acquire":
            d += 1
        elif e.kind == "call" and e.name() == "release":
            d -= 1
    yield None, d


def run(ctx):
    p = ctx.p
    T = Traces(ctx, locks=True)
    for cls in controllers(p):
        for r in REQUESTS:
            req, traces = T.run(cls, r)
            tag = "%s/%s" % (cls.name, r)
            for t in traces:
                pl = None
                low = 0
                for e, d in depths(t.events):
                    low = min(low, d)
                    if e is None:
                        ok = ctx.ob("lock-balanced-on-exit", tag, d == 0,
                                    "request handling ends with lock depth %d" % d, "", path_lines(t, 60) if d else None)
                        continue
                    if e.kind != "call":
                        continue
                    if T.is_writer(e.term):
                        ctx.ob("user-code-runs-unlocked", tag, d == 0, "setter/method called with lock depth %d" % d,
                               e.loc(), path_lines(t, 60) if d else None)
                    elif e.name() == "callback":
                        ctx.ob("responses-sent-unlocked", tag, d == 0, "response sent with lock depth %d" % d, e.loc(),
                               path_lines(t, 60) if d else None)
                    elif e.name() in ("set_took", "set_returned"):
                        ctx.ob("block-touched-only-with-lock", tag, d >= 1, "%s with lock depth %d" % (e.name(), d), e.loc(),
                               path_lines(t, 60) if d < 1 else None)
                    elif e.name() in ("freeze",):
                        ctx.ob("block-touched-only-with-lock", tag, d >= 1, "block data read with lock depth %d" % d, e.loc(),
                               path_lines(t, 60) if d < 1 else None)
                ctx.ob("never-released-when-not-held", tag, low >= 0, "released more often than acquired", "",
                       path_lines(t, 60) if low < 0 else None)
    notifier(ctx)
    explicit(ctx)
    for r, n in (("user-code-runs-unlocked", 10), ("responses-sent-unlocked", 50), ("lock-balanced-on-exit", 50),
                 ("block-touched-only-with-lock", 20), ("squash-exit-releases", 2)):
        ctx.floor(r, n)


def notifier(ctx):
    """the change-squashing context manager: +1 on entry, -1 on every exit, subscribers called after release,
    its counters only touched while held"""
    p = ctx.p
    n = p.cls("Notifier")
    state = set()
    for f in n.methods.values():
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Attribute) and f.name not in ("__init__",):
                        state.add(t.attr)
    for meth, delta in (("__enter__", 1), ("__exit__", -1)):
        f = p.method(n, meth)
        q = EQ(names={"acquire", "release", "callback"} | state,
               call=lambda it, fn, a, k, st: last_name(fn) in ("acquire", "release", "notify_changes") or fn[0] in ("elem", "i", "p"),
               store=lambda it, b, nm, v, st: nm in state, with_=lambda it, t, st: is_lock(t),
               never={"notify_changes"}, max_iter=2)
        q.raises = "all"
        it = Interp(p, q)
        traces = it.run(f, n)
        ctx.used(it, traces)
        for t in traces:
            for e, d in depths(t.events):
                if e is None:
                    if meth == "__enter__":
                        ok = d == (1 if t.outcome == "return" else d)
                        ctx.ob("squash-enter-acquires", "Notifier.__enter__", ok, "net lock effect %d" % d, "", path_lines(t))
                    else:
                        ctx.ob("squash-exit-releases", "Notifier.__exit__", d == -1, "net lock effect %d on exit" % d, "", path_lines(t))
                elif e.kind == "store" or (e.kind == "call" and e.name() == "notify_changes"):
                    held = d >= 1 if meth == "__enter__" else d >= 0
                    ctx.ob("notifier-state-under-lock", "Notifier." + meth, held, "%s outside the lock" % show(e.term), e.loc(), path_lines(t))
                elif e.kind == "call" and e.name() not in ("acquire", "release"):
                    ctx.ob("subscribers-called-after-release", "Notifier." + meth, d == -1,
                           "subscriber callback while squash lock still held", e.loc(), path_lines(t))


def explicit(ctx):
    """every function that calls acquire/release explicitly: same net effect on all exits"""
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                 and n.func.attr in ("acquire", "release") and "lock" in ast.unparse(n.func.value).lower()]
        if not calls or f.name in ("__enter__", "__exit__"):
            continue
        q = EQ(names={"acquire", "release"}, call=lambda it, fn, a, k, st: last_name(fn) in ("acquire", "release"))
        q.raises = "all"
        it = Interp(p, q)

        # a context manager: the with-body may end in any way
        def body(v, st):
            return [("normal", None, st), ("raise", ("exc", "any", None), st)]
        from sa.interp import State, Frame
        if f.is_cm:
            st = State()
            st.guard = 1
            selft = ("o", "self", f.cls.qual) if f.cls else None
            fid = ("cm", f.qual)
            st.envs = {fid: {f.params[0]: selft} if f.params else {}}
            st.stack = (Frame(fid, f, selft, None, body),)
            outs = it.block(f.node.body, st, frozenset())
            nets = {sum({"acquire": 1, "release": -1}[e.name()] for e in s.events if e.kind == "call") for _, _, s in outs}
        else:
            traces = it.run(f, f.cls)
            nets = {sum({"acquire": 1, "release": -1}[e.name()] for e in t.events if e.kind == "call") for t in traces}
        ctx.ob("explicit-lock-pairing", f.qual, nets == {0}, "net lock effect over exits: %s" % sorted(nets),
               "%s:%d" % (f.module.rel, f.node.lineno))
