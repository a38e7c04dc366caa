"""Hook protocol: every hooked function is started once with exactly the arguments it asks for, always reports exactly one
result, and the waiter collects all of them or stops the others, waits for them and raises the failure."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import calls, explicit_raise, events, idx_of, stores, is_exc, two


def run(ctx):
    starting(ctx)
    waiting(ctx)
    calling(ctx)
    controller_side(ctx)
    stoppable(ctx)
    registering(ctx)
    spawned(ctx)
    arguments(ctx)


# ------------------------------------------------------------------ module level start_hooks / wait_hooks
def starting(ctx):
    p = ctx.p
    f = p.func("malcolm.core.hook.start_hooks")
    tag = "start_hooks"
    hooks = ("p", f.params[0])
    q = EQ(names={"set_queue", "on_hook", "spawned", "append"}, call=lambda it, fn, a, k, st: last_name(fn) in ("set_queue", "on_hook"),
           cond=lambda it, t, st: True, counts=two, never={"set_queue", "on_hook"})
    q.raises = "guarded"
    it = Interp(p, q)
    tr = it.run(f)
    ctx.used(it, tr)
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        v = t.state.snap(t.value)
        ok = v[0] == "T" and len(v[1]) == 2 and v[1][1][0] == "list"
        ctx.ob("start-returns-queue-and-started", tag, ok, "returns %s" % show(v), f.loc(), pl)
        if not ok:
            continue
        queue = v[1][0]
        started = {}
        for n, e in enumerate(t.events):
            if e.kind == "cond" and e.term[0] == "a" and e.term[2] == "spawned":
                started[idx_of(e.term[1])] = e.extra
            elif e.kind == "cond" and e.term[:2] == ("op", "is") and NONE in e.term[2:] and contains(e.term, ("c", None)) and "spawned" in show(e.term):
                started[idx_of(e.term[2])] = not e.extra
        el = sorted({idx_of(e.term[1]) for e in calls(t, "set_queue")} | {idx_of(e.args[0]) for e in calls(t, "on_hook")}, key=repr)
        ctx.ob("every-hook-is-offered-once", tag, len(el) == 2 and len(calls(t, "on_hook")) == 2, "hooks offered: %s" % [repr(e) for e in calls(t, "on_hook")], f.loc(), pl)
        for i in el:
            sq = [n for n, e in enumerate(t.events) if e.kind == "call" and e.name() == "set_queue" and idx_of(e.term[1]) == i]
            oh = [n for n, e in enumerate(t.events) if e.kind == "call" and e.name() == "on_hook" and idx_of(e.args[0]) == i]
            ok = len(sq) == 1 and len(oh) == 1 and sq[0] < oh[0] and t.events[sq[0]].args[0] == queue
            ctx.ob("result-queue-set-before-start", tag, ok, "set_queue %s, on_hook %s" % (sq, oh), f.loc(), pl)
            if oh:
                e = t.events[oh[0]]
                ctx.ob("every-hook-is-offered-once", tag, e.term[1] == ("a", e.args[0], "child"), "%r offered to another child" % e, f.loc(), pl)
        got = [idx_of(x) for x in v[1][1][1]]
        want = [i for i, s in started.items() if s]
        ctx.ob("exactly-the-started-hooks-are-waited-for", tag, sorted(map(repr, got)) == sorted(map(repr, want)) and len(started) == 2,
               "reports %s as started, started %s" % (got, want), f.loc(), pl)


def waiting(ctx):
    p = ctx.p
    f = p.func("malcolm.core.hook.wait_hooks")
    tag = "wait_hooks"
    queue, spawned_ = ("p", f.params[1]), ("p", f.params[2])

    def HR(n):
        return ("p", "HOOK%d" % n), ("p", "RET%d" % n)

    def go(check):
        takes = lambda fn: last_name(fn) == "get" and fn[0] in ("a", "bm") and fn[1] == queue
        q = EQ(names={"get", "wait", "stop", "spawned"}, call=lambda it, fn, a, k, st: last_name(fn) in ("get", "wait", "stop", "remove", "discard", "pop", "__setitem__", "clear"),
               cond=lambda it, t, st: True, counts=lambda it, b, st: two(it, b, st) if contains(b, spawned_) and b[0] != "call" else None, never={"stop", "wait", "get"}, max_iter=2,
               result=lambda it, fn, a, k, st: ("T", HR(sum(1 for e in st.events if e.kind == "call" and takes(e.term)))) if takes(fn) else None,
               noraise=lambda it, fn, st: last_name(fn) in ("stop", "get", "wait", "remove"))
        it = Interp(p, q)
        tr = it.run(f, None, {"exception_check": ("c", check)})
        ctx.used(it, tr)
        return tr
    for check in (True, False):
        nret = nraise = 0
        for t in go(check):
            pl = path_lines(t, 60)
            failed, aborted = {}, {}
            for e in t.events:
                if e.kind == "cond" and e.term[:2] == ("op", "isinstance"):
                    n = show(e.term[3])
                    if "AbortedError" in n:
                        aborted[e.term[2]] = e.extra
                        if e.extra:
                            failed[e.term[2]] = True
                    elif "Exception" in n:
                        failed[e.term[2]] = e.extra
            gets = [e for e in calls(t, "get") if e.term[1] == queue]
            stops = calls(t, "stop")
            waits = calls(t, "wait")
            if t.outcome == "raise":
                if not explicit_raise(t):
                    continue
                nraise += 1
                R = t.value[2]
                ctx.ob("failure-is-raised", tag, check and failed.get(R) is True, "raises %s (failed %s, checked %s)" % (show(t.value), failed, check), f.loc(), pl)
                st = {repr(idx_of(e.term[1])) for e in stops}
                if aborted.get(R) is not True:
                    ctx.ob("failure-stops-the-others", tag, len(st) == 2 and all(contains(e.term[1], spawned_) for e in stops), "stops %s" % [show(e.term) for e in stops], f.loc(), pl)
                first_stop = min([i for i, e in enumerate(t.events) if e in stops] or [0])
                aft = {repr(idx_of(e.term[1])) for i, e in enumerate(t.events) if e in waits and e.kind == "call" and contains(e.term, spawned_) and i > first_stop}
                ctx.ob("failure-waits-for-the-others", tag, len(aft) == 2, "waits for %d of 2 others" % len(aft), f.loc(), pl)
                ctx.ob("failure-waits-for-the-others", tag, all(e.arg(0, "timeout") == ("p", "timeout") for e in waits), "waits without the timeout", f.loc(), pl)
            else:
                nret += 1
                ctx.ob("failure-is-raised", tag, not (check and any(failed.values())), "a failure is not raised", f.loc(), pl)
                ctx.ob("no-stop-without-failure", tag, not stops, "hooks stopped although nothing failed", f.loc(), pl)
                v = t.state.snap(t.value)
                sets = [e for e in t.events if e.kind == "call" and e.name() == "__setitem__" and len(e.args) == 2]
                rem = calls(t, "remove", "discard")
                for n in range(1, len(gets) + 1):
                    H, R = HR(n)
                    name = ("a", ("a", H, "child"), "name")
                    items = v[1] if v[0] == "dict" else ()
                    ok = any(tuple(kv) == (name, R) for kv in items) or any(e.args == (name, R) for e in sets)
                    ctx.ob("result-filed-under-its-part", tag, ok, "result not returned under the name of its part: %s" % show(v), f.loc(), pl)
                    ctx.ob("result-means-finished", tag, any(contains(e.term, H) for e in waits), "returns before the hooked function has finished", f.loc(), pl)
                    ctx.ob("each-result-counted-once", tag, len([e for e in rem if e.args == (H,)]) == 1, "a result is not taken off the waited set exactly once", f.loc(), pl)
                last = max([i for i, e in enumerate(t.events) if e in gets] or [-1])
                cs = [e for e in t.events[last + 1:] if e.kind == "cond" and e.extra is False and (contains(e.term, spawned_) or e.term[0] == "L")]
                ctx.ob("waits-for-every-started-hook", tag, bool(cs), "returns without having seen every started hook report", f.loc(), pl)
        ctx.ob("failure-is-raised", tag, nret > 0 and (not check or nraise > 0), "check=%s: %d returning, %d raising paths" % (check, nret, nraise), f.loc())


# ------------------------------------------------------------------ Hook
def calling(ctx):
    p = ctx.p
    c = p.cls("Hook")
    S = ("o", "self", c.qual)
    f = p.method(c, "__call__")
    func = ("p", f.params[1])
    spawn_calls = lambda fn: fn[0] == "a" and fn[1] == S and fn[2] not in ("prepare", "_run", "stop", "validate_return")
    q = EQ(names={"prepare", "_spawn", "spawned", "_kwargs"}, call=lambda it, fn, a, k, st: last_name(fn) == "prepare" or spawn_calls(fn),
           store=lambda it, b, n, v, st: b == S, cond=lambda it, t, st: True, never={"prepare", "_run"}, counts=two)
    q.node_interesting = lambda n: True
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    target = None
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        n += 1
        pl = path_lines(t)
        sp = [e for e in t.events if e.kind == "call" and spawn_calls(e.term) and len(e.args) >= 2]
        ok = len(sp) == 1 and sp[0].args[1] == func and len(sp[0].args) + len(sp[0].kw) == 3
        ctx.ob("hooked-function-started-once", "Hook.__call__", ok, "starts %s" % [repr(e) for e in sp], f.loc(), pl)
        if not ok:
            continue
        target = sp[0].args[0]
        pr = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "prepare"]
        i = t.events.index(sp[0])
        ctx.ob("prepared-before-start", "Hook.__call__", len(pr) == 1 and pr[0] < i, "prepare at %s, start at %d" % (pr, i), f.loc(), pl)
        st = [e for e in stores(t) if e.args[0][0] == "call" and e.args[0][1] == sp[0].term]
        ctx.ob("started-hook-is-marked", "Hook.__call__", len(st) == 1 and st[0].term == ("a", S, "spawned"), "stores %s" % [repr(e) for e in st], f.loc(), pl)
        guard = [e for e in t.events[:i] if e.kind == "cond" and contains(e.term, ("a", S, "spawned"))]
        ctx.ob("never-started-twice", "Hook.__call__", any(e.extra is (e.term[0] == "op" and e.term[1] == "is") for e in guard), "may start a second function", f.loc(), pl)
        kw = sp[0].args[2] if len(sp[0].args) > 2 else sp[0].kw[0][1]
        ok = kw[0] == "dict" and all(kv[1] == ("i", ("a", S, "_kwargs"), kv[0]) and kv[0][0] != "c" and not contains(kv[0], ("a", S, "_kwargs")) for kv in kw[1])
        none = any(e.kind == "cond" and "call_types" in show(e.term) and e.extra is False for e in t.events)
        ctx.ob("passes-exactly-the-demanded-arguments", "Hook.__call__", ok and (len(kw[1]) == 2 or none), "passes %s" % show(kw), f.loc(), pl)
    ctx.ob("hooked-function-started-once", "Hook.__call__", n > 0, "never starts", f.loc())
    if target is None or target[0] != "bm":
        return
    g = p.method(c, target[2].split(".")[-1])
    q = EQ(names={"put", "validate_return", "_queue"}, call=lambda it, fn, a, k, st: last_name(fn) in ("put", "validate_return") or fn[0] == "p",
           never={"put", "validate_return"}, cond=lambda it, t, st: True)
    it = Interp(p, q)
    tr = it.run(g, c)
    ctx.used(it, tr)
    func = ("p", g.params[1])
    kws = ("p", g.params[2])
    kinds = set()
    for t in tr:
        pl = path_lines(t)
        if t.outcome == "raise" and is_exc(t.value, "AssertionError"):
            continue
        puts = calls(t, "put")
        fc = [e for e in t.events if e.kind == "call" and e.term == func]
        ctx.ob("hooked-function-called-once", "Hook", len(fc) == 1 and contains(("x", fc[0].args, fc[0].kw), kws), "calls %s" % [repr(e) for e in fc], g.loc(), pl)
        ctx.ob("always-reports-one-result", "Hook", t.outcome == "return" and len(puts) == 1, "outcome %s, reports %d results" % (t.outcome, len(puts)), g.loc(), pl)
        if len(puts) != 1:
            continue
        v = puts[0].args[0]
        rs = [e for e in t.events if e.kind == "raised"]
        ok = v[0] == "T" and len(v[1]) == 2 and v[1][0] == S
        if rs:
            kinds.add("failed")
            ok = ok and v[1][1][0] == "exc"
        else:
            kinds.add("ok")
            ok = ok and v[1][1][0] == "call" and last_name(v[1][1][1]) == "validate_return" and v[1][1][2] and v[1][1][2][0][0] == "call" and v[1][1][2][0][1] == func
        ctx.ob("reports-its-own-outcome", "Hook", ok, "reports %s" % show(v), g.loc(), pl)
    ctx.ob("always-reports-one-result", "Hook", kinds == {"ok", "failed"}, "cases seen: %s" % sorted(kinds), g.loc())
    # default validation accepts nothing but "no return value"
    f = p.method(c, "validate_return")
    q = EQ(names={"ret"}, cond=lambda it, t, st: True)
    for t in Interp(p, q).run(f, c):
        if t.outcome == "return":
            truth = [e.extra for e in t.events if e.kind == "cond"]
            ctx.ob("unexpected-return-is-an-error", "Hook.validate_return", False in truth or True in truth and "is" in repr(t.events), "accepts any return value", f.loc(), path_lines(t))


def controller_side(ctx):
    p = ctx.p
    c = p.cls("Controller")
    S = ("o", "self", c.qual)
    f = p.method(c, "start_hooks")
    q = EQ(names={"set_spawn", "start_hooks", "_lock", "spawn"}, call=lambda it, fn, a, k, st: last_name(fn) in ("set_spawn", "start_hooks"),
           with_=lambda it, t, st: True, cond=lambda it, t, st: True, counts=two)
    q.never_inline = lambda g: g.name in ("set_spawn", "spawn", "start_hooks")
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    hooks = ("p", f.params[1])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        sh = calls(t, "start_hooks")
        if not sh:
            v = t.state.snap(t.value)
            ctx.ob("all-hooks-handed-to-start", "Controller.start_hooks", v[0] == "T" and v[1][1] == ("list", ()) and
                   any(e.kind == "cond" and e.extra is False for e in t.events), "hooks dropped", f.loc(), pl)
            continue
        n += 1
        i = t.events.index(sh[0])
        lst = sh[0].args[0]
        ctx.ob("all-hooks-handed-to-start", "Controller.start_hooks", contains(lst, hooks) and len(sh) == 1 and (lst[0] != "list" or len(lst[1]) == 2 or lst[1][0][0] == "star"),
               "starts %s" % show(lst), f.loc(), pl)
        ss = [e for e in t.events[:i] if e.kind == "call" and e.name() == "set_spawn"]
        ok = len({repr(idx_of(e.term[1])) for e in ss}) == 2 and all(last_name(e.args[0]) == "spawn" and contains(e.args[0], ("a", S, "process")) for e in ss)
        ctx.ob("hooks-spawn-in-the-process", "Controller.start_hooks", ok, "set_spawn %s" % [repr(e) for e in ss], f.loc(), pl)
        depth = sum((e.kind == "enter") - (e.kind == "exit") for e in t.events[:i] if "lock" in show(e.term))
        ctx.ob("started-under-the-lock", "Controller.start_hooks", depth == 1, "an abort can come between the start of two hooks", f.loc(), pl)
        ctx.ob("start-returns-queue-and-started", "Controller.start_hooks", contains(t.state.snap(t.value), sh[0].term), "returns %s" % show(t.value), f.loc(), pl)
    ctx.ob("all-hooks-handed-to-start", "Controller.start_hooks", n > 0, "never starts hooks", f.loc())
    f = p.method(c, "wait_hooks")
    q = EQ(names={"wait_hooks"}, call=lambda it, fn, a, k, st: last_name(fn) == "wait_hooks", cond=lambda it, t, st: True)
    q.never_inline = lambda g: g.name == "wait_hooks"
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        w = calls(t, "wait_hooks")
        if not w:
            ctx.ob("started-hooks-are-waited-for", "Controller.wait_hooks", any(e.kind == "cond" and e.term == ("p", f.params[2]) and e.extra is False for e in t.events),
                   "returns without waiting for started hooks", f.loc(), pl)
            continue
        n += 1
        g = p.func("malcolm.core.hook.wait_hooks")
        ok = len(w) == 1 and w[0].arg(1, g.params[1]) == ("p", f.params[1]) and w[0].arg(2, g.params[2]) == ("p", f.params[2]) \
            and w[0].arg(4, "exception_check") in (None, ("c", True)) and t.value[0] == "call" and t.value[1] == w[0].term
        ctx.ob("started-hooks-are-waited-for", "Controller.wait_hooks", ok, "%s returns %s" % ([repr(e) for e in w], show(t.value)), f.loc(), pl)
    ctx.ob("started-hooks-are-waited-for", "Controller.wait_hooks", n > 0, "never waits", f.loc())
    f = p.method(c, "run_hooks")
    q = EQ(names={"wait_hooks", "start_hooks"}, call=lambda it, fn, a, k, st: last_name(fn) in ("wait_hooks", "start_hooks"))
    q.never_inline = lambda g: g.name in ("wait_hooks", "start_hooks")
    for t in Interp(p, q).run(f, c):
        if t.outcome != "return":
            continue
        s, w = calls(t, "start_hooks"), calls(t, "wait_hooks")
        ok = len(s) == 1 and len(w) == 1 and s[0].args == (("p", f.params[1]),) and all(contains(a, s[0].term) for a in w[0].args) \
            and t.value[0] == "call" and t.value[1] == w[0].term
        ctx.ob("started-hooks-are-waited-for", "Controller.run_hooks", ok, "start %s wait %s" % ([repr(e) for e in s], [repr(e) for e in w]), f.loc(), path_lines(t))


def stoppable(ctx):
    """hooks with a context: the child works on a reference to the same context that stop() aborts and prepare() clears"""
    p = ctx.p
    base = p.cls("ControllerHook")
    for c in [base] + sorted(p.subclasses(base, strict=True), key=lambda c: c.qual):
        S = ("o", "self", c.qual)
        for meth, want in (("prepare", "ignore_stops_before_now"), ("stop", "stop")):
            f = p.method(c, meth)
            if c is not base and f.cls is base:
                continue
            q = EQ(names={want, "context"}, call=lambda it, fn, a, k, st: last_name(fn) == want and fn[1] != S)
            q.never_inline = lambda g: g.cls is not None and g.cls.name == "Context"
            for t in Interp(p, q).run(f, c):
                ok = t.outcome == "return" and len(calls(t, want)) == 1 and calls(t, want)[0].term[1] == ("a", S, "context")
                ctx.ob("%s-acts-on-the-hooks-context" % meth, c.name, ok, "%s: %s" % (t.outcome, [repr(e) for e in calls(t, want)]), f.loc(), path_lines(t))


def init_kwargs(ctx, c):
    """{name supplied to the hooked function: term over the constructor's parameters}, or None"""
    p = ctx.p
    f = p.lookup(c, "__init__")
    hook = p.cls("Hook")
    S = ("o", "self", c.qual)
    q = EQ(names={"__init__"}, store=lambda it, b, n, v, st: b == S)
    q.force_inline = lambda g: g.name == "__init__"
    q.node_interesting = lambda n: True
    it = Interp(p, q)
    tr = it.run(f, c)
    out = None
    child = context = None
    for t in tr:
        if t.outcome != "return":
            continue
        for e in t.events:
            if e.kind == "store" and e.term == ("a", S, "_kwargs"):
                v = e.args[0]
                if v[0] == "dict":
                    out = {k[1]: x for k, x in v[1] if k != "**" and k[0] == "c"}
                    if any(k == "**" for k, _ in v[1]):
                        out["**"] = NONE
                elif v == ("p", "**kwargs"):
                    out = {"**": NONE}
            elif e.kind == "store" and e.term == ("a", S, "child"):
                child = e.args[0]
            elif e.kind == "store" and e.term == ("a", S, "context"):
                context = e.args[0]
    return f, out, child, context


def hook_classes(p):
    return sorted(p.subclasses(p.cls("Hook"), strict=True), key=lambda c: c.qual)


def supplied_names(ctx):
    p = ctx.p
    res = {}
    sites = {}
    for f in p.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if nm.endswith("Hook"):
                    sites.setdefault(nm, set()).update(k.arg or "**" for k in n.keywords)
    for c in hook_classes(p):
        f, kw, child, context = init_kwargs(ctx, c)
        if kw is not None and "**" in kw and f.cls is not c:
            # takes whatever its construction sites pass
            extra = sites.get(c.name, set())
            if "**" not in extra and not p.subclasses(c, strict=True):
                kw = dict(kw)
                kw.pop("**")
                kw.update({k: ("p", k) for k in extra if k not in f.params})
        res[c.qual] = (f, kw, child, context)
    return res


def arguments(ctx):
    """each hook hands every constructor parameter on under its own name, and each registered function only asks for those"""
    p = ctx.p
    sup = supplied_names(ctx)
    n = 0
    for c in hook_classes(p):
        f, kw, child, context = sup[c.qual]
        if kw is None or f.cls is None:
            continue
        params = f.params[1:]
        if not params:
            continue
        ctx.ob("hook-belongs-to-its-part", c.name, child == ("p", params[0]), "child is %s" % (child and show(child)), f.loc())
        for k, v in kw.items():
            if k == "**":
                continue
            n += 1
            ok = v == ("p", k) or (v[0] == "call" and last_name(v[1]) == "proxy" and v[2] == (("p", k),))
            ctx.ob("hook-passes-arguments-under-their-own-name", "%s.%s" % (c.name, k), ok, "argument '%s' is %s" % (k, show(v)), f.loc())
        if c.name != "ControllerHook" and f.cls.name != "ControllerHook":
            for k in params[1:]:
                ctx.ob("hook-passes-arguments-under-their-own-name", "%s.%s" % (c.name, k), k in kw, "argument '%s' is not handed to the hooked function" % k, f.loc())
        if p.is_sub(c, p.cls("ControllerHook")):
            ctx.ob("hook-context-is-the-one-stopped", c.name, context == ("p", "context"), "keeps %s" % (context and show(context)), f.loc())
    # registrations
    base = p.cls("Hookable")
    for c in sorted(p.subclasses(base, strict=True), key=lambda c: c.qual):
        for f in c.methods.values():
            for node in ast.walk(f.node):
                if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("hook", "register_hooked")):
                    continue
                if len(node.args) < 2 or len(node.args) > 2 or any(k.arg == "args_gen" for k in node.keywords):
                    continue
                hooks = node.args[0].elts if isinstance(node.args[0], (ast.Tuple, ast.List)) else [node.args[0]]
                fn = node.args[1]
                if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == f.params[0]):
                    continue
                hcs = []
                for h in hooks:
                    r = p.resolve_expr(f.module, h)
                    r = getattr(r[1], "qual", None) if isinstance(r, tuple) and len(r) > 1 else None
                    if r in sup:
                        hcs.append(r)
                for k in [c] + sorted(p.subclasses(c, strict=True), key=lambda x: x.qual):
                    m = p.lookup(k, fn.attr)
                    if m is None:
                        continue
                    decorated = any("add_call_types" in ast.dump(d) for d in m.node.decorator_list)
                    need = [a for a in m.params[1:]]
                    tag = "%s.%s" % (k.name, fn.attr)
                    ctx.ob("hooked-function-declares-its-arguments", tag, not need or decorated, "takes %s but declares no call types: registering it raises" % need, m.loc())
                    for hq in hcs:
                        kw = sup[hq][1]
                        if kw is None or "**" in kw:
                            continue
                        miss = [a for a in need if a not in kw]
                        ctx.ob("hooked-function-gets-what-it-asks-for", "%s@%s" % (tag, hq.split(".")[-1]), not miss,
                               "asks for %s which %s does not supply" % (miss, hq.split(".")[-1]), m.loc())


def registering(ctx):
    p = ctx.p
    c = p.cls("Hookable")
    S = ("o", "self", c.qual)
    f = p.method(c, "register_hooked")
    q = EQ(names={"hooked", "make_args_gen"}, call=lambda it, fn, a, k, st: last_name(fn) == "__setitem__", store=lambda it, b, n, v, st: b == S,
           cond=lambda it, t, st: True, never={"make_args_gen"}, counts=two)
    q.node_interesting = lambda n: True
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    hooks, func = ("p", f.params[1]), ("p", f.params[2])
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        seq = None
        for e in t.events:
            if e.kind == "cond" and e.term[:3] == ("op", "isinstance", hooks):
                seq = e.extra
        sets = [e for e in calls(t, "__setitem__")]
        hk = None
        for kv in [tuple(e.args) for e in sets]:
            v = kv[1]
            ctx.ob("registered-under-every-hook", "Hookable.register_hooked", v[0] == "T" and v[1][0] == func, "registers %s" % show(v), f.loc(), pl)
        keys = {repr(e.args[0]) for e in sets}
        want = 2 if seq else 1
        if seq is not None:
            ctx.ob("registered-under-every-hook", "Hookable.register_hooked", len(keys) == want and all(contains(e.args[0], hooks) for e in sets),
                   "registered under %d of %d hooks" % (len(keys), want), f.loc(), pl)
    f = p.method(c, "on_hook")
    hook = ("p", f.params[1])
    q = EQ(names={"hooked"}, call=lambda it, fn, a, k, st: fn == hook or last_name(fn) in ("get",), cond=lambda it, t, st: True)
    it = Interp(p, q)
    tr = it.run(f, c, types={f.params[1]: None})
    ctx.used(it, tr)
    n = 0
    for t in tr:
        hc = [e for e in t.events if e.kind == "call" and e.term == hook]
        ctx.ob("runs-what-was-registered", "Hookable.on_hook", len(hc) <= 1, "runs %d functions" % len(hc), f.loc(), path_lines(t))
        for e in hc:
            n += 1
            ok = len(e.args) == 2 and all(contains(a, ("a", S, "hooked")) and "type" in show(a) for a in e.args) and e.args[0] != e.args[1]
            ctx.ob("runs-what-was-registered", "Hookable.on_hook", ok, "runs %r" % e, f.loc(), path_lines(t))
    ctx.ob("runs-what-was-registered", "Hookable.on_hook", n > 0, "hooked functions are never run", f.loc())


def spawned(ctx):
    p = ctx.p
    c = p.cls("Spawned")
    S = ("o", "self", c.qual)
    # the function handed to cothread.Spawn
    f = p.method(c, "__init__")
    q = EQ(names={"Spawn"}, call=lambda it, fn, a, k, st: last_name(fn) == "Spawn", store=lambda it, b, n, v, st: b == S)
    q.node_interesting = lambda n: True
    it = Interp(p, q)
    target = None
    fields = {}
    for t in it.run(f, c):
        if t.outcome != "return":
            continue
        sp = calls(t, "Spawn")
        ctx.ob("spawned-function-starts", "Spawned", len(sp) == 1, "spawns %d" % len(sp), f.loc(), path_lines(t))
        if sp:
            target = sp[0].args[0]
            i = t.events.index(sp[0])
            for e in t.events[:i]:
                if e.kind == "store":
                    fields[e.term[2]] = e.args[0]
    if target is None or target[0] != "bm":
        return
    byval = {v: k for k, v in fields.items()}
    fn_attr, args_attr, kw_attr = (byval.get(("p", x)) for x in f.params[1:4])
    ctx.ob("spawned-function-starts", "Spawned", None not in (fn_attr, args_attr, kw_attr), "function or arguments not remembered before the thread starts", f.loc())
    g = p.method(c, target[2].split(".")[-1])
    q = EQ(names={"put", "_result"}, call=lambda it, fn, a, k, st: last_name(fn) == "put" or fn == ("a", S, fn_attr), store=lambda it, b, n, v, st: b == S, never={"put"})
    it = Interp(p, q)
    tr = it.run(g, c)
    ctx.used(it, tr)
    res = None
    for t in tr:
        pl = path_lines(t)
        fc = [e for e in t.events if e.kind == "call" and e.term == ("a", S, fn_attr)]
        ok = len(fc) == 1 and fc[0].args == (("star", ("a", S, args_attr)),) and fc[0].kw == (("**", ("a", S, kw_attr)),)
        ctx.ob("spawned-function-called-once", "Spawned", ok, "calls %s" % [repr(e) for e in fc], g.loc(), pl)
        if any(e.kind == "raised" and e.name() == "put" for e in t.events):
            continue
        puts = calls(t, "put")
        failed = any(e.kind == "raised" for e in t.events)
        st = [e for e in stores(t) if (e.args[0][0] == "exc" if failed else e.args[0][0] == "call" and e.args[0][1] == ("a", S, fn_attr))]
        ctx.ob("spawned-always-finishes", "Spawned", t.outcome == "return" and len(puts) == 1, "outcome %s, signals %d" % (t.outcome, len(puts)), g.loc(), pl)
        ctx.ob("spawned-result-recorded", "Spawned", len(st) == 1, "stores %s" % [repr(e) for e in stores(t)], g.loc(), pl)
        if st and puts:
            res = st[0].term
            ctx.ob("spawned-result-recorded", "Spawned", t.events.index(st[0]) < t.events.index(puts[0]), "signals before the result is there", g.loc(), pl)
    if res is None:
        return
    f = p.method(c, "get")
    q = EQ(names={"wait", "_result", res[2]}, call=lambda it, fn, a, k, st: last_name(fn) == "wait", cond=lambda it, t, st: True, never={"wait"})
    for t in Interp(p, q).run(f, c):
        pl = path_lines(t)
        if t.outcome == "raise" and not explicit_raise(t):
            continue
        w = calls(t, "wait")
        bad = [e.extra for e in t.events if e.kind == "cond" and e.term[:3] == ("op", "isinstance", res)]
        ctx.ob("spawned-get-waits", "Spawned.get", len(w) == 1 and w[0].arg(0, "timeout") == ("p", f.params[1]), "waits %s" % [repr(e) for e in w], f.loc(), pl)
        if t.outcome == "raise":
            ctx.ob("spawned-get-gives-outcome", "Spawned.get", bad == [True] and t.value[2] == res, "raises %s" % show(t.value), f.loc(), pl)
        else:
            ctx.ob("spawned-get-gives-outcome", "Spawned.get", bad == [False] and t.value == res, "returns %s (failed: %s)" % (show(t.value), bad), f.loc(), pl)
    f = p.method(c, "wait")
    q = EQ(names={"get", res[2]}, call=lambda it, fn, a, k, st: last_name(fn) == "get", cond=lambda it, t, st: True, never={"get"})
    n = 0
    for t in Interp(p, q).run(f, c):
        pl = path_lines(t)
        pend = [e.extra for e in t.events if e.kind == "cond" and contains(e.term, res)]
        gets = calls(t, "get")
        n += len(gets)
        if t.outcome == "return":
            ctx.ob("spawned-wait-blocks-while-running", "Spawned.wait", bool(pend) and bool(gets) == (pend[-1] is True), "pending %s, waits %d times" % (pend, len(gets)), f.loc(), pl)
        for e in gets:
            ctx.ob("spawned-wait-blocks-while-running", "Spawned.wait", e.arg(0, "timeout") == ("p", f.params[1]), "waits %r" % e, f.loc(), pl)
    ctx.ob("spawned-wait-blocks-while-running", "Spawned.wait", n > 0, "never blocks", f.loc())
