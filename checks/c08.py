"""Process life cycle: typestate of the process state around the start, publish and stop hooks, and book-keeping of
controllers, spawned functions, fields and parts on every path."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import calls, explicit_raise, idx_of, stores, two, is_exc

CORE = "malcolm.core.process."


def go(ctx, cls, meth, names, call, never=(), counts=two, cond=True, store=None, force=(), conds=None, args=None, max_iter=2, spawn=False):
    p = ctx.p
    f = p.method(cls, meth)
    S = ("o", "self", cls.qual)
    q = EQ(names=set(names), call=call, store=store or (lambda it, b, n, v, st: b == S), cond=(lambda it, t, st: True) if cond else None,
           never=set(never), counts=counts, force=set(force), max_iter=max_iter)
    it = Interp(p, q)
    tr = it.run(f, cls, args, conds=conds)
    ctx.used(it, tr)
    return f, S, tr


def const_of(p, name):
    m = p.modules["malcolm.core.process"]
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name and isinstance(n.value, ast.Constant):
            return n.value.value
    return None


def hookname(e):
    """the hook class a call runs: directly, or given to a helper as its argument"""
    for a in list(e.args) + [v for _, v in e.kw]:
        if a[0] == "cls" and a[1].endswith("Hook"):
            return a[1].split(".")[-1]
    return None


def state_is(t, upto, st_attr, val):
    """the state known at that point of the path: last store or condition"""
    known = None
    for e in t.events[:upto]:
        if e.kind == "store" and e.term == st_attr:
            known = e.args[0]
    return known


def run(ctx):
    p = ctx.p
    c = p.cls("Process")
    S = ("o", "self", c.qual)
    ST = ("a", S, "state")
    code = {n: const_of(p, n) for n in ("STOPPED", "STARTING", "STARTED", "STOPPING")}
    ctx.ob("states-are-distinct", "Process", None not in code.values() and len(set(code.values())) == 4 and not code["STOPPED"], "%s" % code, c.loc())
    K = {n: ("c", v) for n, v in code.items()}
    controllers = ("a", S, "_controllers")

    # which helper runs hooks: drive everything down to start_hooks/wait_hooks
    ext = lambda fn: fn[0] == "fn" and last_name(fn) in ("start_hooks", "wait_hooks")
    rec = lambda it, fn, a, k, st: ext(fn) or last_name(fn) in ("wait", "setup", "filter_values", "set_spawn", "__setitem__", "ready", "remove", "pop") \
        or (fn[0] == "cls" and fn[1].endswith("Hook"))
    never = ("start_hooks", "wait_hooks", "setup", "filter_values", "set_spawn", "wait", "ready")

    def hooks_run(t):
        """[(index, hook class, controllers term, kwargs)] for every start_hooks on the path"""
        out = []
        for i, e in enumerate(t.events):
            if e.kind == "call" and ext(e.term) and last_name(e.term) == "start_hooks" and e.args:
                lst = e.args[0]
                hs = []
                for x in walk_term(lst):
                    if isinstance(x, tuple) and x and x[0] == "new" and x[1].endswith("Hook"):
                        hs.append(x)
                out.append((i, hs, lst))
        return out

    def check_hook(t, rule, tag, i, hs, over, name, f):
        pl = path_lines(t, 60)
        ok = bool(hs) and all(h[1].split(".")[-1] == name for h in hs)
        ctx.ob(rule, tag, ok, "runs %s" % [h[1] for h in hs], f.loc(), pl)
        ok = len({repr(idx_of(dict(h[2]).get("child", NONE))) for h in hs}) == 2 and all(contains(dict(h[2]).get("child", NONE), over) for h in hs)
        ctx.ob(rule + "-on-every-block", tag, ok, "hooks %s" % [show(h) for h in hs], f.loc(), pl)
        w = [(j, e) for j, e in enumerate(t.events) if j > i and e.kind == "call" and ext(e.term) and last_name(e.term) == "wait_hooks"]
        ok = bool(w)
        if ok:
            e = w[0][1]
            g = p.func("malcolm.core.hook.wait_hooks")
            ok = e.arg(4, "exception_check") == ("c", False) and contains(e.arg(1, g.params[1]), t.events[i].term) and contains(e.arg(2, g.params[2]), t.events[i].term)
        ctx.ob("one-failing-block-does-not-stop-the-rest", tag + "/" + name, ok, "%s" % [repr(e) for _, e in w], f.loc(), pl)
        return w[0][0] if w else i

    # the function that publishes: checked on its own, its tree walk opaque
    pubs = {f.name: f for f in c.methods.values() if f.name not in ("start", "add_controllers", "stop")
            and any(isinstance(x, ast.Name) and x.id == "ProcessPublishHook" for x in ast.walk(f.node))}
    ctx.ob("publish-hook-run", "Process", bool(pubs), "nothing runs the publish hook", c.loc())
    for f in pubs.values():
        inner = {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
        _, _, tr = go(ctx, c, f.name, {"start_hooks", "wait_hooks"}, rec, set(never) | inner, cond=False, counts=lambda it, b, st: [2] if b[0] == "mcall" or contains(b, controllers) else None)
        for t in tr:
            if t.outcome == "return":
                hr = hooks_run(t)
                ctx.ob("publish-hook-run", "Process." + f.name, len(hr) == 1, "%d hook runs" % len(hr), f.loc(), path_lines(t, 60))
                if len(hr) == 1:
                    check_hook(t, "publish-hook-run", "Process." + f.name, hr[0][0], hr[0][1], controllers, "ProcessPublishHook", f)
    never = set(never) | set(pubs)
    ext0 = rec
    rec = lambda it, fn, a, k, st: ext0(it, fn, a, k, st) or last_name(fn) in pubs
    publishes = lambda t: [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() in pubs]

    NM = {"start_hooks", "wait_hooks", "state", "setup", "_controllers", "_unpublished", "_spawned"}
    # ---- start
    f, S, tr = go(ctx, c, "start", NM, rec, never)
    pub = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        st = [(i, e) for i, e in enumerate(t.events) if e.kind == "store" and e.term == ST]
        ctx.ob("starts-only-when-stopped", "Process.start", bool(st) and any(e.kind == "cond" and (e.extra if e.term[0] == "op" and contains(e.term, ST) and K["STOPPED"] in e.term[2:] else e.term == ST and e.extra is False)
                                                                         for e in t.events[:st[0][0]]), "state not checked", f.loc(), pl)
        ctx.ob("state-sequence", "Process.start", [e.args[0] for _, e in st] == [K["STARTING"], K["STARTED"]], "state goes %s" % [show(e.args[0]) for _, e in st], f.loc(), pl)
        hr = hooks_run(t)
        ctx.ob("start-hook-run-once", "Process.start", len(hr) == 1, "%d hook runs" % len(hr), f.loc(), pl)
        if not hr or len(st) != 2:
            continue
        done = check_hook(t, "start-hook-run-once", "Process.start", hr[0][0], hr[0][1], controllers, "ProcessStartHook", f)
        ctx.ob("state-sequence", "Process.start", st[0][0] < hr[0][0] and done < st[1][0], "hooks run outside the starting state", f.loc(), pl)
        pb = publishes(t)
        if pb:
            pub += 1
            ctx.ob("started-before-published", "Process.start", len(pb) == 1 and done < pb[0] < st[1][0], "published before every block has started", f.loc(), pl)
        publish_iff(ctx, t, f, "Process.start", bool(pb), pl, controllers)
    ctx.ob("publish-hook-run", "Process.start", pub > 0, "never published", f.loc())

    # ---- add_controllers
    f = p.method(c, "add_controllers")
    f, S, tr = go(ctx, c, "add_controllers", NM, rec, never, conds={("op", "is", ("p", f.params[1]), NONE): False})
    new = ("p", f.params[1])
    started = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        reg = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "__setitem__" and e.term[1] == controllers]
        su = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "setup"]
        ids = {repr(idx_of(e.args[1])) for _, e in reg}
        ok = len(reg) == 2 and len(ids) == 2 and all(e.args[0] == ("a", e.args[1], "mri") and contains(e.args[1], new) for _, e in reg)
        ctx.ob("every-block-registered-under-its-mri", "Process.add_controllers", ok, "registers %s" % [repr(e) for _, e in reg], f.loc(), pl)
        for i, e in reg:
            chk = [x for x in t.events[:i] if x.kind == "cond" and x.term == ("op", "in", e.args[0], controllers)]
            ctx.ob("no-mri-registered-twice", "Process.add_controllers", bool(chk) and chk[-1].extra is False, "%s may overwrite a block" % show(e.args[0]), f.loc(), pl)
        ok = {repr(idx_of(e.term[1])) for _, e in su} == ids and all(e.args == (S,) for _, e in su) and len(su) == len(reg)
        ctx.ob("every-block-set-up-once", "Process.add_controllers", ok, "sets up %s" % [repr(e) for _, e in su], f.loc(), pl)
        hr = hooks_run(t)
        up = [e for e in t.events if e.kind == "cond" and contains(e.term, ST)]
        running = None
        for e in up:
            if e.term == ST:
                running = e.extra
            elif K["STOPPED"] in e.term[2:]:
                running = not e.extra
        if hr:
            started += 1
            check_hook(t, "added-block-is-started", "Process.add_controllers", hr[0][0], hr[0][1], new, "ProcessStartHook", f)
            ctx.ob("added-block-is-started", "Process.add_controllers", running is True and all(i < hr[0][0] for i, _ in su + reg), "started before all are set up", f.loc(), pl)
            pb = publishes(t)
            if pb:
                ctx.ob("published-only-when-started", "Process.add_controllers", len(pb) == 1 and any(K["STARTED"] in e.term[2:] and e.extra for e in up if e.term[0] == "op"), "published while starting", f.loc(), pl)
            st = [e.extra for e in up if e.term[0] == "op" and K["STARTED"] in e.term[2:]]
            if st and st[-1]:
                publish_iff(ctx, t, f, "Process.add_controllers", bool(pb), pl, new)
        else:
            ctx.ob("added-block-is-started", "Process.add_controllers", running is False, "block added to a running process is not started", f.loc(), pl)
    ctx.ob("added-block-is-started", "Process.add_controllers", started > 0, "blocks are never started", f.loc())
    f, S, tr = go(ctx, c, "add_controller", {"add_controllers"}, lambda it, fn, a, k, st: last_name(fn) == "add_controllers", {"add_controllers"})
    for t in tr:
        if t.outcome == "return":
            e = calls(t, "add_controllers")
            ctx.ob("every-block-registered-under-its-mri", "Process.add_controller", len(e) == 1 and e[0].arg(0, "controllers") == ("list", (("p", f.params[1]),))
                   and e[0].arg(1, "timeout") == ("p", "timeout"), "%s" % [repr(x) for x in e], f.loc(), path_lines(t))

    # ---- stop
    spawned = ("a", S, "_spawned")
    f, S, tr = go(ctx, c, "stop", NM, rec, never)
    for t in tr:
        pl = path_lines(t, 60)
        if t.outcome == "raise":
            last = [e for e in t.events if e.kind == "store" and e.term == ST]
            ctx.ob("not-stopped-on-failure", "Process.stop", not last or last[-1].args[0] != K["STOPPED"], "reports stopped although stopping failed", f.loc(), pl)
            continue
        st = [(i, e) for i, e in enumerate(t.events) if e.kind == "store" and e.term == ST]
        ctx.ob("stops-only-when-started", "Process.stop", any(e.kind == "cond" and contains(e.term, ST) and K["STARTED"] in e.term[2:] and e.extra for e in t.events[:st[0][0]] if st), "state not checked", f.loc(), pl)
        ctx.ob("state-sequence", "Process.stop", [e.args[0] for _, e in st] == [K["STOPPING"], K["STOPPED"]], "state goes %s" % [show(e.args[0]) for _, e in st], f.loc(), pl)
        hr = hooks_run(t)
        ctx.ob("stop-hook-run-once", "Process.stop", len(hr) == 1, "%d hook runs" % len(hr), f.loc(), pl)
        if len(hr) != 1 or len(st) != 2:
            continue
        done = check_hook(t, "stop-hook-run-once", "Process.stop", hr[0][0], hr[0][1], controllers, "ProcessStopHook", f)
        ctx.ob("state-sequence", "Process.stop", st[0][0] < hr[0][0] and done < st[1][0], "stop hook run outside the stopping state", f.loc(), pl)
        if any(e.kind == "raised" and e.name() == "wait" for e in t.events):
            ctx.ob("stop-waits-for-spawned", "Process.stop", False, "a spawned function that does not finish in time is ignored", f.loc(), pl)
            continue
        w = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "wait" and contains(e.term, spawned)]
        skipped = {repr(idx_of(e.term[1][1])) for e in t.events if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "ready" and e.extra}
        ok = len({repr(idx_of(e.term[1])) for _, e in w} | skipped) == 2 and all(i > done and e.arg(0, "timeout") == ("p", "timeout") for i, e in w)
        ctx.ob("stop-waits-for-spawned", "Process.stop", ok, "waits %s" % [repr(e) for _, e in w], f.loc(), pl)
        clr = {e.term[2]: (i, t.state.snap(e.args[0])) for i, e in enumerate(t.events) if e.kind == "store" and e.term[0] == "a" and e.term[1] == S and e.term != ST}
        for a in ("_controllers", "_unpublished", "_spawned"):
            ctx.ob("stop-forgets-everything", "Process.stop", a in clr and clr[a][0] > done and empty(clr[a][1]), "%s not emptied" % a, f.loc(), pl)

    # ---- spawn
    f, S, tr = go(ctx, c, "spawn", {"Spawned", "_spawned", "append", "state"}, lambda it, fn, a, k, st: last_name(fn) in ("append",) or fn[0] == "cls", never={"ready"}, counts=two)
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        n += 1
        pl = path_lines(t)
        v = t.value
        new = dict(v[2]) if v[0] == "new" and v[1].endswith(".Spawned") else {}
        ok = set(new.values()) == {("p", f.params[1]), ("p", "*args"), ("p", "**kwargs")}
        ctx.ob("spawn-runs-what-it-was-given", "Process.spawn", ok, "returns %s" % show(v), f.loc(), pl)
        app = [e for e in calls(t, "append") if e.term[1] == spawned and e.args == (v,)]
        lst = [t.state.snap(e.args[0]) for e in stores(t) if e.term == spawned]
        ctx.ob("spawned-is-tracked", "Process.spawn", len(app) == 1 or any(contains(x, v) for x in lst), "not remembered for stop()", f.loc(), pl)
        ctx.ob("no-spawn-when-stopped", "Process.spawn", any(e.kind == "cond" and contains(e.term, ST) and (e.extra is False if e.term[0] == "op" else e.extra is True) for e in t.events), "state not checked", f.loc(), pl)
        for e in stores(t):
            if e.term == spawned:
                x = t.state.snap(e.args[0])
                if x[0] not in ("list", "T"):
                    ctx.ob("only-finished-functions-are-forgotten", "Process.spawn", "ready" in repr(x), "keeps %s" % show(x), f.loc(), pl)
                    continue
                ready = {}
                for cnd in t.events:
                    if cnd.kind == "cond" and cnd.term[0] == "call" and last_name(cnd.term[1]) == "ready":
                        ready[cnd.term[1][1]] = cnd.extra
                keep = [r for r, d in ready.items() if d is False]
                ctx.ob("only-finished-functions-are-forgotten", "Process.spawn", all(any(contains(y, r) for y in x[1]) for r in keep) and bool(ready), "keeps %s, still running %s" % (show(x), [show(r) for r in keep]), f.loc(), pl)
    ctx.ob("spawn-runs-what-it-was-given", "Process.spawn", n > 0, "never spawns", f.loc())

    # ---- get_controller
    f, S, tr = go(ctx, c, "get_controller", {"_controllers"}, lambda it, fn, a, k, st: last_name(fn) == "get")
    for t in tr:
        if t.outcome == "return":
            ctx.ob("finds-exactly-the-named-block", "Process.get_controller", t.value[0] in ("i", "call") and contains(t.value, controllers) and contains(t.value, ("p", f.params[1])), "returns %s" % show(t.value), f.loc(), path_lines(t))
        else:
            ctx.ob("unknown-block-is-an-error", "Process.get_controller", is_exc(t.value, "ValueError"), "raises %s" % show(t.value), f.loc(), path_lines(t))
    ctx.ob("unknown-block-is-an-error", "Process.get_controller", any(t.outcome == "raise" for t in tr), "unknown mri accepted", f.loc())
    published(ctx, c, S)
    registries(ctx)


def empty(v):
    return v in (("list", ()), ("dict", ()), ("T", ())) or v[0] in ("call", "new") and not v[2] or v[0] == "list" and not v[1] or v[0] == "dict" and not v[1]


def publish_iff(ctx, t, f, tag, done, pl, over):
    """published exactly when there are more blocks than unpublished ones among those just started"""
    c = [e for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "<") and "len" in show(e.term)]
    if c:
        a, b = show(c[-1].term[2]), show(c[-1].term[3])
        bigger = c[-1].extra
        # len(unpublished) < len(controllers)
        fwd = contains(c[-1].term[3], over) and not contains(c[-1].term[2], ("a", ("o", "self", ctx.p.cls("Process").qual), "_unpublished"))
        ctx.ob("published-iff-anything-to-publish", tag, fwd and bigger == done, "%s < %s is %s, published: %s" % (a, b, bigger, done), f.loc(), pl)


def published(ctx, c, S):
    """the published list holds only blocks that may be published, each once"""
    p = ctx.p
    unpub = ("a", S, "_unpublished")
    n = 0
    for f in c.methods.values():
        if not any(isinstance(x, ast.Name) and x.id == "ProcessPublishHook" for x in ast.walk(f.node)):
            continue
        q = EQ(names={"published", "append", "_unpublished"}, call=lambda it, fn, a, k, st: last_name(fn) in ("append", "add", "extend") or (fn[0] == "cls" and fn[1].endswith("Hook")) or last_name(fn).startswith("_run"),
               cond=lambda it, t, st: True, counts=lambda it, b, st: [1], max_recursion=2, max_iter=1,
               never={"start_hooks", "wait_hooks"})
        it = Interp(p, q)
        tr = it.run(f, c)
        ctx.used(it, tr)
        for t in tr:
            hk = [e for e in t.events if e.kind == "call" and e.term[0] == "cls" and e.term[1].endswith("Hook")]
            if not hk or t.outcome != "return":
                continue
            lst = t.state.snap(hk[0].arg(1, "published"))
            if lst[0] not in ("list", "T"):
                continue
            pl = path_lines(t)
            cs = {}
            for x in t.events:
                if x.kind == "cond" and x.term[:2] == ("op", "in") and x.term[3] == unpub:
                    cs[x.term[2]] = x.extra
            for k in lst[1]:
                n += 1
                ctx.ob("unpublished-blocks-stay-unpublished", "Process", cs.get(k) is False, "%s published without looking whether it may be" % show(k), f.loc(), pl)
            ctx.ob("published-once", "Process", len(set(lst[1])) == len(lst[1]), "%s published twice" % show(lst), f.loc(), pl)
            for k, v in cs.items():
                if v is False:
                    ctx.ob("publishable-blocks-are-published", "Process", k in lst[1], "%s not published" % show(k), f.loc(), pl)
    if n:
        ctx.note("%d publish sites x paths checked" % n)
    # unpublished only grows until stop
    live = set()
    work = ["start", "add_controllers", "add_controller", "spawn"]
    while work:
        m = work.pop()
        if m in c.methods and m not in live:
            live.add(m)
            work += [x.attr for x in ast.walk(c.methods[m].node) if isinstance(x, ast.Attribute)]
    for f in (c.methods[m] for m in sorted(live)):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Attribute) and y.attr == "_unpublished" for y in x.targets):
                v = x.value
                grow = isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr) or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "union"
                ctx.ob("unpublished-is-remembered", "Process." + f.name, grow, "unpublished blocks forgotten", "%s:%d" % (f.module.rel, x.lineno))
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == "_unpublished":
                ctx.ob("unpublished-is-remembered", "Process." + f.name, isinstance(x.op, ast.BitOr), "unpublished blocks forgotten", "%s:%d" % (f.module.rel, x.lineno))


def registries(ctx):
    p = ctx.p
    # field names are unique over all owners
    c = p.cls("FieldRegistry")
    S = ("o", "self", c.qual)
    for meth in ("add_attribute_model", "add_method_model"):
        f = p.method(c, meth)
        q = EQ(names={"append", "fields", "match"}, call=lambda it, fn, a, k, st: last_name(fn) in ("append", "match"), cond=lambda it, t, st: True, counts=lambda it, b, st: [1], never={"from_callable"})
        it = Interp(p, q)
        tr = it.run(f, c)
        ctx.used(it, tr)
        n = 0
        for t in tr:
            if t.outcome != "return":
                continue
            pl = path_lines(t, 60)
            app = [e for e in calls(t, "append") if e.args and e.args[0][0] == "T" and len(e.args[0][1]) == 4]
            if not app:
                ctx.ob("every-field-is-registered", "FieldRegistry." + meth, False, "field not registered", f.loc(), pl)
                continue
            n += 1
            tup = app[0].args[0][1]
            name = tup[0]
            func = ("p", "func") if meth == "add_method_model" else ("p", "writeable_func")
            own = ("p", "owner")
            ctx.ob("every-field-is-registered", "FieldRegistry." + meth, len(app) == 1 and tup[2] == func and tup[3] == ("p", "needs_context") and
                   (meth == "add_method_model" or tup[1] == ("p", "attr")) and t.value == tup[1], "registers %s" % show(app[0].args[0]), f.loc(), pl)
            ctx.ob("every-field-is-registered", "FieldRegistry." + meth, contains(app[0].term, own) or any(contains(e.term, own) for e in t.events), "registered under another owner", f.loc(), pl)
            cs = [e for e in t.events if e.kind == "cond" and contains(e.term, name) and contains(e.term, ("a", S, "fields"))]
            ctx.ob("no-field-overwrites-another", "FieldRegistry." + meth, any(e.term[:2] == ("op", "==") and e.extra is False for e in cs) or any(e.term[1] == "in" and e.extra is False for e in cs if e.term[0] == "op"),
                   "a second field of the same name is accepted", f.loc(), pl)
            ctx.ob("field-names-are-camel-case", "FieldRegistry." + meth, any(e.kind == "cond" and "match" in show(e.term) and e.extra is not (e.term[:2] == ("op", "is")) for e in t.events), "name not checked", f.loc(), pl)
        ctx.ob("every-field-is-registered", "FieldRegistry." + meth, n > 0, "never registers", f.loc())
    # info registry: only the callback registered for exactly that type
    c = p.cls("InfoRegistry")
    f = p.method(c, "report")
    S = ("o", "self", c.qual)
    rep = ("a", S, "_reportable_infos")
    q = EQ(names={"_reportable_infos"}, call=lambda it, fn, a, k, st: fn[0] in ("i", "call", "p"), cond=lambda it, t, st: True)
    it = Interp(p, q)
    n = 0
    info = ("p", f.params[2])
    keys = ["type(%s)" % show(info), show(("a", info, "__class__"))]
    typed = ["%s[%s]" % (show(rep), k) for k in keys] + ["%s.get(%s)" % (show(rep), k) for k in keys] + ["%s.get(%s, None)" % (show(rep), k) for k in keys]
    for t in it.run(f, c):
        uc = [e for e in t.events if e.kind == "call"]
        if t.outcome == "return":
            n += 1
            ctx.ob("info-goes-to-its-handler", "InfoRegistry.report", len(uc) == 1 and show(uc[0].term) in typed and uc[0].args == (("p", f.params[1]), ("p", f.params[2])),
                   "calls %s" % [repr(e) for e in uc], f.loc(), path_lines(t))
    ctx.ob("info-goes-to-its-handler", "InfoRegistry.report", n > 0, "never reported", f.loc())
    # parts: unique names, set up and kept
    c = p.cls("Controller")
    S = ("o", "self", c.qual)
    f = p.method(c, "add_part")
    q = EQ(names={"setup", "parts"}, call=lambda it, fn, a, k, st: last_name(fn) in ("setup", "__setitem__"), cond=lambda it, t, st: True, never={"setup"})
    part = ("p", f.params[1])
    for t in Interp(p, q).run(f, c):
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        su, se = calls(t, "setup"), [e for e in calls(t, "__setitem__") if e.term[1] == ("a", S, "parts")]
        ok = len(su) == 1 and su[0].term[1] == part and len(se) == 1 and se[0].args == (("a", part, "name"), part)
        ctx.ob("every-part-is-set-up-and-kept", "Controller.add_part", ok, "setup %s, kept %s" % (len(su), [repr(e) for e in se]), f.loc(), pl)
        ctx.ob("no-part-overwrites-another", "Controller.add_part", any(e.kind == "cond" and e.term == ("op", "in", ("a", part, "name"), ("a", S, "parts")) and e.extra is False for e in t.events), "a second part of that name is accepted", f.loc(), pl)
        if su:
            r = su[0].args[0]
            d = dict(r[2]) if r[0] == "new" else {}
            ctx.ob("part-registers-in-its-controller", "Controller.add_part", {("a", S, "field_registry"), ("a", S, "info_registry"), part} <= set(d.values()), "set up with %s" % show(r), f.loc(), pl)
    # every registered field becomes part of the block, with its setter if and only if it has one
    f = p.method(c, "add_initial_part_fields")
    q = EQ(names={"add_block_field", "fields"}, call=lambda it, fn, a, k, st: last_name(fn) == "add_block_field", never={"add_block_field"}, counts=two, cond=lambda it, t, st: True)
    for t in Interp(p, q).run(f, c):
        if t.outcome != "return":
            continue
        ab = calls(t, "add_block_field")
        ok = len(ab) == 4 and len({repr(e.args[0]) for e in ab}) >= 2 and all(len(e.args) + len(e.kw) == 4 for e in ab)
        if ok:
            for e in ab:
                ok = ok and all(a[0] == "i" and a[2] == ("c", i) for i, a in enumerate(e.args)) and len({repr(a[1]) for a in e.args}) == 1
        ctx.ob("every-field-joins-the-block", "Controller.add_initial_part_fields", ok, "adds %s" % [repr(e) for e in ab], f.loc(), path_lines(t))
    f = p.method(c, "add_block_field")
    name, child, wf, nc = (("p", x) for x in f.params[1:5])
    q = EQ(names={"set_endpoint_data", "set_writeable", "_write_functions"}, call=lambda it, fn, a, k, st: last_name(fn) in ("set_endpoint_data", "set_writeable", "__setitem__"), cond=lambda it, t, st: True,
           never={"set_endpoint_data", "set_writeable", "set_label"})
    it = Interp(p, q)
    kinds = set()
    for t in it.run(f, c):
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        has = [e.extra if e.term == wf else not e.extra for e in t.events if e.kind == "cond" and (e.term == wf or e.term == ("op", "is", wf, NONE))]
        need = [e.extra for e in t.events if e.kind == "cond" and e.term == nc]
        sets = [e for e in calls(t, "__setitem__") if e.term[1][0] == "a" and e.term[1][1] == S]
        sw = calls(t, "set_writeable")
        ep = calls(t, "set_endpoint_data")
        ctx.ob("every-field-joins-the-block", "Controller.add_block_field", len(ep) == 1 and ep[0].arg(0) == name and ep[0].arg(1) == child, "%s" % [repr(e) for e in ep], f.loc(), pl)
        if not has:
            ctx.ob("setter-kept-iff-given", "Controller.add_block_field", False, "setter not examined", f.loc(), pl)
            continue
        if has[0]:
            ok = len(sets) == 1 and sets[0].args[0] == name and len(sw) == 1 and sw[0].args == (("c", True),) and sw[0].term[1] == ("a", child, "meta")
            ctx.ob("setter-kept-iff-given", "Controller.add_block_field", ok, "keeps %s, writeable %s" % ([repr(e) for e in sets], [repr(e) for e in sw]), f.loc(), pl)
            if ok and need:
                kinds.add(need[0])
                v = sets[0].args[1]
                if need[0]:
                    for k, r, s in it.apply(v, [("star", ("p", "A"))], [("**", ("p", "K"))], f.node, t.state):
                        if k != "raise":
                            ok = r[0] == "call" and r[1] == wf and len(r[2]) == 2 and r[2][0][0] == "new" and r[2][0][1].endswith(".Context") and r[2][1] == ("star", ("p", "A")) and r[3] == (("**", ("p", "K")),)
                            ctx.ob("setter-gets-a-fresh-context-iff-asked", "Controller.add_block_field", ok, "wrapper gives %s" % show(r), f.loc(), pl)
                else:
                    ctx.ob("setter-gets-a-fresh-context-iff-asked", "Controller.add_block_field", v == wf, "keeps %s" % show(v), f.loc(), pl)
        else:
            ctx.ob("setter-kept-iff-given", "Controller.add_block_field", not sets and not sw, "writeable without a setter", f.loc(), pl)
