"""Sequence and step accounting of a scan: along every path of validate, configure, run, pause and the progress handler, the
order of the hooks, the terms handed to the parts and the terms stored in the step counters are compared symbolically."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.project import Class
from sa.q import path_lines
from checks.util import idx_of, two
from checks.scan import drive, trans, sval, hooks, hname, self_of, moves, could_be, holds

SEEN = ("run_hooks", "set_value", "set_limitHigh", "prepare", "do_run", "do_pause", "do_configure", "validate", "filter_values", "__setitem__", "transition", "resolve_generator_tweaks")
COUNTERS = ("completed_steps", "configured_steps", "total_steps")


def sets(S):
    """set_value of a counter changes what the counter reads"""
    mv = moves(S)
    keys = {("a", S, c): (("a", S, c), "value") for c in COUNTERS}

    def effect(it, fn, args, kw, st):
        n = last_name(fn)
        if n == "set_value" and fn[0] in ("a", "bm") and fn[1] in keys:
            k = keys[fn[1]]
            v = args[0] if args else dict(kw).get("value")
            return it._forget(st.set_store(k, v), ("a",) + k)
        if n in ("do_run", "do_pause", "do_configure", "try_aborting_function"):
            for k in keys.values():
                st = it._forget(st.set_store(k, None), ("a",) + k)
        return mv(it, fn, args, kw, st)
    return effect


def lin(x):
    """linear form {atom: coefficient} of a term, None if it is not understood"""
    if x[0] == "c" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
        return {(): x[1]} if x[1] else {}
    if x[0] == "op" and x[1] in ("+", "-") and len(x) >= 3:
        r = {}
        for j, a in enumerate(x[2:]):
            la = lin(a)
            if la is None:
                return None
            sg = -1 if x[1] == "-" and (j or len(x) == 3) else 1
            for k, v in la.items():
                r[k] = r.get(k, 0) + sg * v
        return {k: v for k, v in r.items() if v}
    if x[0] == "op" and x[1] in ("*", "//", "/", "**"):
        return {x: 1}
    return {x: 1}


def same(a, b):
    return a is not None and b is not None and lin(a) == lin(b)


def plus(a, b):
    return ("op", "+", a, b)


def value(S, c):
    return ("a", ("a", S, c), "value")


def counters(t, S):
    """[(index, counter, value)] of counter updates on the path"""
    out = []
    for i, e in enumerate(t.events):
        if e.kind == "call" and e.name() == "set_value" and e.term[0] in ("a", "bm") and e.term[1][0] == "a" and e.term[1][1] == S and e.term[1][2] in COUNTERS:
            out.append((i, e.term[1][2], e.args[0] if e.args else dict(e.kw).get("value")))
    return out


def hk(h):
    """(class name, arguments) of a hook term"""
    if h[0] == "new":
        return hname(h), dict(h[2])
    if h[0] == "call":
        d = dict(h[3]) if len(h) > 3 and isinstance(h[3], tuple) else {}
        for n, v in zip(("part", "context"), h[2]):
            d[n] = v
        return "<%s>" % last_name(h[1]), d
    return show(h), {}


def seq(t):
    """[(index, hook class, [arguments of each])] of the run_hooks calls"""
    out = []
    for i, hs in hooks(t):
        ks = [hk(h) for h in hs]
        out.append((i, ks[0][0] if ks and len({k for k, _ in ks}) == 1 else str([k for k, _ in ks]), [a for _, a in ks]))
    return out


def info_of(t, term, hook):
    """is the term what running that hook gave"""
    if term is None:
        return False
    x = t.state.snap(term)
    if not (x[0] == "call" and last_name(x[1]) == "run_hooks" and x[2]):
        return False
    a = t.state.snap(x[2][0])
    els = a[1] if a[0] in ("list", "T", "L") and isinstance(a[1], tuple) else (a,)
    return bool(els) and all(e[0] in ("new", "call") and hk(e)[0] == hook for e in els)


def every_part(args, where):
    """each of the two parts of the collection once, with its own context"""
    if len(args) != 2:
        return False
    ix = set()
    for a in args:
        p, c = a.get("part") or a.get("child"), a.get("context")
        if p is None or c is None or not where(p) or not where(c) or idx_of(p) != idx_of(c):
            return False
        ix.add(repr(idx_of(p)))
    return len(ix) == 2


def steps_args(a):
    return a.get("completed_steps"), a.get("steps_to_do")


def params_of(t, a, params):
    """does the part get every configure parameter from these params"""
    for n in a.values():
        for y in walk_term(n):
            if isinstance(y, tuple) and y and y[0] == "D" and len(y) == 2:
                its = t.state.heap.get(y[1]) or ()
                if len(its) == 2 and all(contains(k, params) and contains(v, params) and contains(v, k) for k, v in its):
                    return True
    return False


def run(ctx):
    p = ctx.p
    top = p.cls("RunnableController")
    done = set()
    for c in [top] + sorted(p.subclasses(top, strict=True), key=lambda k: k.qual):
        for m, g in (("do_configure", configure), ("configure", configured), ("do_run", do_run), ("run", run_state), ("do_pause", do_pause), ("pause", pause), ("update_completed_steps", progress),
                     ("do_reset", reset), ("validate", validate), ("get_breakpoint_index", bp_index)):
            h = p.lookup(c, m)
            if h is None or not isinstance(h.cls, Class) or (m, h.qual) in done:
                continue
            done.add((m, h.qual))
            g(ctx, c, m)
    for r in ("stages-in-order", "parts-get-the-steps-shown", "status-reaches-the-parts", "counters-follow-the-scan", "end-state-matches-the-steps-left", "progress-is-the-slowest-part",
              "valid-only-when-nothing-is-tweaked", "pause-goes-where-asked"):
        ctx.floor(r, 1)


def go(ctx, c, meth, **kw):
    S = self_of(c)
    d = dict(noraise=lambda it, fn, st: True, call=lambda it, fn, a, k, st: last_name(fn) in SEEN, names={"do_run", "do_pause", "do_configure"}, counts=two, effect=sets(S),
             force={"_part_params"}, never={"do_run", "do_pause", "do_configure", "get_breakpoint_index"} - {meth}, follow={meth}, conds={("a", S, "configure_params"): True})
    d.update(kw)
    return drive(ctx, c, meth, **d)


def configure(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth)
    tag = "%s.%s" % (c.name, meth)
    par = ("p", "params")
    pars = [("p", x) for x in f.params[1:]]
    par = pars[-1]
    state = pars[0]
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        n += 1
        pl = path_lines(t, 60)
        s = seq(t)
        names = [x[1] for x in s]
        fin = [bool(e.extra) for e in t.events if e.kind == "cond" and holds(e.term, state, "Finished") is not None]
        want = (["ResetHook"] if could_be(t, state, "Finished") and not could_be(t, state, "Ready") else []) + ["PreConfigureHook", "ReportStatusHook", "ConfigureHook", "PostConfigureHook"]
        ctx.ob("stages-in-order", tag, names == want, "runs %s" % names, f.loc(), pl)
        if names != want:
            continue
        by = {x[1]: x for x in s}
        new = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "part_contexts")]
        where = lambda x: (new and contains(x, new[-1])) or contains(x, ("a", S, "part_contexts"))
        for nm, (i, _, args) in by.items():
            if nm == "ResetHook":
                ctx.ob("stage-reaches-every-part", "%s %s" % (tag, nm), every_part(args, lambda x: "create_part_contexts" in show(x)), "not every part", f.loc(), pl)
            else:
                # the block itself is one of those that hooks are offered to
                a2 = [a for a in args if a.get("part") != S]
                ctx.ob("stage-reaches-every-part", "%s %s" % (tag, nm), every_part(a2, where), "runs on %s" % [show(a.get("part") or NONE) for a in args], f.loc(), pl)
        cfg = by["ConfigureHook"]
        cs = counters(t, S)
        ci = cfg[0]
        gen_size = ("a", ("a", par, "generator"), "size")
        before = {k: v for i, k, v in cs if i < ci}
        after = {k: v for i, k, v in cs}
        ctx.ob("counters-follow-the-scan", tag, before.get("completed_steps") == ("c", 0) and after.get("completed_steps") == ("c", 0), "completed %s" % show(before.get("completed_steps") or NONE), f.loc(), pl)
        ctx.ob("counters-follow-the-scan", tag, after.get("total_steps") == gen_size, "total %s" % show(after.get("total_steps") or NONE), f.loc(), pl)
        prep = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "prepare" and contains(e.term, ("a", par, "generator"))]
        tot = [i for i, k, v in cs if k == "total_steps"]
        ctx.ob("generator-prepared-before-use", tag, bool(prep) and all(prep[0] < i for i in tot) and prep[0] < ci, "prepared too late", f.loc(), pl)
        for a in cfg[2]:
            done, todo = steps_args(a)
            ctx.ob("parts-get-the-steps-shown", tag, done == ("c", 0) and todo is not None and same(after.get("configured_steps"), plus(done, todo)), "parts get %s + %s, shown %s" % (
                show(done or NONE), show(todo or NONE), show(after.get("configured_steps") or NONE)), f.loc(), pl)
            ctx.ob("steps-are-the-first-run", tag, todo is not None and "steps_per_run" in show(todo) and todo[0] == "i" and todo[2] == ("c", 0), "steps %s" % show(todo or NONE), f.loc(), pl)
            ctx.ob("status-reaches-the-parts", "%s ConfigureHook" % tag, info_of(t, a.get("part_info"), "ReportStatusHook"), "status is %s" % show(a.get("part_info") or NONE)[:80], f.loc(), pl)
            ctx.ob("parts-get-the-validated-parameters", tag, params_of(t, a, par), "parameters do not come from %s" % show(par), f.loc(), pl)
        for a in by["PostConfigureHook"][2]:
            ctx.ob("status-reaches-the-parts", "%s PostConfigureHook" % tag, info_of(t, a.get("part_info"), "ConfigureHook"), "status is %s" % show(a.get("part_info") or NONE)[:80], f.loc(), pl)
        keep = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "configure_params")]
        ctx.ob("parameters-are-kept-for-seeking", tag, keep[-1:] == [par], "keeps %s" % [show(x) for x in keep], f.loc(), pl)
        bi = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "breakpoint_index")]
        ctx.ob("starts-at-the-first-run", tag, bi[-1:] == [("c", 0)], "starts at run %s" % [show(x) for x in bi], f.loc(), pl)
        pu = [t.state.snap(e.args[0]) for e in t.events if e.kind == "store" and e.term == ("a", S, "progress_updates")]
        ctx.ob("old-progress-is-forgotten", tag, len(pu) >= 1 and pu[-1][0] in ("dict", "new", "call", "D") and (pu[-1][0] != "dict" or not pu[-1][1]), "progress %s" % pu, f.loc(), pl)
        lim = [e.args[0] for e in t.events if e.kind == "call" and e.name() == "set_limitHigh" and contains(e.term, ("a", S, "completed_steps"))]
        ctx.ob("limit-is-the-total", tag, lim[-1:] == [gen_size], "limit %s" % [show(x) for x in lim], f.loc(), pl)
    ctx.ob("stages-in-order", tag, n > 0, "never succeeds", f.loc())


def configured(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth)
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        v = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "validate"]
        d = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "do_configure"]
        ok = len(d) == 1 and len(v) == 1 and v[0] < d[0][0]
        ctx.ob("configures-with-validated-parameters", tag, ok, "validates %d times, configures %d times" % (len(v), len(d)), f.loc(), pl)
        if ok:
            a = list(d[0][1].args) + [x for _, x in d[0][1].kw]
            par = [x for x in a if x[0] == "call" and last_name(x[1]) == "validate"]
            ctx.ob("configures-with-validated-parameters", tag, len(par) == 1 and t.value == par[0], "configures with %s, returns %s" % ([show(x)[:60] for x in a], show(t.value)[:60]), f.loc(), pl)
            stt = [x for x in a if x not in par]
            ctx.ob("knows-the-state-it-came-from", tag, stt == [("a", ("a", S, "state"), "value")], "state %s" % [show(x) for x in stt], f.loc(), pl)
            ev = t.events[v[0]]
            given = [x for x in list(ev.args) + [y for _, y in ev.kw]]
            ctx.ob("validates-what-it-was-given", tag, all(("p", n) in given for n in ("generator", "axesToMove", "breakpoints") if n in f.params), "validates %s" % [show(x) for x in given], f.loc(), pl)


def do_run(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth)
    tag = "%s.%s" % (c.name, meth)
    hookp = ["<%s>" % x for x in f.params[1:]]
    more = final = 0
    conf0, tot = value(S, "configured_steps"), value(S, "total_steps")
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        s = seq(t)
        names = ["RunHook" if x[1] in hookp else x[1] for x in s]
        left = [bool(e.extra) for e in t.events if e.kind == "cond" and is_lt(e.term, conf0, tot)]
        ctx.ob("stages-in-order", tag, bool(left), "does not look at what is left to do", f.loc(), pl)
        if not left:
            continue
        want = ["PreRunHook", "RunHook"] + (["ReportStatusHook", "PostRunArmedHook"] if left[-1] else ["PostRunReadyHook"])
        ctx.ob("stages-in-order", "%s with steps %s" % (tag, "left" if left[-1] else "done"), names == want, "runs %s" % names, f.loc(), pl)
        if names != want:
            continue
        for i, nm, args in s:
            ctx.ob("stage-reaches-every-part", "%s %s" % (tag, nm), every_part(args, lambda x: contains(x, ("a", S, "part_contexts"))), "runs on %s" % [show(a.get("part") or NONE) for a in args], f.loc(), pl)
        post = [i for i, st, bad in trans(t) if sval(st) == "PostRun"]
        ctx.ob("post-run-after-run", tag, len(post) == 1 and s[1][0] < post[0] < s[2][0], "PostRun is not between run and post run", f.loc(), pl)
        cs = counters(t, S)
        after = {k: v for i, k, v in cs}
        ctx.ob("counters-follow-the-scan", tag, same(after.get("completed_steps"), conf0), "completed %s" % show(after.get("completed_steps") or NONE), f.loc(), pl)
        if left[-1]:
            more += 1
            ctx.ob("completed-shown-before-rearming", tag, [1 for i, k, v in cs if k == "completed_steps" and i < s[3][0]] != [], "parts move on before the steps are shown as completed", f.loc(), pl)
            bpt = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "use_breakpoints")]
            bi = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "breakpoint_index")]
            for a in s[3][2]:
                done, todo = steps_args(a)
                ctx.ob("parts-get-the-steps-shown", tag, done is not None and todo is not None and same(done, conf0) and same(after.get("configured_steps"), plus(done, todo)), "parts get %s + %s, shown %s" % (
                    show(done or NONE), show(todo or NONE), show(after.get("configured_steps") or NONE)), f.loc(), pl)
                ctx.ob("status-reaches-the-parts", "%s PostRunArmedHook" % tag, info_of(t, a.get("part_info"), "ReportStatusHook"), "status is %s" % show(a.get("part_info") or NONE)[:80], f.loc(), pl)
                ctx.ob("parts-get-the-validated-parameters", tag, params_of(t, a, ("a", S, "configure_params")), "parameters do not come from the configured ones", f.loc(), pl)
                idx = todo[2] if todo is not None and todo[0] == "i" and todo[1] == ("a", S, "steps_per_run") else None
                if bpt and bpt[-1]:
                    nx = plus(("a", S, "breakpoint_index"), ("c", 1))
                    ctx.ob("next-run-uses-the-next-steps", tag, len(bi) == 1 and same(bi[0], nx) and idx is not None and same(idx, nx), "run %s does %s" % ([show(x) for x in bi], show(todo or NONE)), f.loc(), pl)
                elif bpt:
                    ctx.ob("next-run-uses-the-next-steps", tag, not bi and idx == ("a", S, "breakpoint_index"), "run %s does %s" % ([show(x) for x in bi], show(todo or NONE)), f.loc(), pl)
                else:
                    ctx.ob("next-run-uses-the-next-steps", tag, False, "does not look for breakpoints", f.loc(), pl)
        else:
            final += 1
            ctx.ob("counters-follow-the-scan", tag, "configured_steps" not in after or same(after["configured_steps"], conf0), "configured %s" % show(after.get("configured_steps") or NONE), f.loc(), pl)
    ctx.ob("stages-in-order", tag, more and final, "%d ways to go on, %d to finish" % (more, final), f.loc())


def is_lt(x, a, b):
    return x == ("op", "<", a, b)


def run_state(ctx, c, meth):
    """the state a run ends in is decided by what was configured when that run was started"""
    f, S, tr, it = go(ctx, c, meth, noraise=lambda it, fn, st: last_name(fn) not in ("do_run",))
    tag = "%s.%s" % (c.name, meth)
    conf, tot = value(S, "configured_steps"), value(S, "total_steps")
    seen = set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        d = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "do_run"]
        for i in d:
            a = t.events[i].args + tuple(v for _, v in t.events[i].kw)
            ctx.ob("run-runs-the-run-hook", tag, all(x[0] == "cls" and x[1].split(".")[-1] == "RunHook" for x in a), "runs %s" % [show(x) for x in a], f.loc(), pl)
        ts = trans(t)
        end = sval(ts[-1][1]) if ts else None
        lo = d[-2] if len(d) > 1 else -1
        left = [bool(e.extra) for i, e in enumerate(t.events) if e.kind == "cond" and is_lt(e.term, conf, tot) and lo < i < d[-1]] if d else []
        ctx.ob("end-state-matches-the-steps-left", tag, bool(left) and end == ("Armed" if left[-1] else "Finished"), "ends %s, %s" % (end, "steps left: %s" % left[-1:] if left else "without looking at what is left before it runs"), f.loc(), pl)
        seen.add(end)
    ctx.ob("end-state-matches-the-steps-left", tag, {"Armed", "Finished"} <= seen, "ends only in %s" % seen, f.loc())


def do_pause(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth)
    tag = "%s.%s" % (c.name, meth)
    at = ("p", f.params[1])
    kinds = set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        s = seq(t)
        names = [x[1] for x in s]
        want = ["PauseHook", "ReportStatusHook", "SeekHook"]
        ctx.ob("stages-in-order", tag, names == want, "runs %s" % names, f.loc(), pl)
        if names != want:
            continue
        ctx.ob("stage-reaches-every-part", "%s PauseHook" % tag, every_part(s[0][2], lambda x: "create_part_contexts" in show(x)), "not every part", f.loc(), pl)
        for i, nm, args in s[1:]:
            ctx.ob("stage-reaches-every-part", "%s %s" % (tag, nm), every_part(args, lambda x: contains(x, ("a", S, "part_contexts"))), "runs on %s" % [show(a.get("part") or NONE) for a in args], f.loc(), pl)
        cs = counters(t, S)
        after = {k: v for i, k, v in cs}
        ctx.ob("counters-follow-the-scan", tag, same(after.get("completed_steps"), at), "completed %s" % show(after.get("completed_steps") or NONE), f.loc(), pl)
        ctx.ob("completed-shown-before-rearming", tag, [1 for i, k, v in cs if k == "completed_steps" and i < s[2][0]] != [], "parts seek before the steps are shown as completed", f.loc(), pl)
        bpt = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "use_breakpoints")]
        kinds.update(bpt)
        bi = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "breakpoint_index")]
        for a in s[2][2]:
            done, todo = steps_args(a)
            ctx.ob("parts-get-the-steps-shown", tag, done is not None and todo is not None and same(done, at) and same(after.get("configured_steps"), plus(done, todo)), "parts get %s + %s, shown %s" % (
                show(done or NONE), show(todo or NONE), show(after.get("configured_steps") or NONE)), f.loc(), pl)
            ctx.ob("status-reaches-the-parts", "%s SeekHook" % tag, info_of(t, a.get("part_info"), "ReportStatusHook"), "status is %s" % show(a.get("part_info") or NONE)[:80], f.loc(), pl)
            ctx.ob("parts-get-the-validated-parameters", tag, params_of(t, a, ("a", S, "configure_params")), "parameters do not come from the configured ones", f.loc(), pl)
            if todo is None or not bpt:
                continue
            # up to the end of the run it lies in
            if bpt[-1]:
                ok = len(bi) == 1 and bi[0][0] == "call" and last_name(bi[0][1]) == "get_breakpoint_index" and bi[0][2] == (at,)
                end = ("i", ("a", S, "breakpoint_steps"), bi[0]) if bi else NONE
                ok = ok and (same(todo, ("op", "-", end, ("op", "%", at, end))) or same(todo, ("op", "-", end, at)))
            else:
                ln = ("i", ("a", S, "steps_per_run"), ("a", S, "breakpoint_index"))
                ok = not bi and (same(todo, ("op", "-", ln, ("op", "%", at, ln))) or
                                 (not bi and same(todo, ("op", "-", ("i", ("a", S, "steps_per_run"), ("c", 0)), ("op", "%", at, ("i", ("a", S, "steps_per_run"), ("c", 0)))))))
            ctx.ob("seeks-to-the-end-of-its-run", "%s %s" % (tag, "with breakpoints" if bpt[-1] else "without breakpoints"), ok, "does %s, run %s" % (show(todo), [show(x) for x in bi]), f.loc(), pl)
    ctx.ob("seeks-to-the-end-of-its-run", tag, kinds == {True, False}, "does not look for breakpoints", f.loc())


def pause(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth)
    tag = "%s.%s" % (c.name, meth)
    at = ("p", f.params[1])
    st = ("a", ("a", S, "state"), "value")
    tot, comp, conf = value(S, "total_steps"), value(S, "completed_steps"), value(S, "configured_steps")
    last = ("op", "-", tot, ("c", 1))
    seen = set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        d = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "do_pause"]
        neg = [bool(e.extra) for e in t.events if e.kind == "cond" and is_lt(e.term, at, ("c", 0))]
        if not d:
            ctx.ob("pause-goes-where-asked", tag, neg[-1:] == [True] and not any(could_be(t, st, s) for s in ("Running", "Armed", "Paused", "PostRun")), "does nothing", f.loc(), pl)
            continue
        i, e = d[0]
        v = (list(e.args) + [x for _, x in e.kw])[0]
        busy = [s for s in ("Running", "PostRun", "Paused") if could_be(t, st, s, i)]
        free = [s for s in ("Armed", "Finished") if could_be(t, st, s, i)]
        if not busy and not free:
            continue
        ends = [sval(x[1]) for x in trans(t)][-1:]
        ctx.ob("pause-ends-where-it-belongs", tag, (not busy or ends == ["Paused"]) and (not free or ends == ["Armed"]), "from %s to %s" % (busy + free, ends), f.loc(), pl)
        over = [bool(x.extra) for x in t.events[:i] if x.kind == "cond" and x.term in (("op", "<", at, tot), ("op", "<", last, at))]
        over = [(not x if y.term == ("op", "<", at, tot) else x) for x, y in zip(over, [y for y in t.events[:i] if y.kind == "cond" and y.term in (("op", "<", at, tot), ("op", "<", last, at))])]
        lo = is_clip(v, at, last)
        if not neg:
            base = None
        elif neg[-1]:
            base = comp
        elif lo:
            base = lo
        elif not over:
            base = None
        else:
            base = last if over[-1] else at
        eq = [bool(x.extra) for x in t.events[:i] if x.kind == "cond" and x.term[:2] == ("op", "==") and conf in x.term[2:] and any(same(y, base) for y in x.term[2:] if base is not None)]
        if base is not None and busy and eq and eq[-1]:
            base = ("op", "-", base, ("c", 1))
        ctx.ob("pause-goes-where-asked", "%s in %s" % (tag, "a run" if busy else "no run"), base is not None and same(v, base), "goes to %s, expected %s" % (show(v), show(base) if base else "?"), f.loc(), pl)
        if busy and not free:
            ctx.ob("pause-stays-in-its-run", tag, bool(eq), "may pause at the very end of the run, with nothing left of it", f.loc(), pl)
        seen.add((bool(busy), bool(neg and neg[-1])))
    ctx.ob("pause-goes-where-asked", tag, len(seen) == 4, "only %s" % seen, f.loc())


def is_clip(v, at, last):
    for x in walk_term(v):
        if isinstance(x, tuple) and x and x[0] == "call" and last_name(x[1]) == "min" and at in x[2] and any(same(y, last) for y in x[2]):
            return x
    return None


def progress(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth, conds={("op", "is", ("a", S, "progress_updates"), NONE): False} if False else {})
    tag = "%s.%s" % (c.name, meth)
    part, info = ("p", f.params[1]), ("p", f.params[2])
    pu = ("a", S, "progress_updates")
    up = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        d = 0
        kept = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "__setitem__" and contains(e.term, pu)]
        ctx.ob("progress-is-kept-per-part", tag, len(kept) == 1 and kept[0][1].args == (part, ("a", info, "steps")), "keeps %s" % [repr(e) for _, e in kept], f.loc(), pl)
        cs = counters(t, S)
        for i, k, v in cs:
            low = [y for y in walk_term(v) if isinstance(y, tuple) and y and y[0] == "call" and last_name(y[1]) == "min" and contains(y, pu)]
            up += 1
            ctx.ob("progress-is-the-slowest-part", tag, k == "completed_steps" and bool(low) and kept and kept[0][0] < i, "shows %s" % show(v), f.loc(), pl)
            g = [e for e in t.events[:i] if e.kind == "cond" and e.extra and e.term[:2] == ("op", "<") and same(e.term[2], value(S, "completed_steps")) and same(e.term[3], v)]
            ctx.ob("progress-never-goes-back", tag, bool(g) or v[0] == "call" and last_name(v[1]) == "max" and value(S, "completed_steps") in v[2], "not compared with what is shown", f.loc(), pl)
            dd = sum(1 if e.kind == "enter" else -1 if e.kind == "exit" else 0 for e in t.events[:i])
            dk = sum(1 if e.kind == "enter" else -1 if e.kind == "exit" else 0 for e in t.events[:kept[0][0]]) if kept else 0
            ctx.ob("progress-updated-in-one-step", tag, dd > 0 and dk > 0, "without the lock", f.loc(), pl)
        if not cs:
            skip = [e for e in t.events if e.kind == "cond" and not e.extra and e.term[:2] == ("op", "<") and same(e.term[2], value(S, "completed_steps"))]
            ctx.ob("progress-is-the-slowest-part", tag, bool(skip), "progress is not shown", f.loc(), pl)
    ctx.ob("progress-is-the-slowest-part", tag, up > 0, "never shown", f.loc())


def reset(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth, never_if=lambda g: g.name != meth and not g.qual.startswith("malcolm.modules.scanning."))
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        after = {k: v for i, k, v in counters(t, S)}
        ctx.ob("reset-forgets-the-scan", tag, all(after.get(k) == ("c", 0) for k in COUNTERS), "leaves %s" % {k: show(v) for k, v in after.items()}, f.loc(), path_lines(t))


def validate(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth, max_iter=2, never={"resolve_generator_tweaks", "filter_values"})
    tag = "%s.%s" % (c.name, meth)
    tweaked = plain = gen = 0
    for t in tr:
        pl = path_lines(t, 80)
        s = seq(t)
        val = [x for x in s if x[1] == "ValidateHook"]
        if t.outcome != "return":
            continue
        plain += 1
        ctx.ob("every-part-validates", tag, bool(val) and all(every_part([a for a in x[2]], lambda y: "create_part_contexts" in show(y) or "part_contexts" in show(y)) for x in val), "runs %s" % [x[1] for x in s], f.loc(), pl)
        if not val:
            continue
        # the last round found nothing to change
        conds = [(i, e) for i, e in enumerate(t.events) if e.kind == "cond" and i > val[-1][0] and "filter_values" in show(e.term)]
        ok = bool(conds) and nothing(conds[0][1]) and info_in(t, conds[0][1].term, "ValidateHook")
        ctx.ob("valid-only-when-nothing-is-tweaked", tag, ok, "returns although a part asked for a change", f.loc(), pl)
        new = t.value
        for x in val:
            for a in x[2]:
                ctx.ob("parts-validate-what-is-returned", tag, params_of(t, a, new), "parts see other parameters than are returned", f.loc(), pl)
                ctx.ob("status-reaches-the-parts", "%s ValidateHook" % tag, info_of(t, a.get("part_info"), "ReportStatusHook"), "status is %s" % show(a.get("part_info") or NONE)[:80], f.loc(), pl)
        if len(val) > 1:
            lo, hi = val[0][0], val[1][0]
            app = [e for e in t.events[lo:hi] if e.kind == "store" and e.term[0] == "a" and e.term[1] == new or e.kind == "call" and e.name() == "setattr"]
            vl = [e for e in t.events[lo:hi] if e.kind == "call" and e.name() == "validate"]
            isgen = [bool(e.extra) for e in t.events[lo:hi] if e.kind == "cond" and holds_gen(e.term)]
            tweaked += 1
            if not any(isgen):
                who = {repr(idx_of(e.args[0])) for e in vl if e.args and e.args[0][0] == "a" and e.args[0][2] == "value"}
                ctx.ob("every-tweak-is-applied", tag, len(who) == 2, "applies %d of 2 tweaks" % len(who), f.loc(), pl)
                for e in vl:
                    own = ("a", e.args[0][1], "parameter") if e.args and e.args[0][0] == "a" else NONE
                    ctx.ob("tweak-is-checked-against-its-parameter", tag, contains(e.term, own), "checks %s with %s" % (show(e.args[0]) if e.args else "", show(e.term)), f.loc(), pl)
            else:
                gen += 1
                ctx.ob("generator-tweak-comes-first", tag, len(vl) == 1, "applies %d tweaks" % len(vl), f.loc(), pl)
    # however many rounds are allowed, the last one is no different: look at it as if it were the first
    old = [(n, n.value) for n in ast.walk(f.node) if isinstance(n, ast.Constant) and type(n.value) is int and n.value > 2]
    try:
        for n, v in old:
            n.value = 1
        _, _, tr, _ = go(ctx, c, meth, max_iter=2, never={"resolve_generator_tweaks", "filter_values"})
    finally:
        for n, v in old:
            n.value = v
    for t in tr:
        val = [x for x in seq(t) if x[1] == "ValidateHook"]
        if t.outcome != "return" or not val:
            continue
        conds = [(i, e) for i, e in enumerate(t.events) if e.kind == "cond" and i > val[-1][0] and "filter_values" in show(e.term)]
        ctx.ob("valid-only-when-nothing-is-tweaked", tag + " in the last round", bool(conds) and nothing(conds[0][1]), "returns although a part asked for a change", f.loc(), path_lines(t, 80))
    ctx.ob("valid-only-when-nothing-is-tweaked", tag, plain and tweaked, "%d ways to be valid, %d after tweaks" % (plain, tweaked), f.loc())


def holds_gen(x):
    return x[:2] == ("op", "==") and ("c", "generator") in x[2:]


def nothing(e):
    """the test says that the list is empty"""
    x = e.term
    if x[0] == "call":
        return not e.extra
    if x[:2] == ("op", "not"):
        return bool(e.extra)
    if x[0] == "op" and x[1] == "==" and ("c", 0) in x[2:]:
        return bool(e.extra)
    if x[0] == "op" and x[1] == "<" and x[2] == ("c", 0):
        return not e.extra
    return False


def info_in(t, x, hook):
    return any(info_of(t, y, hook) for y in walk_term(x) if isinstance(y, tuple) and y and y[0] == "call")


def bp_index(ctx, c, meth):
    f, S, tr, it = go(ctx, c, meth, max_iter=3)
    tag = "%s.%s" % (c.name, meth)
    at = ("p", f.params[1])
    bs = ("a", S, "breakpoint_steps")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        last = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "==") and at in e.term[2:]]
        if last and last[-1]:
            ctx.ob("last-step-is-in-the-last-run", tag, same_len(t.value, bs), "run %s" % show(t.value), f.loc(), pl)
            continue
        if t.value[0] != "c":
            continue
        k = t.value[1]
        lt = {}
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "<") and e.term[2] == at and e.term[3][0] in ("i", "elem") and contains(e.term[3], bs):
                j = e.term[3][2]
                lt[j[1] if isinstance(j, tuple) else j] = bool(e.extra)
        if lt and not any(lt.values()):
            # past the end of the last run, which is not a step of the scan
            continue
        n += 1
        ok = lt.get(k) is True and all(lt.get(j) is False for j in range(k))
        ctx.ob("run-is-the-one-the-step-lies-in", tag, ok, "run %s for %s" % (k, lt), f.loc(), pl)
    ctx.note("breakpoint index paths decided: %d" % n)


def same_len(v, bs):
    l = lin(v)
    return l is not None and l.get(()) == -1 and len(l) == 2 and all(k == () or (k == ("op", "len", bs) and w == 1) for k, w in l.items())
