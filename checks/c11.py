"""Interrupting a scan: along every path of abort, pause, resume, disable, configure and run, which queue is told what, under
which lock, in which order, and for which states of the block the interrupted operation is waited for."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.project import Class
from sa.q import path_lines
from checks.util import calls, idx_of, two
from checks.scan import drive, trans, sval, aborted, hooks, hname, self_of, failed_at, moves, could_be, holds

IDLE = ("Ready", "Armed", "Paused", "Finished")
BUSY = ("Configuring", "Running", "PostRun", "Seeking")
SEEN = ("transition", "put", "get", "stop", "sleep", "ignore_stops_before_now", "run_hooks")


def depth(t, i):
    """how many block locks are held at event i"""
    d = 0
    for e in t.events[:i]:
        if e.kind == "enter":
            d += 1
        elif e.kind == "exit":
            d -= 1
    return d


def region(t, i):
    """(start, end) of the outermost locked region event i lies in, None if not locked"""
    d, a = 0, None
    for j, e in enumerate(t.events):
        if e.kind == "enter":
            if d == 0:
                a = j
            d += 1
        elif e.kind == "exit":
            d -= 1
            if d == 0 and a is not None and a < i < j:
                return a, j
    return None


def on_queue(e, S, name):
    """is the call made on self.<name>, or on the queue just stored there"""
    return e.kind == "call" and e.term[0] in ("a", "bm") and e.term[1] == ("a", S, name)


def q_calls(t, S, name, meth, new=()):
    out = []
    for i, e in enumerate(t.events):
        if e.kind == "call" and e.name() == meth and e.term[0] in ("a", "bm"):
            b = e.term[1]
            if b == ("a", S, name) or any(b == v for v in stored(t, S, name, i)):
                out.append(i)
    return out


def stored(t, S, name, upto=None):
    return [e.args[0] for e in t.events[:upto] if e.kind == "store" and e.term == ("a", S, name)]


def own(S):
    """the term is the block's own context"""
    def f(x):
        return contains(x, ("a", S, "part_contexts")) and any(y == S for y in subterms(x) if y is not None) and x != ("a", S, "part_contexts")
    return f


def subterms(x):
    """everything but the owner in self.part_contexts"""
    if x[0] == "call":
        yield from x[2]
        for k in x[3] if len(x) > 3 else ():
            yield k[1]
    elif x[0] == "i":
        yield x[2]


def no_ctx(t, S, lo, hi):
    return any(e.kind == "cond" and not e.extra and contains(e.term, ("a", S, "part_contexts")) for e in t.events[lo:hi])


def abortable(ctx, t, S, i, tag, f, pl):
    """the transition at event i cannot be made by an operation that was told to stop"""
    r = region(t, i)
    ok = r is not None
    if ok:
        lo = r[0]
        chk = [j for j in range(lo, i) if t.events[j].kind == "call" and t.events[j].name() == "sleep" and t.events[j].args and t.events[j].args[0] in (("c", 0), ("c", 0.0))
               and own(S)(t.events[j].term[1])]
        ok = bool(chk) or no_ctx(t, S, lo, i)
    ctx.ob("stopped-operation-cannot-move-on", tag, ok, "moves to %s without looking for a stop under the same lock" % sval(trans_at(t, i)), f.loc(), pl)


def trans_at(t, i):
    e = t.events[i]
    return e.args[0] if e.args else dict(e.kw).get("state")


def run(ctx):
    p = ctx.p
    top = p.cls("RunnableController")
    done = set()
    for c in [top] + sorted(p.subclasses(top, strict=True), key=lambda k: k.qual):
        for m, g in (("abort", interrupt), ("pause", interrupt), ("configure", operate), ("run", operate), ("do_run", operate), ("resume", resume), ("do_disable", disable),
                     ("go_to_error_state", error), ("do_configure", fresh), ("do_run", stoppable), ("do_pause", stoppable)):
            h = p.lookup(c, m)
            if h is None:
                continue
            sig = (m, g.__name__, h.qual, tuple(getattr(p.lookup(c, x), "qual", None) for x in ("try_aborting_function", "abortable_transition", "go_to_error_state")))
            if sig in done:
                continue
            done.add(sig)
            g(ctx, c, m)
    for r, n in (("stopped-operation-cannot-move-on", 4), ("everything-stopped-in-one-step", 2), ("waits-for-what-runs", 2), ("does-not-wait-when-idle", 2), ("interrupted-operation-gives-way", 2),
                 ("run-waits-for-its-verdict", 1)):
        ctx.floor(r, n)


def interrupt(ctx, c, meth):
    p = ctx.p
    S = self_of(c)
    body = {"abort": "do_abort", "pause": "do_pause"}[meth]
    f, S, tr, it = drive(ctx, c, meth, never={body}, names={body}, effect=moves(S), counts=two,
                         noraise=lambda it, fn, st: last_name(fn) in ("stop", "put", "ignore_stops_before_now"),
                         call=lambda it, fn, a, k, st: last_name(fn) in SEEN + (body, "go_to_error_state"))
    tag = "%s.%s" % (c.name, meth)
    st_val = ("a", ("a", S, "state"), "value")
    waited = {s: False for s in BUSY}
    seen_timeout = False
    for t in tr:
        pl = path_lines(t, 60)
        ts = trans(t)
        bd = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == body]
        gets = q_calls(t, S, "abort_queue", "get")
        puts = q_calls(t, S, "abort_queue", "put")
        verd = q_calls(t, S, "resume_queue", "put")
        if bd:
            i0 = ts[0][0]
            r = region(t, i0)
            ok = r is not None
            ctx.ob("everything-stopped-in-one-step", tag, ok, "moves without the lock", f.loc(), pl)
            if ok:
                qs = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "abort_queue")]
                ok = len(qs) == 1 and qs[0] < i0 and region(t, qs[0]) == r and not is_none(t.events[qs[0]].args[0])
                ctx.ob("new-queue-for-every-interruption", tag, ok, "the operation that gives way might not tell this interruption", f.loc(), pl)
                st = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "stop" and i < bd[0]]
                who = {repr(idx_of(t.events[i].term[1])) for i in st if contains(t.events[i].term, ("a", S, "part_contexts")) and i0 < i < r[1]}
                ctx.ob("everything-stopped-in-one-step", tag, len(who) == 2, "stops %d of 2 parts under the lock after moving" % len(who), f.loc(), pl)
            ctx.ob("work-is-done-once", tag, len(bd) == 1, "done %d times" % len(bd), f.loc(), pl)
            g = [i for i in gets if i < bd[0]]
            if g:
                ctx.ob("waits-without-the-lock", tag, all(depth(t, i) == 0 for i in g), "waits holding the lock", f.loc(), pl)
                ctx.ob("waits-after-stopping", tag, r is not None and g[0] > r[1], "waits before it stopped anything", f.loc(), pl)
                e = t.events[g[0]]
                ctx.ob("waits-a-limited-time", tag, e.arg(0, "timeout") not in (None, NONE), "waits for ever", f.loc(), pl)
                seen_timeout = seen_timeout or failed_at(t, g[0])
                for s in IDLE:
                    ctx.ob("does-not-wait-when-idle", "%s in %s" % (tag, s), not could_be(t, st_val, s, bd[0]), "waits for an operation that is not running", f.loc(), pl)
                for s in BUSY:
                    waited[s] = waited[s] or could_be(t, st_val, s, bd[0])
            else:
                for s in BUSY:
                    ctx.ob("waits-for-what-runs", "%s in %s" % (tag, s), not could_be(t, st_val, s, bd[0]), "goes on although an operation may still be running", f.loc(), pl)
            ig = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "ignore_stops_before_now" and own(S)(e.term[1])]
            if g:
                ctx.ob("stop-is-heard-before-rearming", tag, not [i for i in ig if i < g[0]], "takes the stop back before the operation gave way", f.loc(), pl)
            ok = any(i < bd[0] and i > (g[-1] if g else i0) for i in ig) or no_ctx(t, S, i0, bd[0])
            ctx.ob("rearmed-before-its-own-work", tag, ok, "its own stop would abort it", f.loc(), pl)
        for i, s, bad in ts[1:]:
            if sval(s) != "Fault":
                abortable(ctx, t, S, i, tag, f, pl)
        if t.outcome == "return":
            if not ts:
                continue
            ctx.ob("only-interrupted-operations-give-way", tag, not puts, "tells the queue although it was not interrupted", f.loc(), pl)
            noq = no_queue(t, S, "resume_queue")
            if meth == "abort":
                ok = (len(verd) == 1 and t.events[verd[0]].args[:1] == (("c", False),) and verd[0] > ts[-1][0]) or (noq and not verd)
                ctx.ob("abort-ends-the-run", tag, ok, "verdicts %s" % [show(t.events[i].args[0]) for i in verd], f.loc(), pl)
            else:
                ctx.ob("pause-leaves-the-run-waiting", tag, not verd, "gives the run a verdict", f.loc(), pl)
        elif aborted(t.value) and bd:
            ctx.ob("interrupted-operation-gives-way", tag, len(puts) == 1, "tells the queue %d times" % len(puts), f.loc(), pl)
    for s in BUSY:
        if meth == "pause" and s not in ("Running", "PostRun"):
            continue
        ctx.ob("waits-for-what-runs", "%s in %s" % (tag, s), waited[s], "never waits", f.loc())
    ctx.ob("waits-a-limited-time", tag, seen_timeout, "gives up when the operation does not give way in time", f.loc())


def no_queue(t, S, name):
    q = ("a", S, name)
    for e in t.events:
        if e.kind == "cond":
            if e.term == q and not e.extra:
                return True
            h = holds(e.term, q, None)
            if h is not None and h == bool(e.extra):
                return True
    return False


def is_none(x):
    return x is None or x == NONE


def operate(ctx, c, meth):
    """configure, run: how an interrupted operation gives way"""
    p = ctx.p
    S = self_of(c)
    body = {"configure": "do_configure", "run": "do_run", "do_run": "-"}[meth]
    f, S, tr, it = drive(ctx, c, meth, never={body, "validate", "_part_params"}, names={body}, effect=moves(S), max_iter=3 if ctx.tier == "thorough" else 2,
                         noraise=lambda it, fn, st: last_name(fn) not in (body, "sleep", "transition"),
                         call=lambda it, fn, a, k, st: last_name(fn) in SEEN + (body, "go_to_error_state"))
    tag = "%s.%s" % (c.name, meth)
    resumed = ended = 0
    for t in tr:
        pl = path_lines(t, 60)
        if no_queue(t, S, "resume_queue") and meth == "run":
            continue        # nothing runs before configure made that queue
        ts = trans(t)
        first = 0 if meth == "do_run" else 1
        for i, s, bad in ts[first:]:
            if sval(s) == "Fault":
                continue
            abortable(ctx, t, S, i, tag, f, pl)
        if meth == "do_run":
            continue
        puts = q_calls(t, S, "abort_queue", "put")
        gets = q_calls(t, S, "resume_queue", "get")
        bd = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == body]
        fails = [i for i, e in enumerate(t.events) if e.kind == "raised"]
        ctx.ob("gives-way-once", tag, len(puts) <= len(fails), "tells the interruption %d times, interrupted %d times" % (len(puts), len(fails)), f.loc(), pl)
        ctx.ob("gives-way-once", tag, all(depth(t, i) == 0 for i in puts + gets), "waits or tells holding the lock", f.loc(), pl)
        if t.outcome == "return":
            ctx.ob("gives-way-once", tag, len(puts) == len(fails), "interrupted %d times, tells %d times" % (len(fails), len(puts)), f.loc(), pl)
        elif aborted(t.value) and bd:
            ctx.ob("interrupted-operation-gives-way", tag, len(puts) == len(fails) >= 1, "interrupted %d times, tells %d times" % (len(fails), len(puts)), f.loc(), pl)
        if meth == "configure":
            ctx.ob("configure-takes-no-verdict", tag, not gets, "waits for a verdict", f.loc(), pl)
            continue
        # run
        ctx.ob("run-waits-for-its-verdict", tag, len(gets) == len(puts) and all(a < b for a, b in zip(puts, gets)), "gives way %d times, takes %d verdicts" % (len(puts), len(gets)), f.loc(), pl)
        for g in gets:
            nxt = [i for i in bd if i > g]
            v = [bool(e.extra) for e in t.events[g:] if e.kind == "cond" and contains(e.term, t.events[g].term) and "get" in show(e.term)][:1]
            if not v:
                continue
            if v[0]:
                resumed += 1
                later = [i for i in gets if i > g]
                ctx.ob("resumed-run-goes-on", tag, bool(nxt), "ends although it was resumed", f.loc(), pl)
            else:
                ended += 1
                ctx.ob("ended-run-is-aborted", tag, not nxt and t.outcome == "raise" and aborted(t.value) and not [1 for i, s, b in ts if i > g], "goes on although it was told to end", f.loc(), pl)
    if meth == "run":
        ctx.ob("run-waits-for-its-verdict", tag, resumed > 0 and ended > 0, "the verdict does not matter", f.loc())


def resume(ctx, c, meth):
    S = self_of(c)
    f, S, tr, it = drive(ctx, c, meth, raises="all", call=lambda it, fn, a, k, st: last_name(fn) in SEEN)
    tag = "%s.%s" % (c.name, meth)
    n = 0
    for t in tr:
        pl = path_lines(t)
        ts = trans(t)
        verd = q_calls(t, S, "resume_queue", "put")
        if t.outcome == "return":
            n += 1
            ok = len(verd) == 1 and t.events[verd[0]].args[:1] == (("c", True),) and len(ts) == 1 and sval(ts[0][1]) == "Running" and ts[0][0] < verd[0]
            ctx.ob("resume-continues-the-run", tag, ok, "moves %s, verdicts %s" % ([sval(x[1]) for x in ts], [show(t.events[i].args[0]) for i in verd]), f.loc(), pl)
        elif not ts or ts[0][2]:
            ctx.ob("refused-resume-gives-no-verdict", tag, not verd, "tells the run to go on although it is not paused", f.loc(), pl)
    ctx.ob("resume-continues-the-run", tag, n > 0, "never succeeds", f.loc())


def disable(ctx, c, meth):
    S = self_of(c)
    f, S, tr, it = drive(ctx, c, meth, counts=two, call=lambda it, fn, a, k, st: last_name(fn) in SEEN)
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        hk = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "run_hooks"]
        who = {repr(idx_of(e.term[1])) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "stop" and contains(e.term, ("a", S, "part_contexts")) and (not hk or i < hk[0])}
        ctx.ob("disable-stops-every-part", tag, len(who) == 2, "stops %d of 2" % len(who), f.loc(), pl)
        verd = q_calls(t, S, "resume_queue", "put")
        noq = no_queue(t, S, "resume_queue")
        ok = (len(verd) == 1 and t.events[verd[0]].args[:1] == (("c", False),) and (not hk or verd[0] < hk[0])) or (noq and not verd)
        ctx.ob("disable-ends-the-run", tag, ok, "verdicts %s" % [show(t.events[i].args[0]) for i in verd], f.loc(), pl)
        ctx.ob("disable-ends-the-run", tag, len(hk) == 1, "runs the hook %d times" % len(hk), f.loc(), pl)


def error(ctx, c, meth):
    S = self_of(c)
    f, S, tr, it = drive(ctx, c, meth, call=lambda it, fn, a, k, st: last_name(fn) in SEEN)
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        verd = q_calls(t, S, "resume_queue", "put")
        noq = no_queue(t, S, "resume_queue")
        ok = (len(verd) == 1 and t.events[verd[0]].args[:1] == (("c", False),)) or (noq and not verd)
        ctx.ob("fault-ends-the-run", tag, ok, "verdicts %s" % [show(t.events[i].args[0]) for i in verd], f.loc(), path_lines(t))


def fresh(ctx, c, meth):
    """a configure starts with its own contexts and verdict queue, and everything it runs can be stopped through them"""
    S = self_of(c)
    f, S, tr, it = drive(ctx, c, meth, counts=two, call=lambda it, fn, a, k, st: last_name(fn) in SEEN + ("unsubscribe_all", "create_part_contexts", "Context", "__setitem__"), store=lambda it, b, n, v, st: b == S or contains(b, S),
                         noraise=lambda it, fn, st: True, cond=lambda it, t, st: False, never={"_part_params"})
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        st = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "part_contexts")]
        ctx.ob("configure-makes-its-own-contexts", tag, len(st) == 1 and "create_part_contexts" in show(t.events[st[0]].args[0]), "contexts %s" % [show(t.events[i].args[0]) for i in st], f.loc(), pl)
        hk = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "run_hooks" and st and i > st[0]]
        again = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "create_part_contexts" and st and i > st[0]]
        ctx.ob("everything-a-scan-runs-can-be-stopped", tag, bool(hk) and not again, "runs functions with contexts that nobody stops", f.loc(), pl)
        me = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "__setitem__" and e.args[0] == S and st and i > st[0] - 2]
        ctx.ob("block-itself-can-be-stopped", tag, bool(me) and bool(hk) and me[0] < hk[0], "has no context of its own while it runs hooks", f.loc(), pl)
        un = {repr(idx_of(e.term[1])) for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "unsubscribe_all" and contains(e.term, ("a", S, "part_contexts")) and st and i < st[0]}
        ctx.ob("old-contexts-are-dropped", tag, len(un) == 2, "unsubscribes %d of 2" % len(un), f.loc(), pl)
        rq = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "resume_queue")]
        ctx.ob("new-verdicts-for-every-scan", tag, len(rq) >= 1 and not is_none(t.events[rq[-1]].args[0]), "an old verdict can reach this scan", f.loc(), pl)


def stoppable(ctx, c, meth):
    """the functions run for a scan get the contexts that abort, pause and disable stop"""
    S = self_of(c)
    f, S, tr, it = drive(ctx, c, meth, noraise=lambda it, fn, st: True, call=lambda it, fn, a, k, st: last_name(fn) == "run_hooks", store=lambda it, b, n, v, st: False, force={"_part_params"}, args=None)
    tag = "%s.%s" % (c.name, meth)
    for t in tr:
        if t.outcome != "return":
            continue
        n = 0
        for i, hs in hooks(t):
            for h in hs:
                if hname(h) == "PauseHook":
                    continue        # those that do the stopping run in contexts of their own
                cx = dict(h[2]).get("context") if h[0] == "new" else h[2][1] if len(h[2]) > 1 else None
                n += 1
                ctx.ob("everything-a-scan-runs-can-be-stopped", "%s %s" % (tag, hname(h)), cx is not None and contains(cx, ("a", S, "part_contexts")), "runs with %s" % (cx and show(cx)), f.loc(), path_lines(t))
        ctx.ob("everything-a-scan-runs-can-be-stopped", tag, n >= 2, "runs %d hooks" % n, f.loc(), path_lines(t))
