"""Typestate of futures: a request is registered under a fresh id before it is dispatched, the one response with that id
concludes exactly that future, waiting ends only when everything waited for is concluded and raises what went wrong,
stop requests abort exactly the waits they should, and a condition wait unsubscribes exactly once."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import two

RESP = ("p", "RESP")


def is_exc(v, name):
    return v is not None and v[0] == "exc" and v[1].split(".")[-1] == name


class Model:
    """what the Context keeps, found from how the public methods use it"""
    def __init__(self, ctx):
        p = self.p = ctx.p
        self.cls = p.cls("Context")
        self.S = ("o", "self", self.cls.qual)
        self.q = None
        self.futures = self.requests = self.subs = None
        self.step = None


def dispatching(ctx, M):
    p = ctx.p
    for meth, rc in (("put_async", "Put"), ("post_async", "Post"), ("subscribe", "Subscribe")):
        f = p.method(M.cls, meth)
        q = EQ(names={"handle_request", "set_callback", "_next_id", "Future", "callback"},
               call=lambda it, fn, a, k, st: last_name(fn) in ("__setitem__", "handle_request", "pop", "__delitem__", "put"),
               store=lambda it, b, n, v, st: True, ctor={"Future", "Queue"}, never={p.cls("Queue").qual + ".put"}, counts=two)
        q.never_inline = lambda g, nv=q.never: g.qual in nv or (g.name == "handle_request" and g.cls is not None and g.cls.name != "Context")
        it = Interp(p, q)
        traces = it.run(f, M.cls)
        ctx.used(it, traces)
        tag = "Context." + meth
        n = 0
        for t in traces:
            if t.outcome != "return":
                continue
            n += 1
            pl = path_lines(t)
            hr = [e for e in t.events if e.kind == "call" and e.name() == "handle_request" and e.term[1] != M.S]
            ok = len(hr) == 1 and hr[0].arg(0, "request") is not None and hr[0].arg(0, "request")[0] in ("new", "o") and \
                last_name(("cls", hr[0].arg(0, "request")[1 if hr[0].arg(0, "request")[0] == "new" else 2])) == rc
            ctx.ob("dispatches-exactly-one-request", tag, ok, "dispatches %s" % [show(e.args[0]) for e in hr if e.args], f.loc(), pl)
            if not ok:
                continue
            req = hr[0].arg(0, "request")
            i = t.events.index(hr[0])
            before = t.events[:i]
            fields = dict(req[2]) if req[0] == "new" else {}

            def field(name):
                for e in reversed(before):
                    if e.kind == "store" and e.term[:2] == ("a", req) and e.term[2] == name:
                        return e.args[0]
                return fields.get(name)
            rid = field("id")
            ids = {rid, ("a", req, "id")}
            ctx.ob("request-is-what-was-asked", tag, field("path") == ("p", f.params[1]) and (
                rc == "Subscribe" or ("p", f.params[2]) in (field("value"), field("parameters"))),
                "dispatches %s" % show(req), hr[0].loc(), pl)
            # the response comes back to this context's own queue
            cb = field("callback")
            good = cb is not None and last_name(cb) == "put" and cb[1][0] == "a" and cb[1][1] == M.S
            ctx.ob("answered-to-own-queue", tag, good, "callback %s" % (show(cb) if cb else None), hr[0].loc(), pl)
            if good:
                if M.q is None:
                    M.q = cb[1]
                ctx.ob("answered-to-own-queue", tag, M.q == cb[1], "several queues", hr[0].loc(), pl)
            # controller of the block named first in the path
            c = hr[0].term[1]
            ctx.ob("sent-to-the-named-block", tag, contains(c, ("i", ("p", f.params[1]), ("c", 0))), "sent to %s" % show(c), hr[0].loc(), pl)
            # registered before
            fut = t.value
            reg = [e for e in before if e.kind == "call" and e.name() == "__setitem__" and e.term[1][0] == "a" and e.term[1][1] == M.S]
            fm = [e for e in reg if e.args[0] in ids and e.args[1] == fut]
            rm = [e for e in reg if e.args[0] == fut and e.args[1] == req]
            ctx.ob("registered-before-dispatch", tag, len(fm) == 1 and len(rm) == 1 and fut is not None and fut != NONE,
                   "the returned future is not filed under the id of its request before it is sent", hr[0].loc(), pl)
            again = [e for e in t.events[i:] if e.kind == "call" and e.name() == "__setitem__" and e.term[1][0] == "a" and e.term[1][1] == M.S]
            ctx.ob("registered-before-dispatch", tag, not again, "registers after the response may have arrived", hr[0].loc(), pl)
            gone = [e for e in t.events if e.kind == "call" and e.name() in ("pop", "__delitem__") and e.term[1][0] == "a" and e.term[1][1] == M.S]
            ctx.ob("registered-before-dispatch", tag, not gone, "registration removed again", hr[0].loc(), pl)
            if fm and rm:
                M.futures, M.requests = fm[0].term[1], rm[0].term[1]
            if rc == "Subscribe":
                sm = [e for e in reg if e.args[0] in ids and e.args[1] != fut]
                ok = len(sm) == 1 and sm[0].args[1][0] == "T" and sm[0].args[1][1][0] == ("p", f.params[2])
                ctx.ob("callback-filed-before-dispatch", tag, ok, "subscription callback not filed under the id of the request", hr[0].loc(), pl)
                if sm:
                    M.subs = sm[0].term[1]
                    a = sm[0].args[1][1][1] if ok else NONE
                    ctx.ob("callback-filed-before-dispatch", tag, a[0] in ("list", "T") and all(contains(x, ("p", "*args")) or "proxy" in repr(x) for x in a[1]) and len(a[1]) == 2
                           or a == ("p", "*args"), "extra arguments filed as %s" % show(a), hr[0].loc(), pl)
                d = field("delta")
                ctx.ob("request-is-what-was-asked", tag, d in (None, ("c", False)), "asks for deltas", hr[0].loc(), pl)
            # fresh id: the counter moved on
            st = [e for e in before if e.kind == "store" and e.term[0] == "a" and e.term[1] == M.S and contains(e.args[0], e.term)]
            ctx.ob("fresh-id-for-every-request", tag, fresh(rid, before, M.S), "id %s, counter stores %s" % (show(rid), [repr(e) for e in st]), hr[0].loc(), pl)
        ctx.ob("dispatches-exactly-one-request", tag, n > 0, "never completes", f.loc())


def fresh(rid, before, S):
    """the id is a counter of the context that is incremented on the way (or next() of an iterator)"""
    if rid is None:
        return False
    if rid[0] == "call" and last_name(rid[1]) == "next" or (rid[0] == "call" and rid[1] == ("ext", "builtins.next")):
        return contains(rid, S)
    for e in before:
        if e.kind == "store" and e.term[0] == "a" and e.term[1] == S:
            v = e.args[0]
            if v in (("op", "+", e.term, ("c", 1)), ("op", "+", ("c", 1), e.term)) and rid in (e.term, v):
                return True
    return False


def find_step(M):
    """the method that takes one response off the queue: reached from both wait_all_futures and sleep and touching the queue"""
    p = M.p

    def called(name, seen):
        f = p.lookup(M.cls, name)
        if f is None or name in seen:
            return
        seen.add(name)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0]:
                called(n.func.attr, seen)

    def direct(name):
        f = p.method(M.cls, name)
        return {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0]}
    both = direct("wait_all_futures") & direct("sleep")
    for name in sorted(both):
        seen = set()
        called(name, seen)
        for s in seen:
            g = p.lookup(M.cls, s)
            if g is not None and any(isinstance(n, ast.Attribute) and n.attr == M.q[2] for n in ast.walk(g.node)):
                return p.method(M.cls, name)
    return None


def step_traces(ctx, M, resp, conds=None, count=1, timeout=False):
    p = ctx.p
    f = M.step
    takes = lambda fn: last_name(fn) == "get" and fn[0] in ("a", "bm") and fn[1] == M.q
    q = EQ(names={"set_result", "set_exception", M.q[2], "exception", M.futures[2], M.requests[2], M.subs[2], "STOP"},
           call=lambda it, fn, a, k, st: last_name(fn) in ("set_result", "set_exception", "pop", "remove", "get", "__delitem__", "clear", "discard", "put") or fn[0] in ("i", "p", "elem"),
           store=lambda it, b, n, v, st: b == M.S or (b[0] == "p"), cond=lambda it, t, st: True,
           result=lambda it, fn, a, k, st: resp if takes(fn) else None,
           counts=lambda it, b, st: [count], max_iter=max(2, count), noraise=lambda it, fn, st: not timeout and takes(fn))
    never = {p.cls("Queue").qual + ".get", "_describe_futures", "set_result", "set_exception"}
    q.never_inline = lambda g: g.qual in never or g.name in never or (g.cls is not None and g.cls.name == "Future")
    it = Interp(p, q)
    tr = it.run(f, M.cls, conds=conds)
    ctx.used(it, tr)
    if resp[0] == "o":
        # a response object is neither the stop token nor the marker
        tr = [t for t in tr if not any(e.kind == "cond" and e.term[:2] in (("op", "is"), ("op", "==")) and resp in e.term[2:] and e.extra for e in t.events)]
    return tr


def explicit_raise(t):
    return t.outcome == "raise" and t.value[2] is not None


def calls(t, *names):
    return [e for e in t.events if e.kind == "call" and e.name() in names]


def stepping(ctx, M):
    p = ctx.p
    f = M.step
    tag = "Context." + f.name
    waited = ("p", f.params[1])
    loc = f.loc()

    def fut_of(term, rid):
        """is the term the future registered under id rid"""
        return term is not None and ((term[0] == "call" and last_name(term[1]) in ("pop", "get") and term[1][1] == M.futures and term[2][0] == rid)
                                     or term == ("i", M.futures, rid))

    def concluded(t, rid, pl, want, arg, resp):
        sets = calls(t, "set_result", "set_exception")
        ok = len(sets) == 1 and sets[0].name() == want and fut_of(sets[0].term[1], rid) and sets[0].args == (arg,)
        ctx.ob("response-concludes-its-own-future", tag + "/" + want, ok, "concludes %s" % [repr(e) for e in sets], loc, pl)
        if not ok:
            return None
        fut = sets[0].term[1]
        off = [e for e in calls(t, "pop", "__delitem__") if e.term[1] == M.futures and e.args[0] == rid]
        ctx.ob("concluded-future-is-deregistered", tag + "/" + want, len(off) == 1, "id stays registered", loc, pl)
        off = [e for e in calls(t, "pop", "__delitem__") if e.term[1] == M.requests and fut_of(e.args[0], rid)]
        ctx.ob("concluded-future-is-deregistered", tag + "/" + want, len(off) == 1, "request stays registered", loc, pl)
        return fut

    def off_list(t, rid, uid=None):
        """True: taken off the waited list; False: known not to be on it; None: neither"""
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "in") and fut_of(e.term[2], rid) and e.term[3] == waited and e.extra is False:
                return False
            if e.kind == "raised" and e.name() == "remove" and e.term[1] == waited and fut_of(e.args[0], rid):
                return False
        for e in calls(t, "remove"):
            if e.term[1] == waited and fut_of(e.args[0], rid):
                return True
        return None

    # Return
    r = ("o", "RESP", p.cls("Return").qual)
    rid = ("a", r, "id")
    for t in step_traces(ctx, M, r):
        pl = path_lines(t)
        if t.outcome == "raise":
            ctx.ob("return-does-not-raise", tag, not explicit_raise(t), "a Return raises %s" % show(t.value), loc, pl)
            continue
        concluded(t, rid, pl, "set_result", ("a", r, "value"), r)
        ctx.ob("concluded-future-leaves-the-waited-list", tag + "/Return", off_list(t, rid) is not None, "still waited for", loc, pl)
        ctx.ob("subscription-callback-only-for-updates", tag + "/Return", not user_calls(t), "callback called", loc, pl)
    # Error
    r = ("o", "RESP", p.cls("Error").qual)
    rid = ("a", r, "id")
    raised = quiet = 0
    for t in step_traces(ctx, M, r):
        pl = path_lines(t)
        if t.outcome == "raise" and not explicit_raise(t):
            continue
        concluded(t, rid, pl, "set_exception", ("a", r, "message"), r)
        on = off_list(t, rid)
        ctx.ob("concluded-future-leaves-the-waited-list", tag + "/Error", on is not None, "still waited for", loc, pl)
        if t.outcome == "raise":
            raised += 1
            ctx.ob("error-raises-iff-waited-for", tag, on is True and (t.value[2] == ("a", r, "message") or (
                t.value[2][0] == "call" and last_name(t.value[2][1]) == "exception")), "raises %s, waited %s" % (show(t.value[2]), on), loc, pl)
        else:
            quiet += 1
            ctx.ob("error-raises-iff-waited-for", tag, on is False, "the error of a future that is waited for is not raised", loc, pl)
    ctx.ob("error-raises-iff-waited-for", tag, raised > 0 and quiet > 0, "raising paths %d, quiet paths %d" % (raised, quiet), loc)
    # Update
    r = ("o", "RESP", p.cls("Update").qual)
    rid = ("a", r, "id")
    count = 2
    kinds = set()
    for t in step_traces(ctx, M, r, count=count):
        pl = path_lines(t)
        if t.outcome == "raise" and not explicit_raise(t):
            continue
        sub = None
        for e in t.events:
            if e.kind == "cond" and e.term == ("op", "in", rid, M.subs):
                sub = e.extra
            elif e.kind == "cond" and e.term[:2] == ("op", "is") and contains(e.term, M.subs) and contains(e.term, rid) and NONE in e.term[2:]:
                sub = not e.extra
            elif e.kind == "cond" and contains(e.term, M.subs) and contains(e.term, rid) and e.term[0] == "call":
                sub = e.extra
        uc = user_calls(t)
        if sub:
            def ent(i):
                return [("i", ("i", M.subs, rid), ("c", i))]
            ok = len(uc) == 1 and contains(uc[0].term, M.subs) and contains(uc[0].term, rid) and uc[0].args and uc[0].args[0] == ("a", r, "value") \
                and len(uc[0].args) == 2 and uc[0].args[1][0] == "star" and contains(uc[0].args[1], M.subs)
            ctx.ob("update-calls-its-callback-once", tag, ok, "calls %s" % [repr(e) for e in uc], loc, pl)
        else:
            ctx.ob("update-calls-its-callback-once", tag, sub is False and not uc, "unsubscribed but calls %s" % [repr(e) for e in uc], loc, pl)
        kinds.add(sub)
        ctx.ob("update-concludes-nothing", tag, not calls(t, "set_result", "set_exception"), "future concluded by an update", loc, pl)
        # every waited future that a nested wait concluded is dropped, and its error raised
        state = {}
        last = None
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[3] in (M.requests, ("call", ("a", M.requests, "keys"), (), ())) and is_elem(e.term[2], waited):
                state[e.term[2]] = {"live": e.extra}
            elif e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "done" and is_elem(e.term[1][1], waited):
                state[e.term[1][1]] = {"live": not e.extra}
            elif e.kind == "call" and e.name() == "remove" and e.term[1] == waited and is_elem(e.args[0], waited):
                state.setdefault(e.args[0], {})["removed"] = True
            elif e.kind == "cond" and (e.term[:2] == ("op", "is") and NONE in e.term[2:] or e.term[0] == "call"):
                for x in walk_term(e.term):
                    if isinstance(x, tuple) and x and x[0] == "call" and last_name(x[1]) == "exception" and is_elem(x[1][1], waited):
                        state.setdefault(x[1][1], {})["failed"] = (not e.extra) if e.term[0] == "op" else e.extra
        rebuilt = [e for e in t.events if e.kind in ("store", "call") and e.kind == "store" and contains(e.term, waited)]
        for el, s in state.items():
            if s.get("live") is False:
                ctx.ob("nested-conclusion-is-noticed", tag, s.get("removed") or bool(rebuilt), "concluded future stays on the waited list", loc, pl)
                if s.get("failed"):
                    ctx.ob("nested-error-is-raised", tag, t.outcome == "raise", "error of a waited future lost", loc, pl)
                if t.outcome == "return":
                    ctx.ob("nested-error-is-raised", tag, s.get("failed") is False, "error of a waited future not looked at", loc, pl)
            elif s.get("live"):
                ctx.ob("nested-conclusion-is-noticed", tag, not s.get("removed"), "pending future dropped from the waited list", loc, pl)
        if t.outcome == "return" and not rebuilt:
            ctx.ob("nested-conclusion-is-noticed", tag, len(state) == count, "%d of %d waited futures examined after the callback" % (len(state), count), loc, pl)
        if t.outcome == "raise":
            ctx.ob("update-raises-only-nested-errors", tag, any(s.get("failed") for s in state.values()) and contains(t.value[2], waited),
                   "an update raises %s" % show(t.value[2]), loc, pl)
    ctx.ob("update-calls-its-callback-once", tag, True in kinds, "no path calls a subscription callback", loc)
    # STOP
    stop = ("a", M.S, "STOP")
    ignored = heard = 0
    sent = None
    for t in step_traces(ctx, M, stop):
        pl = path_lines(t)
        pend = None
        match = None
        for e in t.events:
            if e.kind == "cond" and e.term[:2] in (("op", "is"), ("op", "==")) and NONE in e.term[2:]:
                o = [x for x in e.term[2:] if x != NONE][0]
                if o[0] == "a" and o[1] == M.S:
                    pend = not e.extra
                    sent = o
            elif e.kind == "cond" and e.term[0] == "a" and e.term[1] == M.S and e.term[2] != "STOP":
                pend = e.extra
                sent = e.term
            elif e.kind == "cond" and e.term[:2] in (("op", "is"), ("op", "==")) and stop in e.term[2:] and e.term[2] != e.term[3]:
                match = e.extra
        if match:
            continue    # the stop token is never the sentinel
        if t.outcome == "raise" and not explicit_raise(t):
            continue
        if t.outcome == "raise":
            heard += 1
            ctx.ob("stop-aborts-the-wait", tag, is_exc(t.value, "AbortedError") and pend is not True, "a stop raises %s, pending marker %s" % (show(t.value), pend), loc, pl)
        else:
            ignored += 1
            ctx.ob("stop-aborts-the-wait", tag, pend is True, "a stop that should be listened to is dropped", loc, pl)
        ctx.ob("stop-keeps-marker", tag, not [e for e in t.events if e.kind == "store" and sent and e.term == sent], "an old stop clears the marker", loc, pl)
    ctx.ob("stop-aborts-the-wait", tag, heard > 0 and ignored > 0, "stop: %d aborting, %d ignoring paths" % (heard, ignored), loc)
    # sentinel
    if sent is not None:
        M.sent = sent
        for t in step_traces(ctx, M, sent):
            pl = path_lines(t)
            st = [e for e in t.events if e.kind == "store" and e.term == sent]
            if any(e.kind == "cond" and e.term == ("op", "is", sent, NONE) and e.extra for e in t.events):
                continue
            if any(e.kind == "cond" and e.term[:2] in (("op", "is"), ("op", "==")) and stop in e.term[2:] and e.extra for e in t.events):
                continue
            ctx.ob("marker-ends-ignoring", tag, t.outcome == "return" and len(st) == 1 and st[0].args == (NONE,), "marker not cleared when it comes off the queue", loc, pl)
    # timeout
    n = 0
    for t in step_traces(ctx, M, RESP, timeout=True):
        gets = [e for e in t.events if e.kind == "call" and e.name() == "get" and e.term[1] == M.q]
        ctx.ob("one-response-per-step", tag, len(gets) == 1, "takes %d responses" % len(gets), loc, path_lines(t))
        if any(e.kind == "raised" and e.term[1] == M.q for e in t.events):
            n += 1
            ctx.ob("timeout-is-raised", tag, t.outcome == "raise", "a queue timeout is swallowed", loc, path_lines(t))
        if len(gets) == 1:
            timeout_term(ctx, tag, t, gets[0], ("p", f.params[2]), loc)
    ctx.ob("timeout-is-raised", tag, n > 0, "queue get not found", loc)


def timeout_term(ctx, tag, t, get, until, loc):
    """None when there is no limit, else until - now, never negative"""
    a = get.arg(0, "timeout")
    unlimited = None
    for e in t.events:
        if e is get:
            break
        if e.kind == "cond" and e.term == ("op", "is", until, NONE):
            unlimited = e.extra
    a = NONE if a is None else a
    if unlimited:
        ok = a == NONE
    else:
        ok = a == ("c", 0) or (contains(a, until) and "time" in repr(a) and a != until and "-" in repr(a)) or a == ("c", 0.0)
        if a[0] == "c" and a[1] == 0:
            ok = any(e.kind == "cond" and contains(e.term, until) and e.term[:2] != ("op", "is") for e in t.events)
    ctx.ob("waits-no-longer-than-asked", tag, unlimited is not None and ok, "waits %s (no limit: %s)" % (show(a), unlimited), loc, path_lines(t))


def is_elem(x, base):
    return isinstance(x, tuple) and x and x[0] in ("elem", "i") and (x[1] == base or contains(x[1], base))


def user_calls(t):
    return [e for e in t.events if e.kind == "call" and e.term[0] in ("i", "p", "elem", "call")]


def waiting(ctx, M):
    p = ctx.p
    f = p.method(M.cls, "wait_all_futures")
    tag = "Context.wait_all_futures"
    loc = f.loc()
    arg = f.params[1]

    q = EQ(names={M.step.name, "done", "exception", "append"},
           call=lambda it, fn, a, k, st: last_name(fn) == M.step.name, cond=lambda it, t, st: True, counts=two, max_iter=2)
    q.never_inline = lambda g: g.name == M.step.name or (g.cls is not None and g.cls.name == "Future")
    q.pure = lambda it, fn, st: fn[0] in ("a", "bm") and last_name(fn) in ("done", "exception") and fn[1][0] in ("elem", "i", "p")
    q.clobber = lambda it, fn, a, st: a if last_name(fn) == M.step.name else ()
    it = Interp(p, q)
    traces = it.run(f, M.cls)
    ctx.used(it, traces)
    n_serviced = 0
    base = ("p", arg)
    for t in traces:
        pl = path_lines(t)
        steps = calls(t, M.step.name)
        done = {}
        failed = {}
        for e in t.events:
            if e.kind == "cond":
                for x in walk_term(e.term):
                    if isinstance(x, tuple) and x and x[0] == "call" and x[1][0] in ("a", "bm"):
                        if last_name(x[1]) == "done":
                            done[x[1][1]] = e.extra
                        if last_name(x[1]) == "exception":
                            failed[x[1][1]] = (not e.extra) if e.term[:2] == ("op", "is") else e.extra
        if t.outcome == "raise" and explicit_raise(t):
            v = t.value[2]
            src = [x[1][1] for x in walk_term(v) if isinstance(x, tuple) and x and x[0] == "call" and last_name(x[1]) == "exception"]
            ctx.ob("wait-raises-error-of-done-future", tag, bool(src) and failed.get(src[0]) is True and done.get(src[0]) is True, "raises %s" % show(v), loc, pl)
            continue
        if t.outcome == "raise":
            continue
        for fu, d in done.items():
            if d and not steps:
                ctx.ob("wait-raises-error-of-done-future", tag, failed.get(fu) is False, "%s is done but its error is not looked at" % show(fu), loc, pl)
        # the serviced list holds exactly the futures not done yet
        for e in steps:
            n_serviced += 1
            lst = e.arg(0, M.step.params[1])
            pend = [fu for fu, d in done.items() if d is False]
            if lst[0] == "list":
                ctx.ob("waits-for-every-pending-future", tag, list(lst[1]) == pend or set(lst[1]) == set(pend), "services %s, pending %s" % (show(lst), [show(x) for x in pend]), loc, pl)
            else:
                ctx.ob("waits-for-every-pending-future", tag, contains(lst, base) or lst == base, "services %s" % show(lst), loc, pl)
            deadline(ctx, tag, t, e, M, f, loc, pl)
    ctx.ob("waits-for-every-pending-future", tag, n_serviced > 0, "never services the queue", loc)
    # returns while something is pending?
    for t in traces:
        if t.outcome != "return":
            continue
        pend = [e.term[1][1] if e.term[0] == "call" else None for e in t.events
                if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "done" and e.extra is False]
        steps = calls(t, M.step.name)
        ctx.ob("returns-only-when-all-concluded", tag, not pend or bool(steps), "returns although %s is pending" % [show(x) for x in pend], loc, path_lines(t))
        if steps:
            after = t.events[max(i for i, e in enumerate(t.events) if e in steps) + 1:]
            ctx.ob("returns-only-when-all-concluded", tag, any(e.kind == "cond" for e in after),
                   "returns after servicing one response without looking whether something is still waited for", loc, path_lines(t))


def deadline(ctx, tag, t, e, M, f, loc, pl):
    to, ev = ("p", "timeout"), ("p", "event_timeout")
    u = e.arg(1, M.step.params[2])
    has = {}
    for c in t.events:
        if c.kind == "cond" and c.term[:2] == ("op", "is") and NONE in c.term[2:]:
            o = [x for x in c.term[2:] if x != NONE]
            if o and o[0] in (to, ev):
                has[o[0]] = not c.extra
    if u is None or u == NONE:
        ctx.ob("deadline-follows-timeouts", tag, has.get(to) is not True and has.get(ev) is not True, "no deadline although a timeout was given", loc, pl)
    else:
        for w, nm in ((to, "timeout"), (ev, "event_timeout")):
            if has.get(w):
                ctx.ob("deadline-follows-timeouts", tag, contains(u, w) or min_pick(t, w), "deadline %s ignores %s" % (show(u), nm), loc, pl)
            elif has.get(w) is False:
                ctx.ob("deadline-follows-timeouts", tag, not contains(u, w), "deadline %s uses %s which was not given" % (show(u), nm), loc, pl)
        if has.get(to) and has.get(ev):
            ctx.ob("deadline-is-the-earlier-one", tag, "min" in repr([x for x in walk_term(u) if isinstance(x, tuple) and x and x[0] == "ext"] + [u[:2]]) or min_pick(t, to),
                   "with both timeouts the deadline is %s" % show(u), loc, pl)


def min_pick(t, w):
    return any(c.kind == "cond" and c.term[0] == "op" and c.term[1] in ("<", ">", "<=", ">=") and contains(c.term, w) for c in t.events)


def sync_calls(ctx, M):
    """put/post: dispatch once, wait for that future with the caller's limits, return its result"""
    p = ctx.p
    for meth in ("put", "post", "when_matches"):
        f = p.method(M.cls, meth)
        asyn = meth + "_async"
        q = EQ(names={asyn, "wait_all_futures", "result"}, call=lambda it, fn, a, k, st: last_name(fn) in (asyn, "wait_all_futures", "result"))
        q.never_inline = lambda g: g.name in (asyn, "wait_all_futures", "result")
        it = Interp(p, q)
        tr = it.run(f, M.cls)
        ctx.used(it, tr)
        tag = "Context." + meth
        for t in tr:
            pl = path_lines(t)
            if t.outcome != "return":
                continue
            d, w = calls(t, asyn), calls(t, "wait_all_futures")
            n = len(p.method(M.cls, asyn).params) - 1
            ok = len(d) == 1 and [d[0].arg(i, f.params[1 + i]) for i in range(n)] == [("p", x) for x in f.params[1:1 + n]]
            ctx.ob("sync-call-dispatches-once", tag, ok, "dispatches %s" % [repr(e) for e in d], f.loc(), pl)
            ok = len(w) == 1 and len(d) == 1
            if ok:
                fu = w[0].arg(0, "futures")
                fu = fu[1][0] if fu[0] == "list" and len(fu[1]) == 1 else fu
                ok = fu[0] == "call" and fu[1] == d[0].term
                ok = ok and w[0].arg(1, "timeout") == ("p", "timeout") and w[0].arg(2, "event_timeout") == ("p", "event_timeout")
            ctx.ob("sync-call-waits-within-limits", tag, ok, "waits %s" % [repr(e) for e in w], f.loc(), pl)
            if meth != "when_matches":
                r = calls(t, "result")
                ctx.ob("sync-call-returns-result", tag, len(r) == 1 and t.value[0] == "call" and t.value[1] == r[0].term and d and r[0].term[1][0] == "call" and r[0].term[1][1] == d[0].term,
                       "returns %s" % show(t.value), f.loc(), pl)


def unsubscribing(ctx, M):
    p = ctx.p
    f = p.method(M.cls, "unsubscribe")
    tag = "Context.unsubscribe"
    fut = ("p", f.params[1])
    q = EQ(names={"handle_request", "callback", M.requests[2], M.subs[2]},
           call=lambda it, fn, a, k, st: last_name(fn) in ("handle_request", "__setitem__", "__delitem__", "pop", "add", "append", "clear"),
           store=lambda it, b, n, v, st: True, cond=lambda it, t, st: True, never={p.cls("Queue").qual + ".put"})
    q.never_inline = lambda g, nv=q.never: g.qual in nv or (g.name == "handle_request" and g.cls is not None and g.cls.name != "Context") or g.name == "get_controller"
    it = Interp(p, q)
    traces = it.run(f, M.cls)
    ctx.used(it, traces)
    sent = 0
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        pend = [e for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[2] == fut]
        ctx.ob("unsubscribes-at-most-once", tag, any(e.extra is False for e in pend), "proceeds for a future that was already unsubscribed", f.loc(), pl)
        mark = [e for e in calls(t, "__setitem__", "add", "append") if pend and e.term[1] == pend[0].term[3] and e.args[0] == fut]
        ctx.ob("unsubscribes-at-most-once", tag, len(mark) == 1, "the future is not marked as unsubscribed", f.loc(), pl)
        sub = [("i", M.requests, fut)] + [x for e in t.events for a in e.args for x in walk_term(a) if isinstance(x, tuple) and x and x[0] == "call" and x[1] in (("a", M.requests, "get"), ("a", M.requests, "pop"))]
        off = [e for e in calls(t, "pop", "__delitem__") if e.term[1] == M.subs]
        ctx.ob("no-callback-after-unsubscribe", tag, len(off) == 1 and any(off[0].args[0] == ("a", s, "id") for s in sub), "drops %s" % [repr(e) for e in off], f.loc(), pl)
        keep = [e for e in calls(t, "pop", "__delitem__") if e.term[1] in (M.requests, M.futures)]
        ctx.ob("future-stays-until-answered", tag, not keep, "future forgotten before the Return of its subscription arrives", f.loc(), pl)
        hr = [e for e in calls(t, "handle_request") if e.term[1] != M.S]
        gone = any(e.kind == "raised" for e in t.events)
        if hr:
            sent += 1
            r = hr[0].arg(0, "request")
            flds = dict(r[2]) if r[0] == "new" else {}
            cb = flds.get("callback")
            for e in t.events:
                if e.kind == "store" and e.term == ("a", r, "callback"):
                    cb = e.args[0]
            ok = len(hr) == 1 and r[0] == "new" and r[1].endswith(".Unsubscribe") and any(flds.get("id") == ("a", s, "id") for s in sub)
            ctx.ob("unsubscribe-names-the-subscription", tag, ok, "sends %s" % show(r), hr[0].loc(), pl)
            ctx.ob("answered-to-own-queue", tag, cb is not None and last_name(cb) == "put" and cb[1] == M.q, "callback %s" % (cb and show(cb)), hr[0].loc(), pl)
            ctx.ob("sent-to-the-named-block", tag, any(contains(hr[0].term[1], ("i", ("a", s, "path"), ("c", 0))) for s in sub), "sent to %s" % show(hr[0].term[1]), hr[0].loc(), pl)
    ctx.ob("unsubscribe-names-the-subscription", tag, sent > 0, "no Unsubscribe is sent", f.loc())
    # unsubscribe_all
    f = p.method(M.cls, "unsubscribe_all")
    tag = "Context.unsubscribe_all"
    q = EQ(names={"unsubscribe"}, call=lambda it, fn, a, k, st: last_name(fn) in ("unsubscribe", "Callback"), cond=lambda it, t, st: True,
           counts=two, never={"unsubscribe"})
    it = Interp(p, q)
    for t in it.run(f, M.cls):
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        is_sub, pending = {}, {}
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "isinstance") and "Subscribe" in repr(e.term[3]):
                is_sub[idx_of(e.term[2])] = e.extra
            elif e.kind == "cond" and e.term[:2] == ("op", "in"):
                pending[idx_of(e.term[2])] = e.extra
        want = {i for i, v in is_sub.items() if v and pending.get(i) is False}
        got = []
        for e in t.events:
            if e.kind == "call":
                if e.name() == "unsubscribe":
                    got.append(idx_of(e.arg(0, "future")))
                elif e.name() == "Callback" and last_name(e.args[0]) == "unsubscribe":
                    got.append(idx_of(e.args[1]))
        ctx.ob("unsubscribe-all-covers-every-subscription", tag, sorted(map(repr, got)) == sorted(map(repr, want)) and len(is_sub) == 2,
               "unsubscribes %s of %s" % (got, sorted(map(repr, want))), f.loc(), pl)
    ctx.used(it, ())
    d = p.lookup(M.cls, "__del__")
    if d is not None:
        q = EQ(names={"unsubscribe_all"}, call=lambda it, fn, a, k, st: last_name(fn) == "unsubscribe_all", never={"unsubscribe_all"})
        it = Interp(p, q)
        for t in it.run(d, M.cls):
            ctx.ob("dropped-context-unsubscribes", "Context.__del__", t.outcome == "raise" or len(calls(t, "unsubscribe_all")) == 1, "subscriptions survive the context", d.loc())
    else:
        ctx.ob("dropped-context-unsubscribes", "Context", False, "a dropped context keeps its subscriptions", M.cls.loc())


def idx_of(x):
    """index of the collection element a term refers to (key, value or pair of it)"""
    if not isinstance(x, tuple):
        return None
    while isinstance(x, tuple) and x and x[0] in ("elem", "val", "key", "i", "a", "idx"):
        if x[0] in ("elem", "val", "key", "idx"):
            return x[2] if len(x) > 2 else 0
        x = x[1]
    return x


def stops(ctx, M):
    p = ctx.p
    for meth in ("stop", "ignore_stops_before_now"):
        f = p.method(M.cls, meth)
        q = EQ(names={"put", M.q[2], "STOP"}, call=lambda it, fn, a, k, st: last_name(fn) in ("put", "get") or fn == ("ext", "builtins.object"),
               store=lambda it, b, n, v, st: b == M.S, never={p.cls("Queue").qual + ".put"})
        it = Interp(p, q)
        tr = it.run(f, M.cls)
        ctx.used(it, tr)
        for t in tr:
            if t.outcome != "return":
                continue
            pl = path_lines(t)
            puts = [e for e in calls(t, "put") if e.term[1] == M.q]
            if meth == "stop":
                ctx.ob("stop-reaches-the-waiter", "Context.stop", len(puts) == 1 and puts[0].args == (("a", M.S, "STOP"),), "queues %s" % [repr(e) for e in puts], f.loc(), pl)
            else:
                st = [e for e in t.events if e.kind == "store" and e.term == getattr(M, "sent", None)]
                ok = len(puts) == 1 and len(st) == 1 and puts[0].args[0] in (st[0].args[0], st[0].term) and st[0].args[0][0] not in ("c",)
                ctx.ob("marker-queued-behind-old-stops", "Context.ignore_stops_before_now", ok, "queues %s, remembers %s" % ([repr(e) for e in puts], [repr(e) for e in st]), f.loc(), pl)


def when(ctx, M):
    p = ctx.p
    c = p.cls("When")
    f = p.method(c, "__call__")
    S = ("o", "self", c.qual)
    q = EQ(names={"unsubscribe", "condition_satisfied"}, call=lambda it, fn, a, k, st: last_name(fn) in ("unsubscribe", "condition_satisfied") or (fn[0] == "a" and fn[1] == S),
           store=lambda it, b, n, v, st: b == S, cond=lambda it, t, st: True, never={"unsubscribe"})
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    val = ("p", f.params[1])
    kinds = set()
    for t in tr:
        pl = path_lines(t)
        un = calls(t, "unsubscribe")
        test = [e for e in t.events if e.kind == "call" and e.name() != "unsubscribe" and e.args == (val,)]
        rt = [e for e in t.events if e.kind == "raised" and e.args == (val,)]
        active = None
        sat = None
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "a" and e.term[1] == S and active is None:
                active = e.extra
                futf = e.term
            elif e.kind == "cond" and e.term[:2] == ("op", "is") and NONE in e.term[2:] and active is None:
                active = not e.extra
                futf = [x for x in e.term[2:] if x != NONE][0]
            elif e.kind == "cond" and e.term[0] == "call" and e.term[2] == (val,):
                sat = e.extra
        if t.outcome == "raise" and (not rt or is_exc(t.value, "AssertionError")) and not explicit_raise(t):
            continue        # failing assertion or unsubscribe
        if active is False:
            kinds.add("inactive")
            ctx.ob("condition-not-checked-after-conclusion", "When", not test and not un, "still acts after it was satisfied", f.loc(), pl)
            continue
        if any(e.kind == "raised" and e.name() == "unsubscribe" for e in t.events):
            continue
        ctx.ob("condition-checked-on-every-update", "When", len(test) == 1, "checks %d times" % len(test), f.loc(), pl)
        stop = [e for e in t.events if e.kind == "store" and e.term == futf and e.args == (NONE,)]
        if rt:
            kinds.add("raised")
            ctx.ob("bad-value-ends-the-wait-with-its-error", "When", t.outcome == "raise" and len(un) == 1 and un[0].args == (futf,) and len(stop) == 1,
                   "outcome %s, unsubscribes %d" % (t.outcome, len(un)), f.loc(), pl)
        elif sat:
            kinds.add("sat")
            ctx.ob("satisfied-ends-the-wait", "When", t.outcome == "return" and len(un) == 1 and un[0].args == (futf,) and len(stop) == 1,
                   "outcome %s, unsubscribes %d, forgets %d" % (t.outcome, len(un), len(stop)), f.loc(), pl)
        else:
            kinds.add("unsat")
            ctx.ob("unsatisfied-keeps-waiting", "When", t.outcome == "return" and not un and not stop and sat is False, "unsubscribes %d" % len(un), f.loc(), pl)
    for k in ("raised", "sat", "unsat", "inactive"):
        ctx.ob("every-case-handled", "When", k in kinds, "no path for case '%s'" % k, f.loc())
    # the condition itself
    f = p.method(c, "__init__")
    gv, bv = ("p", f.params[1]), ("p", f.params[2])
    subs = [n for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node]
    q = EQ(names={"good_value", "bad_values"}, store=lambda it, b, n, v, st: b == S, cond=lambda it, t, st: True)
    it = Interp(p, q)
    cond_attr = None
    for t in tr:
        for e in t.events:
            if e.kind == "call" and e.args == (val,) and e.term[0] == "a":
                cond_attr = e.term[2]
    tr = it.run(f, c)
    seen = set()
    for t in tr:
        if t.outcome != "return":
            continue
        call = [e.extra for e in t.events if e.kind == "cond" and "callable" in repr(e.term)]
        st = [e for e in t.events if e.kind == "store" and cond_attr and e.term == ("a", S, cond_attr)]
        if not st or not call:
            continue
        clo = st[-1].args[0]
        for t2 in apply_closure(it, f, clo, t.state):
            pl = path_lines(t2)
            if call[0]:
                seen.add("callable")
                ok = t2.outcome == "raise" or (t2.value[0] == "call" and t2.value[1] == gv and t2.value[2] == (("p", "VALUE"),))
                ctx.ob("callable-condition-decides", "When", ok, "returns %s" % show(t2.value), f.loc(), pl)
            else:
                bad = [e.extra for e in t2.events if e.kind == "cond" and e.term == ("op", "in", ("p", "VALUE"), bv)]
                if explicit_raise(t2):
                    seen.add("bad")
                    ctx.ob("bad-values-raise", "When", bad == [True] and is_exc(t2.value, "BadValueError"), "raises %s" % show(t2.value), f.loc(), pl)
                elif t2.outcome == "return":
                    seen.add("cmp")
                    ctx.ob("bad-values-raise", "When", True not in bad, "bad value accepted", f.loc(), pl)
                    ok = t2.value in (("op", "==", ("p", "VALUE"), gv), ("op", "==", gv, ("p", "VALUE")))
                    if t2.value[0] == "c":
                        ok = any(e.kind == "cond" and e.term in (("op", "==", ("p", "VALUE"), gv), ("op", "==", gv, ("p", "VALUE"))) and e.extra == t2.value[1] for e in t2.events)
                    ctx.ob("satisfied-iff-equal", "When", ok, "returns %s" % show(t2.value), f.loc(), pl)
    if seen:
        for k in ("callable", "bad", "cmp"):
            ctx.ob("every-case-handled", "When", k in seen, "no path for case '%s'" % k, f.loc())
    f = p.method(M.cls, "when_matches_async")
    q = EQ(names={"subscribe", "set_future_context", "When"}, call=lambda it, fn, a, k, st: last_name(fn) in ("subscribe", "set_future_context"), never={"subscribe", "set_future_context"})
    it = Interp(p, q)
    for t in it.run(f, M.cls):
        if t.outcome != "return":
            continue
        s, w = calls(t, "subscribe"), calls(t, "set_future_context")
        ok = len(s) == 1 and s[0].arg(0, "path") == ("p", "path") and s[0].arg(1, "callback")[0] == "new" and \
            {("p", "good_value"), ("p", "bad_values")} <= {v for _, v in s[0].arg(1, "callback")[2]}
        ctx.ob("condition-subscribes-its-path", "Context.when_matches_async", ok, "subscribes %s" % [repr(e) for e in s], f.loc(), path_lines(t))
        ok = ok and len(w) == 1 and w[0].term[1] == s[0].arg(1, "callback") and w[0].args[0] == t.value and t.value[0] == "call" and t.value[1] == s[0].term
        ctx.ob("condition-knows-its-future", "Context.when_matches_async", ok, "%s" % [repr(e) for e in w], f.loc(), path_lines(t))


def apply_closure(it, f, clo, state):
    out = []
    try:
        for k, v, s in it.apply(clo, [("p", "VALUE")], [], f.node, state):
            from sa.interp import Trace
            out.append(Trace("raise" if k == "raise" else "return", v, s.events[len(state.events):], s))
    except Exception:
        return []
    return out


def future_obj(ctx):
    p = ctx.p
    c = p.cls("Future")
    S = ("o", "self", c.qual)

    def go(meth, conds=None):
        f = p.method(c, meth)
        q = EQ(names={"wait_all_futures", "exception", "result"} | {a for a in ("_state", "_result", "_exception")},
               call=lambda it, fn, a, k, st: last_name(fn) == "wait_all_futures",
               store=lambda it, b, n, v, st: b == S, cond=lambda it, t, st: True, never={"wait_all_futures"})
        it = Interp(p, q)
        tr = it.run(f, c)
        ctx.used(it, tr)
        return f, tr
    # what set_result / set_exception record
    f, tr = go("set_result")
    res = fin = None
    for t in tr:
        st = [e for e in t.events if e.kind == "store"]
        for e in st:
            if e.args[0] == ("p", f.params[1]):
                res = e.term
            else:
                fin = (e.term, e.args[0])
        ctx.ob("result-recorded", "Future.set_result", t.outcome == "return" and res is not None and fin is not None, "stores %s" % [repr(e) for e in st], f.loc(), path_lines(t))
    f, tr = go("set_exception")
    exc = None
    for t in tr:
        if t.outcome != "return":
            continue
        st = [e for e in t.events if e.kind == "store"]
        for e in st:
            if e.args[0] == ("p", f.params[1]):
                exc = e.term
        ctx.ob("exception-recorded", "Future.set_exception", exc is not None and exc != res and any((e.term, e.args[0]) == fin for e in st),
               "stores %s" % [repr(e) for e in st], f.loc(), path_lines(t))
    if not (res and exc and fin):
        return
    f, tr = go("done")
    for t in tr:
        if t.outcome == "return":
            v = t.value
            ok = v in (("op", "==", fin[0], fin[1]), ("op", "==", fin[1], fin[0]), fin[0]) or \
                (v[0] == "c" and any(e.kind == "cond" and contains(e.term, fin[0]) for e in t.events)) or \
                (v[0] == "op" and v[1] in ("not", "!=") and contains(v, fin[0]))
            ctx.ob("done-means-concluded", "Future.done", ok, "returns %s" % show(v), f.loc(), path_lines(t))
    for meth in ("result", "exception"):
        f, tr = go(meth)
        for t in tr:
            pl = path_lines(t)
            w = calls(t, "wait_all_futures")
            running = [e.extra for e in t.events if e.kind == "cond" and contains(e.term, fin[0])]
            if t.outcome == "raise" and not explicit_raise(t):
                continue
            if w:
                a = w[0].arg(0, "futures")
                ctx.ob("pending-future-is-waited-for", "Future." + meth, len(w) == 1 and (a == ("list", (S,)) or a == S) and w[0].arg(1, "timeout") == ("p", "timeout"),
                       "waits %s" % [repr(e) for e in w], f.loc(), pl)
            ctx.ob("pending-future-is-waited-for", "Future." + meth, bool(running), "state not examined", f.loc(), pl)
            if meth == "exception":
                ctx.ob("exception-returned", "Future.exception", t.outcome == "return" and t.value == exc, "gives %s" % show(t.value), f.loc(), pl)
            else:
                bad = None
                for e in t.events:
                    if e.kind == "cond" and e.term == exc:
                        bad = e.extra
                    elif e.kind == "cond" and e.term == ("op", "is", exc, NONE):
                        bad = not e.extra
                if t.outcome == "raise":
                    ctx.ob("result-raises-iff-failed", "Future.result", bad is True and t.value[2] == exc, "raises %s" % show(t.value), f.loc(), pl)
                else:
                    ctx.ob("result-raises-iff-failed", "Future.result", bad is False and t.value == res, "returns %s although failed is %s" % (show(t.value), bad), f.loc(), pl)
    # pending really waits: at least one path waits, and a path that does not wait has found it concluded
        ctx.ob("pending-future-is-waited-for", "Future." + meth, any(calls(t, "wait_all_futures") for t in tr), "never waits", f.loc())


def sleeping(ctx, M):
    p = ctx.p
    f = p.method(M.cls, "sleep")
    q = EQ(names={M.step.name}, call=lambda it, fn, a, k, st: last_name(fn) == M.step.name, never={M.step.name}, max_iter=2)
    it = Interp(p, q)
    tr = it.run(f, M.cls)
    ctx.used(it, tr)
    ret = 0
    for t in tr:
        steps = calls(t, M.step.name)
        rs = [e for e in t.events if e.kind == "raised"]
        pl = path_lines(t)
        for e in steps:
            ctx.ob("sleep-services-until-deadline", "Context.sleep", contains(e.args[1] if len(e.args) > 1 else e.kwd(M.step.params[2], NONE), ("p", f.params[1])), "deadline %r" % e, f.loc(), pl)
        if t.outcome == "return":
            ret += 1
            ctx.ob("sleep-ends-only-at-its-deadline", "Context.sleep", bool(rs), "returns without the deadline having passed", f.loc(), pl)
        else:
            ctx.ob("sleep-passes-on-errors", "Context.sleep", bool(rs), "raises %s" % show(t.value), f.loc(), pl)
    ctx.ob("sleep-passes-on-errors", "Context.sleep", any(t.outcome == "raise" for t in tr), "errors and aborts are swallowed while sleeping", f.loc())
    for name in ("AbortedError", "BadValueError"):
        e = p.cls(name)
        q.raises_as = lambda it, fn, st: (("exc", e.qual, None),)
        for t in Interp(p, q).run(f, M.cls):
            ctx.ob("sleep-passes-on-errors", "Context.sleep/" + name, t.outcome == "raise", "%s is swallowed while sleeping" % name, f.loc(), path_lines(t))
    ctx.ob("sleep-ends-only-at-its-deadline", "Context.sleep", ret > 0, "never returns", f.loc())


def run(ctx):
    M = Model(ctx)
    dispatching(ctx, M)
    future_obj(ctx)
    if not (M.q and M.futures and M.requests and M.subs):
        if not ctx.violations:
            ctx.floor("queue and registries of Context", 1)
        return
    M.step = find_step(M)
    if M.step is None:
        ctx.floor("step method of Context", 1)
        return
    stepping(ctx, M)
    waiting(ctx, M)
    sync_calls(ctx, M)
    sleeping(ctx, M)
    stops(ctx, M)
    unsubscribing(ctx, M)
    when(ctx, M)
