"""Clients (websocket, pvAccess): bookkeeping of outstanding requests over every failing call, what becomes of each kind of
response, how a proxied block is built and updated (closures run symbolically), and whether every change a model can announce
can be applied to its mirror."""
from sa.interp import contains, last_name, show, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import two
from checks.c13 import calls, walk_term, same_obj
from checks.c15 import drive, failed, isinst, given, OPAQUE, T


def run(ctx):
    ws = ctx.p.cls("WebsocketClientComms")
    send(ctx, ws)
    receive(ctx, ws)
    disconnect(ctx, ws)
    connect(ctx, ws)
    ask(ctx, ws)
    mirror(ctx, ws)
    regenerate(ctx, ws)
    pva(ctx, ctx.p.cls("PvaClientComms"))
    proxy(ctx, ctx.p.cls("ProxyController"))
    models(ctx)
    for r, n in (("request-concludes", 6), ("response-reaches-its-request", 4), ("disconnect-concludes-every-request", 4), ("asks-what-was-asked", 4), ("result-is-passed-on", 4),
                 ("every-change-is-applied", 8), ("block-is-rebuilt", 8), ("announced-change-can-be-applied", 20), ("setter-sets-its-endpoint", 20)):
        ctx.floor(r, n)


QUIET = ("Callback", "exception", "debug", "ResponseError", "Error", "call")


def quiet(it, fn, st):
    return last_name(fn) in QUIET


def later(t, name=None):
    """[(i, function, args)]: calls made now or handed to another thread"""
    out = []
    for i, e in enumerate(t.events):
        if e.kind not in ("call", "spawn"):
            continue
        if last_name(e.term) in ("Callback", "call", "add_callback", "spawn", "CallbackResult") and e.args:
            out.append((i, e.args[0], e.args[1:], e))
        else:
            out.append((i, e.term, e.args, e))
    return [x for x in out if name is None or last_name(x[1]) == name]


def answer(t, req):
    """what the callback of a request is given"""
    return [(i, a, e) for i, f, a, e in later(t, "callback") if f[0] == "a" and same_obj(f[1], req)]


def errors(x, rid):
    d = dict(x[2]) if x[0] == "new" and x[1].endswith("Error") else {}
    return d.get("id") == rid and d.get("message", NONE)[0] == "new" and d["message"][1].endswith("ResponseError")


def send(ctx, c):
    f, S, tr, it = drive(ctx, c, "_send_request", names={"_request_lookup", "_next_id", "write_message", "callback"}, noraise=lambda it, fn, st: last_name(fn) in QUIET + ("pop", "__setitem__", "__delitem__"), raises="all")
    tag = c.name + "._send_request"
    rq, nxt, look = ("p", f.params[1]), ("a", S, "_next_id"), ("a", S, "_request_lookup")
    for t in tr:
        pl = path_lines(t, 40)
        if not ctx.ob("request-concludes", tag, t.outcome == "return", "fails with %s, nobody is told" % (t.value and show(t.value)), f.loc(), pl):
            continue
        rid = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", rq, "id")]
        ids = [e.args[0] for e in t.events if e.kind == "store" and e.term == nxt]
        ok = len(rid) == 1 and len(ids) == 1 and (rid[0] == nxt and ids[0] == ("op", "+", nxt, ("c", 1)) or rid[0] == ids[0] == ("op", "+", nxt, ("c", 1)))
        ctx.ob("request-has-an-id-of-its-own", tag, ok, "id %s, next %s" % ([show(x) for x in rid], [show(x) for x in ids]), f.loc(), pl)
        wr = [(i, e) for i, e in calls(t, "write_message")]
        sent = [i for i, e in wr if not failed(t, i, e)]
        kept = [i for i, e in calls(t, "__setitem__") if e.term[1] == look and rid and e.args == (rid[0], rq)]
        gone = [i for i, e in calls(t, "pop", "__delitem__") if e.term[1] == look and rid and e.args[0] == rid[0]]
        an = answer(t, rq)
        if sent:
            ok = len(sent) == 1 and len(kept) == 1 and kept[0] < sent[0] and not gone and not an and contains(wr[0][1].args[0], rq)
            ctx.ob("request-concludes", tag, ok, "sent %d times, recorded %d times, answered %d times" % (len(sent), len(kept), len(an)), f.loc(), pl)
        else:
            ok = len(gone) == len(kept) and len(an) == 1 and len(an[0][1]) == 1 and errors(an[0][1][0], rid and rid[0])
            ctx.ob("request-concludes", tag, ok, "not sent: recorded %d times, forgotten %d times, told %s" % (len(kept), len(gone), [repr(e) for _, _, e in an]), f.loc(), pl)
    ctx.ob("request-concludes", tag, any(calls(t, "write_message") for t in tr), "nothing is sent", f.loc())


def receive(ctx, c):
    f, S, tr, it = drive(ctx, c, "on_message", names={"_request_lookup", "callback"}, noraise=quiet)
    tag = c.name + ".on_message"
    look = ("a", S, "_request_lookup")
    n = 0
    for t in tr:
        pl = path_lines(t, 40)
        ctx.ob("response-reaches-its-request", tag, t.outcome == "return", "fails with %s" % (t.value and show(t.value)), f.loc(), pl)
        rs = next((e for i, e in calls(t, "deserialize_object") if not failed(t, i, e)), None)
        cb = [(i, f_, a, e) for i, f_, a, e in later(t, "callback")]
        if rs is None:
            ctx.ob("response-reaches-its-request", tag, not cb, "called back with nothing", f.loc(), pl)
            continue
        r = ("call", rs.term, rs.args, rs.kw) if False else next((y for e in t.events for a in (e.term,) + tuple(e.args) for y in walk_term(a) if y[0] == "call" and last_name(y[1]) == "deserialize_object"), None)
        bad = [x for x in calls(t, "exception", "error", "warning")]
        if bad and not cb:
            continue        # not for us: no such request
        ks = isinst(t, r) if r else {}
        if ks.get(("Error", "Return")) is False and (ks.get("Error") or ks.get("Return")):
            continue        # can not be
        ctx.ob("response-reaches-its-request", tag, len(cb) == 1 and len(cb[0][2]) == 1 and cb[0][2][0] == r, "called back %s" % [repr(e) for *_, e in cb], f.loc(), pl)
        if len(cb) != 1 or r is None:
            continue
        n += 1
        rq = cb[0][1][1]
        rid = ("a", r, "id")
        fin = ks.get(("Error", "Return")) or ks.get("Return") or ks.get("Error")
        pops = [e for i, e in calls(t, "pop", "__delitem__") if e.term[1] == look and e.args[0] == rid]
        ok = contains(rq, look) and contains(rq, rid)
        ctx.ob("response-reaches-its-request", tag, ok, "calls back %s" % show(rq), f.loc(), pl)
        ctx.ob("request-ends-with-its-answer", tag, len(pops) == int(bool(fin)), "%s: forgotten %d times" % (ks, len(pops)), f.loc(), pl)
        if ks.get("Error"):
            m = [e for e in t.events if e.kind == "store" and e.term == ("a", r, "message")]
            ok = len(m) == 1 and m[0].args[0][0] == "new" and m[0].args[0][1].endswith("ResponseError") and contains(m[0].args[0], ("a", r, "message"))
            ctx.ob("result-is-passed-on", tag, ok, "error is given as %s" % [repr(e) for e in m], f.loc(), pl)
    ctx.ob("response-reaches-its-request", tag, n > 2, "never", f.loc())


def disconnect(ctx, c):
    f, S, tr, it = drive(ctx, c, "_report_fault", names={"_request_lookup", "callback", "_connected_queue", "transition"}, never={"transition"}, noraise=lambda it, fn, st: last_name(fn) != "callback", raises="all")
    tag = c.name + "._report_fault"
    look = ("a", S, "_request_lookup")
    n = 0
    for t in tr:
        pl = path_lines(t, 40)
        ctx.ob("disconnect-concludes-every-request", tag, t.outcome == "return", "fails with %s" % (t.value and show(t.value)), f.loc(), pl)
        cb = later(t, "callback")
        els = set()
        for i, fn, a, e in cb:
            who = fn[1]
            els |= {y[2] for y in walk_term(who) if y[0] in ("elem", "val", "kv") and len(y) > 2 and contains(y, look)}
            ok = len(a) == 1 and a[0][0] == "new" and errors(a[0], ("a", who, "id")) and contains(who, look)
            ctx.ob("disconnect-concludes-every-request", tag, ok, "told %s" % [show(x) for x in a], f.loc(), pl)
        two_seen = any(contains(y, look) for e in t.events for x in (e.term,) + tuple(e.args) for y in walk_term(x) if y[0] in ("elem", "val"))
        if two_seen:
            n += 1
            ctx.ob("disconnect-concludes-every-request", tag, len(cb) == 2 and els == {0, 1}, "of two outstanding requests %d were told" % len(cb), f.loc(), pl)
            forget = [e for i, e in calls(t, "pop", "clear", "popitem", "__delitem__") if e.term[1] == look] + [e for e in t.events if e.kind == "store" and e.term == look]
            ctx.ob("request-ends-with-its-answer", tag, len(forget) in (1, 2), "not forgotten", f.loc(), pl)
        dis = [bool(e.extra) for e in t.events if e.kind == "cond" and contains(e.term, ("a", ("a", S, "state_set"), "DISABLING"))]
        fault = [e for i, e in calls(t, "transition") if e.args[0] == ("a", ("a", S, "state_set"), "FAULT")]
        ctx.ob("disconnect-is-shown", tag, len(dis) == 1 and len(fault) == int(not dis[0]), "disabling %s, %d moves to Fault" % (dis, len(fault)), f.loc(), pl)
        put = [e for i, e in calls(t, "put") if e.term[1] == ("a", S, "_connected_queue")]
        ctx.ob("disconnect-is-shown", tag, len(put) == 1, "disable waits for ever", f.loc(), pl)
    ctx.ob("disconnect-concludes-every-request", tag, n > 0, "never looked at", f.loc())


def connect(ctx, c):
    f, S, tr, it = drive(ctx, c, "_start_client", names={"_conn", "_connected_queue", "_send_request"}, noraise=quiet)
    tag = c.name + "._start_client"
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 40)
        none = [given(e) for e in t.events if e.kind == "cond" and e.term in (("a", S, "_conn"), ("op", "is", ("a", S, "_conn"), NONE))]
        go = [i for i, fn, a, e in later(t, "recv_loop")][:1]
        if none and none[0]:
            ctx.ob("connects-before-it-asks", tag, not go, "connects again", f.loc(), pl)
            continue
        fresh = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "_connected_queue") and e.args[0][0] == "new"]
        get = [i for i, e in calls(t, "get") if contains(e.term, ("a", S, "_connected_queue")) or e.term[1][0] == "new" and e.term[1][1].endswith("Queue")]
        sub = [i for i, fn, a, e in later(t, "_send_request")][:1]
        ok = len(go) == 1 and len(get) == 1 and go[0] < get[0] and (not sub or get[0] < sub[0])
        ctx.ob("connects-before-it-asks", tag, ok, "connecting %s, waiting %s, asking %s" % (go, get, sub), f.loc(), pl)
        ctx.ob("connects-before-it-asks", tag, bool(fresh) and bool(go) and fresh[-1] < go[0], "an earlier disconnection may be taken for the connection", f.loc(), pl)
    f, S, tr, it = drive(ctx, c, "recv_loop", names={"_conn", "_connected_queue", "_report_fault", "on_message"}, never={"on_message"}, noraise=T)
    tag = c.name + ".recv_loop"
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 40)
        st = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "_conn")]
        rp = later(t, "_report_fault")
        put = [x for x in later(t, "put") if x[1][1] == ("a", S, "_connected_queue")]
        ok = st[-1:] == [NONE] and len(rp) == 1
        ctx.ob("disconnect-concludes-every-request", tag, ok, "connection %s, reported %d times" % ([show(x) for x in st], len(rp)), f.loc(), pl)
        ctx.ob("connects-before-it-asks", tag, len(put) == 1, "connection announced %d times" % len(put), f.loc(), pl)


def ask(ctx, c):
    for meth, cls in (("send_put", "Put"), ("send_post", "Post")):
        f, S, tr, it = drive(ctx, c, meth, names={"_send_request"}, never={"_send_request"}, noraise=T)
        tag = c.name + "." + meth
        n = 0
        for t in tr:
            pl = path_lines(t, 40)
            sn = [x for x in later(t, "_send_request") if x[1][0] in ("a", "bm")]
            sn = [x for k, x in enumerate(sn) if k == 0 or x[2] != sn[k - 1][2]]
            ok = len({show(x[2][0]) for x in sn}) == 1
            rq = sn[0][2][0] if sn else NONE
            d = dict(rq[2]) if rq[0] == "new" else {}
            path = t.state.snap(d.get("path", NONE))
            path = list(path[1]) if path[0] in ("list", "T") else []
            P = [("p", x) for x in f.params[1:]]
            if cls == "Put":
                ok = ok and rq[1].endswith(".Put") and path == [P[0], P[1], ("c", "value")] and d.get("value") == P[2]
            else:
                ok = ok and rq[1].endswith(".Post") and path == [P[0], P[1]] and d.get("parameters") == ("p", "**" + f.node.args.kwarg.arg)
            q = [(i, e) for i, e in calls(t, "set_callback") if same_obj(e.term[1], rq)]
            ok2 = len(q) == 1 and last_name(q[0][1].args[0]) == "put" and bool(sn) and q[0][0] < sn[0][0]
            ctx.ob("asks-what-was-asked", tag, ok and ok2, "sends %s path %s" % (show(rq), [show(x) for x in path]), f.loc(), pl)
            get = [(i, e) for i, e in calls(t, "get")]
            ctx.ob("request-concludes", tag, len(get) == 1 and bool(sn) and get[0][0] > sn[0][0] and bool(q) and same_obj(get[0][1].term[1], q[0][1].args[0][1]), "waits %d times" % len(get), f.loc(), pl)
            got = next((y for e in t.events if e.kind == "cond" for y in walk_term(e.term) if y[0] == "call" and last_name(y[1]) == "get"), None)
            ks = isinst(t, got) if got else {}
            if t.outcome == "raise":
                v = t.value
                ok = ks.get("Error") is True or ks.get("Return") is False
            else:
                ok = (ks.get("Error") is False or ks.get("Return") is True) and t.value == ("a", got, "value")
                n += 1
            ctx.ob("result-is-passed-on", tag, ok, "%s: %s %s" % (ks, t.outcome, t.value and show(t.value)), f.loc(), pl)
        ctx.ob("result-is-passed-on", tag, n > 0 and any(t.outcome == "raise" for t in tr), "result or error never passed on", f.loc())


def closures(ctx, c, meth, names, hook, never=(), effect=None):
    f = ctx.p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=set(names), call=T, cond=T, store=T, with_=T, counts=two, max_iter=2, never_mod=OPAQUE, never=set(never), noraise=T, async_call=hook, effect=effect)
    it = Interp(ctx.p, q)
    tr = it.run(f, c, None)
    ctx.used(it, tr)
    return f, S, tr


def mirror(ctx, c):
    cbs = {}

    def hook(it, fn, a, k, st):
        if last_name(fn) == "set_callback" and a:
            cbs[1] = a[0]
        if last_name(fn) in ("call", "Callback") and a and last_name(a[0]) == "_send_request" and 1 in cbs:
            return cbs[1], [("p", "response")], []
        return None
    f, S, tr = closures(ctx, c, "sync_proxy", {"_send_request", "_handle_response", "put"}, hook, never={"_handle_response", "_send_request"})
    tag = c.name + ".sync_proxy"
    rs = ("p", "response")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 40)
        delta = isinst(t, rs).get("Delta")
        put = [x for x in later(t, "put")]
        hd = [x for x in later(t, "_handle_response")]
        sub = next((e for i, e in calls(t, "set_callback")), None)
        d = dict(sub.term[1][2]) if sub and sub.term[1][0] == "new" else {}
        path = t.state.snap(d.get("path", NONE))
        ok = sub is not None and sub.term[1][1].endswith("Subscribe") and d.get("delta") == ("c", True) and path[0] in ("list", "T") and list(path[1]) == [("p", f.params[1])]
        ctx.ob("asks-what-was-asked", tag, ok, "subscribes to %s" % show(path), f.loc(), pl)
        get = [e for i, e in calls(t, "get")]
        ctx.ob("every-change-is-applied", tag, len(get) == 1, "does not wait for the block", f.loc(), pl)
        if delta is None:
            ctx.ob("every-change-is-applied", tag, False, "never called back", f.loc(), pl)
        elif delta:
            n += 1
            ok = len(hd) == 1 and not put and hd[0][2][:2] == (rs, ("p", f.params[2])) and len(hd[0][2]) == 3 and get and same_obj(hd[0][2][2], get[0].term[1])
            ctx.ob("every-change-is-applied", tag, ok, "handled %s" % [repr(x[3]) for x in hd], f.loc(), pl)
        else:
            ctx.ob("every-change-is-applied", tag, len(put) == 1 and not hd, "waits for ever when refused", f.loc(), pl)
    ctx.ob("every-change-is-applied", tag, n > 0, "never handled", f.loc())
    f, S, tr, it = drive(ctx, c, "_handle_response", names={"_handle_change", "changes", "put"}, never={"_handle_change"}, noraise=lambda it, fn, st: last_name(fn) != "_handle_change")
    tag = c.name + "._handle_response"
    R, B, Q = [("p", x) for x in f.params[1:4]]
    for t in tr:
        pl = path_lines(t, 40)
        put = [e for i, e in calls(t, "put") if e.term[1] == Q]
        ctx.ob("every-change-is-applied", tag, len(put) == 1, "the waiting one is told %d times" % len(put), f.loc(), pl)
        hc = [e for i, e in calls(t, "_handle_change") if not failed(t, i, e)]
        if t.outcome == "return":
            els = [e.args[1][2] for e in hc if len(e.args) == 2 and e.args[0] == B and e.args[1][0] == "elem" and e.args[1][1] == ("a", R, "changes")]
            ctx.ob("every-change-is-applied", tag, els == [0, 1] and len(hc) == 2, "applied %s" % els, f.loc(), pl)
            i0 = next((i for i, e in enumerate(t.events) if e.kind == "enter" and last_name(e.term) == "changes_squashed"), None)
            ctx.ob("changes-are-announced-together", tag, i0 is not None and all(i > i0 for i, e in calls(t, "_handle_change")), "applied one by one", f.loc(), pl)
    f, S, tr, it = drive(ctx, c, "_handle_change", names={"set_endpoint_data", "remove_endpoint", "apply_change", "_regenerate_block"}, never={"_regenerate_block"}, noraise=T)
    tag = c.name + "._handle_change"
    B, C = [("p", x) for x in f.params[1:3]]
    path = ("i", C, ("c", 0))
    for t in tr:
        pl = path_lines(t, 40)
        do = [e for i, e in calls(t, "_regenerate_block", "remove_endpoint", "set_endpoint_data", "apply_change")]
        if t.outcome != "return":
            ctx.ob("every-change-is-applied", tag, root(t, path) and not do, "fails", f.loc(), pl)
            continue
        if not ctx.ob("every-change-is-applied", tag, len(do) == 1, "%d effects" % len(do), f.loc(), pl):
            continue
        e, what = do[0], last_name(do[0].term)
        own = [eq_const(t, ("i", path, ("c", 0)), k) for k in ("health", "meta")]
        one = eq_len(t, path, 1)
        gone = eq_len(t, C, 1)
        v = ("i", C, ("c", 1))
        if root(t, path):
            ok = what == "_regenerate_block" and e.args == (B, v)
        elif one and own == [False, False]:
            first = ("i", path, ("c", 0))
            ok = what == "remove_endpoint" and e.args == (first,) if gone else what == "set_endpoint_data" and e.args == (first, v)
            ok = ok and e.term[1] == B and gone is not None
        else:
            ok = what == "apply_change" and e.term[1] == B and e.args[0] == path and len(e.args) == 2 and contains(e.args[1], C) and "slice(1, None" in show(e.args[1])
        ctx.ob("every-change-is-applied", tag, ok, "%s" % repr(e), f.loc(), pl)


def root(t, path):
    for e in t.events:
        if e.kind == "cond":
            if e.term == path:
                return not e.extra
            if e.term[0] == "op" and e.term[1] == "==" and ("op", "len", path) in e.term[2:4] and ("c", 0) in e.term[2:4]:
                return bool(e.extra)
    return None


def eq_len(t, x, n):
    for e in t.events:
        if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "==" and ("op", "len", x) in e.term[2:4]:
            k = e.term[2] if e.term[3][:2] == ("op", "len") else e.term[3]
            if k == ("c", n):
                return bool(e.extra)
            if e.extra and k[0] == "c":
                return False
            if n == 1 and k == ("c", 2):
                return not e.extra
    return None


def eq_const(t, x, k):
    for e in t.events:
        if e.kind != "cond" or e.term[0] != "op":
            continue
        if e.term[1] == "==" and x in e.term[2:4] and ("c", k) in e.term[2:4]:
            return bool(e.extra)
        if e.term[1] == "==" and x in e.term[2:4] and e.extra and any(y[0] == "c" for y in e.term[2:4]):
            return False
    return None


def regenerate(ctx, c):
    """a block is rebuilt from what the server shows: nothing is left over, nothing is left out"""
    pv = c.name.startswith("Pva")
    f, S, tr, it = drive(ctx, c, "_regenerate_block", names={"set_endpoint_data", "remove_endpoint", "apply_change", "set_value", "_update_settable_fields"}, never={"_update_settable_fields"}, noraise=T)
    tag = c.name + "._regenerate_block"
    B, D = [("p", x) for x in f.params[1:3]]
    seen = set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        rm = [(i, e) for i, e in calls(t, "remove_endpoint") if e.term[1] == B]
        add = [(i, e) for i, e in calls(t, "set_endpoint_data") if e.term[1] == B]
        ctx.ob("block-is-rebuilt", tag, not rm or not add or max(i for i, _ in rm) < min(i for i, _ in add), "removes a new field", f.loc(), pl)
        for r in (0, 1):
            old = ("elem", B, r)
            own = [eq_const(t, old, k) for k in ("health", "meta")]
            gone = [e for i, e in rm if e.args == (old,)]
            if gone or any(e.kind == "cond" and contains(e.term, old) for e in t.events):
                seen.add("old")
                ctx.ob("block-is-rebuilt", tag, len(gone) == int(True not in own), "old field (health, meta)=%s removed %d times" % (own, len(gone)), f.loc(), pl)
            k = next((y for e in t.events for x in (e.term,) + tuple(e.args) for y in walk_term(x) if y[0] == "elem" and y[1] == D and y[2] == r), None)
            if k is None:
                continue
            h, m, ty = (eq_const(t, k, n) for n in ("health", "meta", "typeid"))
            isv = lambda x: any(y[0] == "val" and y[1] == D and y[2] == r for y in walk_term(x)) or any(y == ("i", D, k) for y in walk_term(x))
            put = [e for i, e in add if e.args[0] == k]
            if h:
                seen.add("health")
                hv = [e for i, e in calls(t, "set_value") if contains(e.term, ("a", B, "health"))]
                ok = any(isv(e.kwd("value") or NONE) and isv(e.kwd("alarm") or NONE) and isv(e.kwd("ts") or NONE) and "alarm" in show(e.kwd("alarm")) and "timeStamp" in show(e.kwd("ts")) for e in hv) and not put
                ctx.ob("block-is-rebuilt", tag, ok, "health set by %s" % [repr(e) for e in hv], f.loc(), pl)
            elif m:
                seen.add("meta")
                ap = [e for i, e in calls(t, "apply_change") if contains(e.term, ("a", B, "meta"))]
                ap = [e for e in ap if isv(e.args[1])]
                els = {y[2] for e in ap for y in walk_term(t.state.snap(e.args[0])) if y[0] == "elem"}
                ok = els == {0, 1} and all(isv(e.args[1]) and e.args[1][0] == "i" and contains(t.state.snap(e.args[0]), e.args[1][2]) for e in ap) and not put
                ctx.ob("block-is-rebuilt", tag, ok, "meta set by %s" % [repr(e) for e in ap], f.loc(), pl)
            elif ty:
                ctx.ob("block-is-rebuilt", tag, not put, "adds its typeid as a field", f.loc(), pl)
            elif h is False and m is False:
                seen.add("field")
                ok = len(put) == 1 and isv(put[0].args[1])
                ctx.ob("block-is-rebuilt", tag, ok, "field set by %s" % [repr(e) for e in put], f.loc(), pl)
            if pv:
                up = [e for i, e in calls(t, "_update_settable_fields") if e.args[1] == k]
                ok = len(up) == 1 and up[0].args[0] == ("p", f.params[3]) and up[0].args[2] == ("i", B, k)
                ctx.ob("block-is-rebuilt", tag, ok, "fields to follow: %s" % [repr(e) for e in up], f.loc(), pl)
    ctx.ob("block-is-rebuilt", tag, {"old", "health", "meta", "field"} <= seen, "only %s" % sorted(seen), f.loc())


def pva(ctx, c):
    regenerate(ctx, c)
    cb = {}

    def hook(it, fn, a, k, st):
        if last_name(fn) == "monitor" and len(a) > 1:
            cb[1] = a[1]
            return a[1], [("p", "v1")], []
        if last_name(fn) == "add" and 1 in cb and contains(fn, ("a", ("o", "self", c.qual), "_monitors")):
            return cb[1], [("p", "v2")], []
        if last_name(fn) == "get" and 1 in cb:
            return cb[1], [("p", "v3")], []
        return None

    def filled(it, fn, args, kw, st):
        # what is followed of a block is never nothing
        if last_name(fn) == "_regenerate_block" and len(args) == 3 and args[2][0] == "L":
            return it._forget(st.set_heap(args[2][1], (("p", "afield"),)), args[2])
        return st
    f, S, tr = closures(ctx, c, "sync_proxy", {"_regenerate_block", "_update_block", "update_fields", "done_queue"}, hook, never={"_regenerate_block", "_update_block"}, effect=filled)
    tag = c.name + ".sync_proxy"
    B = ("p", f.params[2])
    n = m = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        new = True
        lost = 0
        for v in (("p", "v1"), ("p", "v2"), ("p", "v3")):
            ks = isinst(t, v)
            reg = [(i, e) for i, e in calls(t, "_regenerate_block") if e.args[1] == v]
            upd = [(i, e) for i, e in calls(t, "_update_block") if e.args[1] == v]
            if ks.get("Exception") or ks.get("Disconnected"):
                ctx.ob("every-change-is-applied", tag, not reg and not upd, "an error is taken for a value", f.loc(), pl)
                if ks.get("Disconnected"):
                    new = True
                    lost += 1
                continue
            ok = len(reg) == int(new) and len(upd) == int(not new) and all(e.args[0] == B and len(e.args) == 3 for _, e in reg + upd)
            ctx.ob("every-change-is-applied", tag, ok, "%s connection: rebuilt %d, updated %d times" % ("new" if new else "same", len(reg), len(upd)), f.loc(), pl)
            new = False
            n += len(reg)
            m += len(upd)
            for i, e in reg:
                done = [j for j, x in calls(t, "put") if j > i]
                ctx.ob("every-change-is-applied", tag, bool(done), "nobody is told that the block is there", f.loc(), pl)
        mon = next((e for e in t.events if e.kind in ("call", "spawn") and last_name(e.term) == "monitor"), None)
        ctx.ob("asks-what-was-asked", tag, mon is not None and mon.args[0] == ("p", f.params[1]), "monitors %s" % (mon and repr(mon)), f.loc(), pl)
        hv = [e for i, e in calls(t, "set_value") if contains(e.term, ("a", B, "health"))]
        ctx.ob("disconnect-is-shown", tag, len(hv) == lost and all("disconnected" in show(e.kwd("alarm") or NONE) for e in hv), "disconnected %d times, shown %d times" % (lost, len(hv)), f.loc(), pl)
    ctx.ob("every-change-is-applied", tag, n > 0 and m > 0, "never rebuilt or updated", f.loc())
    f, S, tr, it = drive(ctx, c, "_update_block", names={"apply_change", "changedSet"}, noraise=T)
    tag = c.name + "._update_block"
    B, V, U = [("p", x) for x in f.params[1:4]]
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 40)
        ap = [e for i, e in calls(t, "apply_change") if e.term[1] == B]
        els = []
        for e in ap:
            k = next((y for y in walk_term(e.args[0]) if y[0] == "elem"), None)
            ok = k is not None and e.args[0][0] == "call" and last_name(e.args[0][1]) == "split" and contains(e.args[1], ("i", V, k)) and contains(k, V)
            ctx.ob("every-change-is-applied", tag, ok, "%s" % repr(e), f.loc(), pl)
            els.append(k and k[2])
        if ap:
            n += 1
        ctx.ob("every-change-is-applied", tag, els in ([], [0, 1]), "applied %s" % els, f.loc(), pl)
    ctx.ob("every-change-is-applied", tag, n > 0, "never", f.loc())
    f, S, tr, it = drive(ctx, c, "send_put", names={"_ctxt", "put"}, noraise=lambda it, fn, st: last_name(fn) != "put")
    tag = c.name + ".send_put"
    P = [("p", x) for x in f.params[1:4]]
    for t in tr:
        pl = path_lines(t, 40)
        put = [(i, e) for i, e in calls(t, "put")]
        ok = len(put) == 1 and put[0][1].args[0] == P[0] and len(put[0][1].args) > 1
        if ok:
            d = t.state.snap(put[0][1].args[1])
            ok = contains(d, P[2]) and contains(d, P[1])
        ctx.ob("asks-what-was-asked", tag, ok, "puts %s" % [repr(e) for _, e in put], f.loc(), pl)
        if put and failed(t, *put[0]) and t.outcome == "return":
            ex = eq_const(t, P[1], "exports")
            ctx.ob("result-is-passed-on", tag, bool(ex), "a refused put is taken for done", f.loc(), pl)
    f, S, tr, it = drive(ctx, c, "send_post", names={"_ctxt", "rpc"}, noraise=T)
    tag = c.name + ".send_post"
    P = [("p", x) for x in f.params[1:3]]
    for t in tr:
        pl = path_lines(t, 40)
        rpc = [e for i, e in calls(t, "rpc")]
        wrap = [e for i, e in calls(t, "wrap")]
        ok = len(rpc) == 1 and rpc[0].args[0] == P[0] and len(wrap) == 1 and contains(wrap[0].kwd("path") or NONE, P[0]) and contains(wrap[0].kwd("path") or NONE, P[1]) and contains(wrap[0].kwd("kws") or NONE, ("p", "**" + f.node.args.kwarg.arg))
        ok = ok and rpc[0].kwd("timeout") == NONE
        ctx.ob("asks-what-was-asked", tag, ok, "calls %s" % [repr(e) for e in rpc], f.loc(), pl)
        ok = t.outcome == "return" and any(y[0] == "call" and last_name(y[1]) == "rpc" for y in walk_term(t.value))
        ctx.ob("result-is-passed-on", tag, ok, "returns %s" % (t.value and show(t.value)), f.loc(), pl)


def proxy(ctx, c):
    for meth, to in (("get_post_function", "send_post"), ("get_put_function", "send_put")):
        f, S, tr, it = drive(ctx, c, meth, names={"client_comms"}, noraise=T)
        for t in tr:
            if t.outcome != "return":
                continue
            v = t.value
            ok = v[0] in ("call", "partial", "pm") and to in show(v) and contains(v, ("a", S, "mri")) and contains(v, ("p", f.params[1]))
            ctx.ob("asks-what-was-asked", c.name + "." + meth, ok, "gives %s" % show(v), f.loc(), path_lines(t))
    f, S, tr, it = drive(ctx, c, "init", names={"client_comms", "sync_proxy", "publish"}, noraise=T)
    tag = c.name + ".init"
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        sy = [e for i, e in calls(t, "sync_proxy")]
        ok = len(sy) == 1 and sy[0].args == (("a", S, "mri"), ("a", S, "_block"))
        ctx.ob("every-change-is-applied", tag, ok, "%s" % [repr(e) for e in sy], f.loc(), pl)
        pb = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "publish")]
        un = t.value[0] == "new" and t.value[1].endswith("UnpublishedInfo")
        ctx.ob("proxy-is-published-when-asked", tag, len(pb) == 1 and un == (not pb[0]) and (not un or contains(t.value, ("a", S, "mri"))), "publish %s gives %s" % (pb, show(t.value)), f.loc(), pl)


def models(ctx):
    """every change that a model announces can be applied to its mirror"""
    p = ctx.p
    top = p.cls("Model")
    for c in [top] + sorted(p.subclasses(top, strict=True), key=lambda k: k.qual):
        init = p.lookup(c, "__init__")
        names = [x for x in init.params[1:]] if init is not None and init.cls is not None and c.name != "BlockModel" else []
        for n in names:
            s = p.lookup(c, "set_" + n)
            if not ctx.ob("setter-sets-its-endpoint", "%s.set_%s" % (c.name, n), s is not None, "a change of %s can not be applied" % n, init.loc()):
                continue
            setter(ctx, c, n, s)
            applied(ctx, c, [("c", n)], n)
    # deeper changes announced by a class itself
    nt = p.cls("NTTable")
    applied(ctx, nt, [("c", "value"), ("p", "column")], "value", column=True)
    for c in [k for k in p.subclasses(top, strict=True) if k.qual.startswith("malcolm.core.") and k.name in ("TableMeta", "MapMeta")]:
        nested(ctx, c, [("c", "elements"), ("p", "key"), ("c", "label")])
    nested(ctx, p.cls("BlockModel"), [("p", "field"), ("c", "value")])
    nested(ctx, p.cls("NTScalar"), [("c", "meta"), ("c", "label")])


def setter(ctx, c, n, s):
    S = ("o", "self", c.qual)
    q = EQ(names={"set_endpoint_data"}, call=T, cond=T, counts=two, max_iter=2, noraise=T, never={"set_endpoint_data", "set_value_alarm_ts"}, never_if=lambda f: f.name in ("validate", "deserialize_object", "set_table_cls"))
    it = Interp(ctx.p, q)
    tr = it.run(s, c, None)
    ctx.used(it, tr)
    k = 0
    for t in tr:
        if t.outcome != "return":
            continue
        sd = [e for i, e in calls(t, "set_endpoint_data") if e.term[1] == S]
        via = calls(t, "set_value_alarm_ts")
        ok = len(sd) == 1 and sd[0].args[0] == ("c", n) or n == "value" and len(via) == 1 and not sd
        k += 1
        ctx.ob("setter-sets-its-endpoint", "%s.set_%s" % (c.name, n), ok, "sets %s" % [repr(e) for e in sd], s.loc(), path_lines(t))
    ctx.ob("setter-sets-its-endpoint", "%s.set_%s" % (c.name, n), k > 0, "never returns", s.loc())


def apply(ctx, c, path):
    f = ctx.p.method(c, "apply_change")
    q = EQ(names={"apply_change"}, force={"apply_change"}, call=T, cond=T, counts=two, max_iter=2, noraise=T, never_if=lambda g: g.name.startswith("set_") or g.name == "__getitem__")
    it = Interp(ctx.p, q)
    tr = it.run(f, c, {f.params[1]: ("T", tuple(path)), f.node.args.vararg.arg: ("T", (("p", "new"),))})
    ctx.used(it, tr)
    good = []
    for t in tr:
        if all(possible(t, e, path) for e in t.events if e.kind == "cond"):
            good.append(t)
    return f, good


def possible(t, e, path):
    """could this test have come out like this, the path being what it is"""
    x = e.term
    if x[0] == "op" and x[1] == "==":
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if a == ("T", tuple(path)):
                b = t.state.snap(b)
                if b[0] in ("list", "T"):
                    if len(b[1]) != len(path) or any(k[0] == "c" and j[0] == "c" and k != j for k, j in zip(b[1], path)):
                        return not e.extra
                    if all(k == j for k, j in zip(b[1], path)):
                        return bool(e.extra)
    return True


def applied(ctx, c, path, n, column=False):
    S = ("o", "self", c.qual)
    f, tr = apply(ctx, c, path)
    tag = "%s.apply_change(%s)" % (c.name, ".".join(str(x[1]) for x in path))
    for t in tr:
        pl = path_lines(t)
        if t.outcome != "return":
            ctx.ob("announced-change-can-be-applied", tag, False, "fails with %s" % show(t.value), f.loc(), pl)
            continue
        st = [e for i, e in calls(t, "set_" + n) if e.term[1] == S]
        other = [e for e in t.events if e.kind == "call" and str(last_name(e.term)).startswith("set_") and e not in st]
        ok = len(st) == 1 and not other
        if ok and column:
            v = t.state.snap(st[0].args[0])
            ok = contains(v, ("p", "new")) and contains(v, path[1]) and contains(v, ("a", S, "value"))
        elif ok:
            ok = st[0].args[0] == ("p", "new")
        if ok and n == "value":
            ok = (st[0].kwd("set_alarm_ts") or (st[0].args[1] if len(st[0].args) > 1 else NONE)) == ("c", False)
        ctx.ob("announced-change-can-be-applied", tag, ok, "applied by %s" % [repr(e) for e in st + other], f.loc(), pl)
    ctx.ob("announced-change-can-be-applied", tag, bool(tr), "never", f.loc())


def nested(ctx, c, path):
    """a change further down is passed on to the model it is for"""
    S = ("o", "self", c.qual)
    f, tr = apply(ctx, c, path)
    tag = "%s.apply_change(%s)" % (c.name, ".".join(str(x[1]) for x in path))
    m = len(path) == 3
    n = 0
    for t in tr:
        isd = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" and ("dict" in show(e.term[3]) or "apping" in show(e.term[3]))]
        if isd and isd[0] != m:
            continue
        pl = path_lines(t)
        if t.outcome != "return":
            ctx.ob("announced-change-can-be-applied", tag, False, "fails with %s" % show(t.value), f.loc(), pl)
            continue
        n += 1
        ap = [e for i, e in calls(t, "apply_change") if e.term[1] != S]
        ok = len(ap) == 1 and len(ap[0].args) == 2 and ap[0].args[1] == ("p", "new")
        if ok:
            ok = shape(ap[0].term[1], S) == tuple(path[:-1]) and tail(ap[0].args[0], path) == (path[-1],)
        ctx.ob("announced-change-can-be-applied", tag, ok, "passed on by %s" % [repr(e) for e in ap], f.loc(), pl)
    ctx.ob("announced-change-can-be-applied", tag, n > 0, "never passed on", f.loc())


def val(x):
    """value of an index into a literal sequence"""
    if x[0] == "i":
        b = val(x[1])
        k = x[2]
        if b[0] == "T" and k[0] == "c" and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        if b[0] == "T":
            sl = slice_of(k)
            if sl is not None:
                return ("T", b[1][sl])
    return x


def slice_of(k):
    s = show(k)
    if s.startswith("slice(") and s.endswith(")"):
        try:
            a = [None if x.strip() == "None" else int(x) for x in s[6:-1].split(",")]
            return slice(*a)
        except ValueError:
            return None
    return None


def shape(x, S):
    """the path from S down to x, or None"""
    out = []
    while x != S:
        if x[0] == "i":
            out.append(val(x[2]))
        elif x[0] == "a":
            out.append(("c", x[2]))
        else:
            return None
        x = x[1]
    return tuple(reversed(out))


def tail(x, path):
    v = val(x)
    return tuple(v[1]) if v[0] == "T" else None
