"""Servers (websocket, REST, pvAccess): every path from receiving a request to answering it, with every call in between allowed
to fail: dispatched once with its callback set, or answered once with an error carrying its id; nothing that writes is dispatched
for a client that may not write; bookkeeping of subscription ids; what becomes of each kind of response (closures run symbolically)."""
import ast
from sa.interp import contains, last_name, show, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import two
from checks.c13 import calls, walk_term, same_obj

OPAQUE = ("malcolm.core", "malcolm.modules.pva.controllers.pvaconvert")
T = lambda *a: True


def drive(ctx, c, meth, names=(), never=(), noraise=None, args=None, conds=None, **kw):
    f = ctx.p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=set(names), call=T, cond=T, store=T, with_=T, counts=two, max_iter=2, never=set(never), never_mod=OPAQUE, noraise=noraise, **kw)
    it = Interp(ctx.p, q)
    tr = it.run(f, c, args, conds=conds)
    ctx.used(it, tr)
    return f, S, tr, it


def failed(t, i, e):
    """did this recorded call fail on this path"""
    n = t.events[i + 1] if i + 1 < len(t.events) else None
    return n is not None and n.kind == "raised" and n.term == e.term and n.args == e.args


def isinst(t, obj):
    """{class name: known on this path}"""
    out = {}
    for e in t.events:
        if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" and e.term[2] == obj:
            cs = e.term[3]
            cs = cs[1] if cs[0] == "T" else (cs,)
            for k in cs:
                n = str(k[1]).rsplit(".", 1)[-1]
                if len(cs) == 1 or not e.extra:
                    out[n] = bool(e.extra)
            if len(cs) > 1:
                out[tuple(sorted(str(k[1]).rsplit(".", 1)[-1] for k in cs))] = bool(e.extra)
    return out


def given(e):
    """is there something, as decided by this test"""
    if e.term[:2] == ("op", "is") and e.term[3] == NONE:
        return not e.extra
    return bool(e.extra)


def may_write(ks):
    """can the request be a Put or Post on this path"""
    if any(ks.get(k) for k in ("Subscribe", "Unsubscribe", "Get")):
        return False
    return not (ks.get("Put") is False and ks.get("Post") is False)


def run(ctx):
    ws = ctx.p.cls("MalcWebSocketHandler")
    message(ctx, ws)
    reply(ctx, ws)
    rest(ctx, ctx.p.cls("RestfulHandler"))
    dispatch(ctx)
    pva_put(ctx)
    pva_monitor(ctx)
    channels(ctx)
    pva_convert(ctx)
    for r, n in (("answered-exactly-once", 20), ("read-only-client-changes-nothing", 1), ("answer-has-the-id-of-the-request", 3), ("response-is-sent", 3), ("rest-answers-once", 3), ("pva-answers-once", 6)):
        ctx.floor(r, n)


def calm(it, fn, st):
    # answering, and the validators (made by get_ip_validator: a mask and a comparison)
    return last_name(fn) in ("RequestInfo", "write_message", "json_encode", "to_dict", "Error", "unpack", "exception", "info", "debug", "max", "any", "all") or fn[0] == "elem"


def message(ctx, c):
    f, S, tr, it = drive(ctx, c, "on_message", names={"_id_to_mri", "_writeable", "report", "write_message"}, raises="all", noraise=calm,
                         raises_as=lambda it, fn, st: (("exc", "OSError" if last_name(fn) == "inet_aton" else "any", None),))
    tag = c.name + ".on_message"
    ids = ("a", S, "_id_to_mri")
    n = w = 0
    for t in tr:
        pl = path_lines(t, 60)
        if not ctx.ob("answered-exactly-once", tag, t.outcome == "return", "the handler fails: %s" % (t.value and show(t.value)), f.loc(), pl):
            continue
        rp = [(i, e) for i, e in calls(t, "report") if not failed(t, i, e)]
        wr = calls(t, "write_message")
        ctx.ob("answered-exactly-once", tag, len(rp) + len(wr) == 1, "dispatched %d times and answered %d times with an error" % (len(rp), len(wr)), f.loc(), pl)
        dec = next((e for i, e in calls(t, "json_decode")), None)
        for i, e in wr:
            er = next((y for y in walk_term(e.args[0]) if y[0] == "new" and y[1].endswith("Error")), None)
            d = dict(er[2]) if er else {}
            mid = d.get("id", NONE)
            # was the id known when the error was made
            known = any(x.kind == "call" and last_name(x.term) == "deserialize_object" for x in t.events)
            ok = er is not None and d.get("message", NONE)[0] == "exc"
            if known:
                ok = ok and mid[0] in ("i", "call") and contains(mid, ("c", "id"))
            else:
                ok = ok and (mid == ("c", -1) or mid[0] == "op" and contains(mid, ("c", 1)) or contains(mid, ("c", "id")))
            ctx.ob("answer-has-the-id-of-the-request", tag, ok, "answers %s" % show(e.args[0]), f.loc(), pl)
        if any(isinst(t, y).get("Subscribe") and isinst(t, y).get("Unsubscribe") for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" for y in (e.term[2],)):
            continue        # nothing is both
        kept = [e for i, e in calls(t, "__setitem__") if e.term[1] == ids]
        for i, e in rp:
            n += 1
            info = e.args[0]
            d = dict(info[2]) if info[0] == "new" else {}
            req, mri = d.get("request", NONE), d.get("mri", NONE)
            ok = req[0] == "call" and last_name(req[1]) == "deserialize_object" and len(req[2]) > 1 and str(req[2][1][1]).endswith("Request")
            cb = [j for j, x in calls(t, "set_callback") if x.term[1] == req and x.args == (("bm", S, ctx.p.method(c, "on_response").qual),) or x.term[1] == req and show(x.args[0]).endswith("on_response")]
            ctx.ob("answered-exactly-once", tag, ok and bool(cb) and cb[-1] < i, "%s dispatched without callback" % show(req), f.loc(), pl)
            ks = isinst(t, req)
            path0 = ("i", ("a", req, "path"), ("c", 0))
            mid = [x for x in (e2.args[0] for i2, e2 in calls(t, "pop") if e2.term[1] == ids)]
            if ks.get("Unsubscribe"):
                ok = mri[0] == "call" and last_name(mri[1]) == "pop" and mri[1][1] == ids and contains(mri[2][0], ("c", "id")) or contains(mri, ids) and bool(mid)
                ctx.ob("subscription-ends-where-it-began", tag, ok, "sent to %s" % show(mri), f.loc(), pl)
            else:
                ctx.ob("dispatched-to-its-block", tag, mri == path0, "sent to %s" % show(mri), f.loc(), pl)
                ctx.ob("subscription-ends-where-it-began", tag, not mid, "forgets a subscription", f.loc(), pl)
            if ks.get("Subscribe"):
                dup = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "in" and x.term[3] == ids]
                ctx.ob("subscription-id-is-used-once", tag, dup == [False] and len(kept) == 1 and contains(kept[0].args[0], ("c", "id")) and kept[0].args[1] in (path0, mri), "used before: %s, kept %s" % (dup, [repr(x) for x in kept]), f.loc(), pl)
            else:
                ctx.ob("subscription-id-is-used-once", tag, not kept, "kept %s" % [repr(x) for x in kept], f.loc(), pl)
            # may this client write
            ok = True
            if may_write(ks):
                wc = [x for x in t.events[:i] if x.kind == "cond" and writeable(x.term, S)]
                free = any(x.kind == "store" and x.term == ("a", S, "_writeable") and x.args[0] == ("c", True) for x in t.events[:i])
                ok = free or bool(wc) and bool(wc[-1].extra)
                w += 1
            ctx.ob("read-only-client-changes-nothing", tag, ok, "may be a Put or Post of a client that may not write", f.loc(), pl)
        if not rp:
            ctx.ob("refused-request-leaves-no-trace", tag, not kept, "keeps %s although the request was answered with an error" % [repr(x) for x in kept], f.loc(), pl)
        # who may write
        sw = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", S, "_writeable")]
        vs = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "_validators")]
        for v in sw:
            v = t.state.snap(v)
            if vs and not vs[0]:
                ok = v == ("c", True)
            elif any(failed(t, i, e) for i, e in calls(t, "inet_aton")):
                ok = v == ("c", False)
            else:
                el = {y[2] for y in walk_term(v) if y[0] == "elem" and y[1] == ("a", S, "_validators")}
                ok = v[0] == "call" and last_name(v[1]) in ("max", "any") and el == {0, 1} or v[0] == "op" and v[1] in ("or", "max", "any") and el == {0, 1} or v in (("c", True), ("c", False)) and bool(decided(t, S))
            ctx.ob("who-may-write", tag, ok, "may write: %s" % show(v), f.loc(), pl)
    ctx.ob("read-only-client-changes-nothing", tag, w > 0, "never looked at", f.loc())


def writeable(x, S):
    return x == ("a", S, "_writeable") or x[0] == "call" and last_name(x[1]) in ("max", "any") or contains(x, ("a", S, "_validators")) and x != ("a", S, "_validators")


def decided(t, S):
    return [e for e in t.events if e.kind == "cond" and e.term != ("a", S, "_validators") and contains(e.term, ("a", S, "_validators"))]


def reply(ctx, c):
    f, S, tr, it = drive(ctx, c, "on_response", names={"_queue", "_counter"}, never={"_on_response"})
    tag = c.name + ".on_response"
    rs = ("p", f.params[1])
    for t in tr:
        if t.outcome != "return":
            continue
        cl = [e for i, e in calls(t, "call") if e.args and last_name(e.args[0]) == "_on_response"]
        ctx.ob("response-is-sent", tag, len(cl) == 1 and cl[0].args[1:] == (rs,), "passed on %s" % [repr(e) for e in cl], f.loc(), path_lines(t))
    f, S, tr, it = drive(ctx, c, "_on_response", names={"_id_to_mri", "_queue", "write_message", "report"}, noraise=lambda it, fn, st: last_name(fn) not in ("write_message",))
    tag = c.name + "._on_response"
    rs = ("p", f.params[1])
    ids = ("a", S, "_id_to_mri")
    n = 0
    for t in tr:
        if any(e.kind == "cond" and e.term == ("a", S, "_queue") and not e.extra for e in t.events):
            continue        # made with the handler
        pl = path_lines(t, 40)
        wr = calls(t, "write_message")
        ok = len(wr) == 1 and wr[0][1].args[0][0] == "call" and last_name(wr[0][1].args[0][1]) == "json_encode" and wr[0][1].args[0][2][0] == rs
        ctx.ob("response-is-sent", tag, ok, "sent %s" % [repr(e) for _, e in wr], f.loc(), pl)
        ack = [e for e in t.events if e.kind in ("call", "spawn") and last_name(e.term) in ("Callback", "put") and (last_name(e.term) == "put" or e.args and last_name(e.args[0]) == "put")]
        if t.outcome == "return" or wr:
            ctx.ob("sending-is-acknowledged-once", tag, len(ack) == 1, "acknowledged %d times" % len(ack), f.loc(), pl)
        dead = any(failed(t, i, e) for i, e in wr)
        ks = isinst(t, rs)
        rp = calls(t, "report")
        if not dead:
            ctx.ob("dead-client-is-unsubscribed", tag, not rp, "a living client is unsubscribed", f.loc(), pl)
            continue
        if t.outcome == "raise" and t.value[1] == "any" and len(t.value) > 3 and t.value[3]:
            continue        # not an error of the socket
        ctx.ob("dead-client-is-unsubscribed", tag, t.outcome == "return", "fails with %s" % (t.value and show(t.value)), f.loc(), pl)
        upd = not (ks.get("Delta") is False and ks.get("Update") is False)
        mris = [e for i, e in calls(t, "pop") if e.term[1] == ids]
        if upd:
            known = [given(e) for e in t.events if e.kind == "cond" and contains(e.term, ids)]
            reg = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "_registrar")]
            need = (not known or all(known)) and (not reg or reg[-1])
            ctx.ob("dead-client-is-unsubscribed", tag, len(mris) == 1 and mris[0].args[0] == ("a", rs, "id") and len(rp) == int(need), "unsubscribed %d times" % len(rp), f.loc(), pl)
            for i, e in rp:
                n += 1
                d = dict(e.args[0][2]) if e.args[0][0] == "new" else {}
                u = d.get("request", NONE)
                ok = u[0] == "new" and u[1].endswith("Unsubscribe") and dict(u[2]).get("id") == ("a", rs, "id") and contains(d.get("mri", NONE), ids)
                ok = ok and any(same_obj(x.term[1], u) and show(x.args[0]).endswith("on_response") for j, x in calls(t, "set_callback") if j < i)
                ctx.ob("dead-client-is-unsubscribed", tag, ok, "reports %s" % repr(e), f.loc(), pl)
        else:
            ctx.ob("dead-client-is-unsubscribed", tag, not rp, "unsubscribed after %s" % ks, f.loc(), pl)
    ctx.ob("dead-client-is-unsubscribed", tag, n > 0, "never", f.loc())


def rest(ctx, c):
    for meth, cls in (("get", "Get"), ("post", "Post")):
        f, S, tr, it = drive(ctx, c, meth, names={"_queue", "_registrar", "finish", "set_status", "write_error", "report"}, noraise=T)
        tag = c.name + "." + meth
        for t in tr:
            pl = path_lines(t, 40)
            if t.outcome != "return":
                continue
            rp = calls(t, "report")
            ok = len(rp) == 1
            if ok:
                d = dict(rp[0][1].args[0][2]) if rp[0][1].args[0][0] == "new" else {}
                rq = d.get("request", NONE)
                a = dict(rq[2]) if rq[0] == "new" else {}
                path = a.get("path", NONE)
                ok = rq[0] == "new" and rq[1].endswith("." + cls) and path[0] == "call" and last_name(path[1]) == "split" and path[1][1] == ("p", f.params[1])
                ok = ok and d.get("mri") in (("i", path, ("c", 0)), ("i", ("a", rq, "path"), ("c", 0)))
                if cls == "Post":
                    ok = ok and a.get("parameters", NONE)[0] == "call" and last_name(a["parameters"][1]) == "json_decode" and contains(a["parameters"], ("a", ("a", S, "request"), "body"))
                ok = ok and any(same_obj(x.term[1], rq) and j < rp[0][0] for j, x in calls(t, "set_callback"))
                ctx.ob("rest-dispatches-what-was-asked", tag, ok, "dispatches %s" % repr(rp[0][1]), f.loc(), pl)
            fin = calls(t, "finish")
            err = calls(t, "write_error", "send_error")
            ctx.ob("rest-answers-once", tag, len(rp) == 1 and len(fin) + len(err) == 1 and (fin + err)[0][0] > rp[0][0], "dispatched %d, finished %d, errors %d" % (len(rp), len(fin), len(err)), f.loc(), pl)
            for i, e in fin:
                rs = [x for x in t.events[:i] if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "isinstance" and x.extra and "Return" in show(x.term[3])]
                ok = bool(rs) and any(y[0] == "call" and last_name(y[1]) == "json_encode" and y[2][0] == ("a", rs[-1].term[2], "value") for y in walk_term(e.args[0]))
                ctx.ob("rest-answers-with-the-value", tag, ok, "answers %s" % repr(e), f.loc(), pl)
            for i, e in err:
                bad = [x for x in t.events[:i] if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "isinstance" and not x.extra and "Return" in show(x.term[3])]
                st = [x for j, x in calls(t, "set_status") if j < i]
                ok = bool(bad) and len(st) == 1 and st[0].args[0] == ("c", 500)
                if ok:
                    rsp = bad[-1].term[2]
                    if isinst(t, rsp).get("Error"):
                        ok = contains(st[0].args[1], ("a", rsp, "message"))
                ctx.ob("rest-answers-with-the-error", tag, ok, "answers %s" % [repr(x) for x in st], f.loc(), pl)


def dispatch(ctx):
    """the server block hands the request to the right block, once"""
    p = ctx.p
    top = p.cls("ServerComms")
    done = set()
    for c in [top] + sorted(p.subclasses(top, strict=True), key=lambda k: k.qual):
        h = p.lookup(c, "update_request_received")
        if h is None or h.qual in done:
            continue
        done.add(h.qual)
        f, S, tr, it = drive(ctx, c, "update_request_received", names={"handle_request", "get_controller"}, noraise=T)
        tag = c.name + ".update_request_received"
        info = ("p", f.params[2])
        for t in tr:
            if t.outcome != "return":
                continue
            pl = path_lines(t)
            hr = [e for e in t.events if e.kind in ("call", "spawn") and (last_name(e.term) == "handle_request" or e.args and last_name(e.args[0]) == "handle_request")]
            ok = len(hr) == 1
            if ok:
                e = hr[0]
                direct = last_name(e.term) == "handle_request"
                who = e.term[1] if direct else e.args[0][1]
                what = e.args[0] if direct else e.args[1]
                me = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "==" and ("a", info, "mri") in x.term[2:4]]
                if me and me[0]:
                    ok = who == S
                else:
                    ok = who[0] == "call" and last_name(who[1]) == "get_controller" and who[2] == (("a", info, "mri"),)
                ok = ok and what == ("a", info, "request")
            ctx.ob("dispatched-to-its-block", tag, ok, "%s" % [repr(e) for e in hr], f.loc(), pl)


def closures(ctx, c, meth, names):
    """run an operation with its request answered, the answer being any response"""
    cbs = {}

    def seen(it, fn, a, k, st):
        if last_name(fn) == "set_callback" and fn[0] in ("a", "bm") and a:
            cbs[key(fn[1])] = a[0]
        return True

    def answers(it, fn, a, k, st):
        if last_name(fn) == "handle_request" and a and key(a[0]) in cbs:
            return cbs[key(a[0])], [("p", "response")], []
        return None
    f = ctx.p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=set(names) | {"handle_request", "set_callback"}, call=seen, cond=T, store=T, with_=T, counts=two, max_iter=2, never_mod=OPAQUE, noraise=T, async_call=answers)
    it = Interp(ctx.p, q)
    tr = it.run(f, c, None)
    ctx.used(it, tr)
    return f, S, tr


def key(x):
    return x[3] if x[0] == "new" and len(x) > 3 else x


def pva_put(ctx):
    c = ctx.p.cls("BlockHandler")
    rs = ("p", "response")
    for meth, cls in (("put", "Put"), ("rpc", "Post")):
        f, S, tr = closures(ctx, c, meth, {"done", "value", "put_paths", "convert_value_to_dict"})
        tag = c.name + "." + meth
        op = ("p", f.params[2])
        n = 0
        for t in tr:
            pl = path_lines(t, 60)
            hr = [(i, e) for i, e in enumerate(t.events) if e.kind in ("call", "spawn") and last_name(e.term) == "handle_request"]
            dn = [(i, e) for i, e in calls(t, "done") if e.term[1] == op]
            if t.outcome != "return":
                ctx.ob("pva-answers-once", tag, not hr or not dn, "fails after it was answered", f.loc(), pl)
                continue
            n += 1
            if not ctx.ob("pva-answers-once", tag, len(hr) == 1 and len(dn) == 1, "dispatched %d times, answered %d times" % (len(hr), len(dn)), f.loc(), pl):
                continue
            rq = hr[0][1].args[0]
            d = dict(rq[2]) if rq[0] == "new" else {}
            path = t.state.snap(d.get("path", NONE))
            path = list(path[1]) if path[0] in ("list", "T") else []
            ok = rq[0] == "new" and rq[1].endswith("." + cls) and path[:1] == [("a", ("a", S, "controller"), "mri")]
            if cls == "Put":
                v = d.get("value", NONE)
                ok = ok and v[0] == "i" and v[2] == ("c", "value") and v[1][0] == "call" and last_name(v[1][1]) == "convert_value_to_dict"
                known = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term == ("op", "is", ("a", S, "field"), NONE)]
                src = v[1][2][0] if ok else NONE
                if known and not known[0]:
                    ok = ok and path[1:] == [("a", S, "field"), ("c", "value")] and src[0] == "call" and src[1] == ("a", op, "value")
                else:
                    # a field of the block: the value is that of the field named
                    nm = path[1] if len(path) > 1 else NONE
                    ok = ok and contains(src, ("a", op, "value")) and (not len(path) == 3 or src[0] == "i" and src[2] == nm) and src[0] == "i"
                one = [x for x in t.events if x.kind == "cond" and x.extra and x.term[0] == "op" and x.term[1] == "==" and ("c", 1) in x.term[2:4] and contains(x.term, ("a", S, "put_paths"))]
                ctx.ob("pva-puts-one-field", tag, bool(one), "more than one field may have been changed", f.loc(), pl)
            else:
                nm = path[1] if len(path) > 1 else NONE
                prm = d.get("parameters", NONE)
                ok = ok and len(path) == 2 and prm[0] == "call" and last_name(prm[1]) == "convert_value_to_dict" and contains(prm, ("a", op, "value"))
                ok = ok and any(x.kind == "cond" and x.extra and x.term[0] == "op" and x.term[1] == "isinstance" and "Method" in show(x.term[3]) for x in t.events)
            ctx.ob("pva-dispatches-what-was-asked", tag, ok, "%s path %s" % (show(rq), [show(x) for x in path]), f.loc(), pl)
            ks = isinst(t, rs)
            i, e = dn[0]
            err = e.kwd("error")
            if ks.get("Return"):
                ok = err is None and (cls == "Put" or e.args and any(contains(y, ("a", rs, "value")) for y in walk_term(t.state.snap(e.args[0]))))
                if ok and cls == "Post":
                    wrap = [bool(x.extra) for x in t.events if x.kind == "cond" and any(y[0] == "call" and last_name(y[1]) == "method_return_unpacked" for y in walk_term(x.term))]
                    boxed = any(y[0] in ("dict", "D") for y in walk_term(t.state.snap(e.args[0])))
                    ok = not wrap or boxed == wrap[0]
            elif ks.get("Error"):
                ok = err is not None and contains(err, ("a", rs, "message"))
            else:
                ok = err is not None
            ctx.ob("pva-answers-with-the-result", tag, ok, "%s is answered by %s" % (ks, repr(e)), f.loc(), pl)
        ctx.ob("pva-answers-once", tag, n > 0, "never", f.loc())


def pva_monitor(ctx):
    c = ctx.p.cls("BlockHandler")
    f, S, tr, it = drive(ctx, c, "handle", names={"pv", "value", "changes", "close", "update_path"}, noraise=lambda it, fn, st: last_name(fn) in ("close", "debug", "exception"))
    tag = c.name + ".handle"
    rs = ("p", f.params[1])
    pv = ("a", S, "pv")
    n = m = 0
    for t in tr:
        pl = path_lines(t, 60)
        ctx.ob("pva-monitor-survives", tag, t.outcome == "return", "fails with %s" % (t.value and show(t.value)), f.loc(), pl)
        lock = next((i for i, e in enumerate(t.events) if e.kind == "enter" and e.term == ("a", S, "_lock")), None)
        use = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and contains(e.term, pv)]
        ctx.ob("pva-monitor-is-locked", tag, lock is not None and all(i > lock for i, _ in use), "no lock", f.loc(), pl)
        have = [given(e) for e in t.events if e.kind == "cond" and e.term in (pv, ("op", "is", pv, NONE))]
        if have and not have[0]:
            ctx.ob("pva-follows-every-change", tag, not use, "updated although nobody listens", f.loc(), pl)
            continue
        cl = calls(t, "close")
        opn, post = [x for x in calls(t, "open") if not failed(t, *x)], [x for x in calls(t, "post") if not failed(t, *x)]
        delta = isinst(t, rs).get("Delta")
        isopen = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "isOpen"]
        fresh = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("op", "is", ("a", S, "value"), NONE)]
        ok = len(cl) + len(opn) + len(post) == 1 or isopen == [False] and not opn and not post
        ctx.ob("pva-follows-every-change", tag, ok and (delta or not opn and not post), "opened %d, posted %d, closed %d" % (len(opn), len(post), len(cl)), f.loc(), pl)
        if opn:
            n += 1
            v = opn[0][1].args[0]
            ok = fresh == [True] and contains(v, ("i", ("i", ("a", rs, "changes"), ("c", 0)), ("c", 1)))
            ctx.ob("pva-shows-the-block", tag, ok, "opens with %s" % show(v), f.loc(), pl)
            st = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "put_paths")]
            ctx.ob("pva-shows-the-block", tag, bool(st) and st[-1] < opn[0][0], "what can be put is not known when it is opened", f.loc(), pl)
        if post:
            m += 1
            up = calls(t, "update_path")
            els = {y[2] for i, e in up for a in e.args for y in walk_term(a) if y[0] == "elem" and contains(y[1], ("a", rs, "changes"))}
            ok = els == {0, 1} and all(e.args[0] == ("a", S, "value") and e.args[1][0] == "i" and e.args[1][2] == ("c", 0) and e.args[2] == ("i", e.args[1][1], ("c", 1)) for _, e in up) and all(i < post[0][0] for i, _ in up) and post[0][1].args[0] == ("a", S, "value")
            um = [i for i, e in calls(t, "unmark") if e.term[1] == ("a", S, "value")]
            ok = ok and bool(um) and all(i > um[0] for i, _ in up)
            ctx.ob("pva-shows-the-block", tag, ok, "posts after %s" % [repr(e) for _, e in up], f.loc(), pl)
            for r in (0, 1):
                el = [y for i, e in up for a in e.args for y in walk_term(a) if y[0] == "elem" and y[2] == r][:1]
                if el:
                    c2 = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "==" and ("op", "len", el[0]) in e.term[2:4] and ("c", 2) in e.term[2:4]]
                    c3 = [bool(e.extra) for e in t.events if e.kind == "cond" and contains(e.term, ("i", el[0], ("c", 0)))]
                    ctx.ob("structure-change-reconnects", tag, c2 == [True] and any(c3), "deleted %s root %s" % (c2, c3), f.loc(), pl)
    ctx.ob("pva-shows-the-block", tag, n > 0 and m > 0, "never opened or posted", f.loc())
    # first and last client
    f, S, tr, it = drive(ctx, c, "onFirstConnect", names={"pv"}, noraise=T)
    tag = c.name + ".onFirstConnect"
    for t in tr:
        pl = path_lines(t)
        st = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "pv") and e.args[0] == ("p", f.params[1])]
        hr = calls(t, "handle_request")
        ok = len(hr) == 1 and len(st) == 1 and st[0] < hr[0][0]
        if ok:
            rq = hr[0][1].args[0]
            d = dict(rq[2]) if rq[0] == "new" else {}
            path = t.state.snap(d.get("path", NONE))
            none = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("op", "is", ("a", S, "field"), NONE)]
            want = [("a", ("a", S, "controller"), "mri")] + ([] if none and none[0] else [("a", S, "field")])
            ok = rq[0] == "new" and rq[1].endswith("Subscribe") and d.get("delta") == ("c", True) and path[0] == "list" and list(path[1]) == want
            ok = ok and any(same_obj(x.term[1], rq) and show(x.args[0]).endswith("handle") for j, x in calls(t, "set_callback") if j < hr[0][0])
        ctx.ob("pva-monitor-begins-and-ends", tag, ok, "%s" % [repr(e) for _, e in hr], f.loc(), pl)
    f, S, tr, it = drive(ctx, c, "onLastDisconnect", names={"pv"}, noraise=T)
    tag = c.name + ".onLastDisconnect"
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        st = {e.term[2]: e.args[0] for e in t.events if e.kind == "store" and e.term[0] == "a" and e.term[1] == S}
        hr = calls(t, "handle_request")
        ok = len(hr) == 1 and st.get("pv") == NONE and st.get("value") == NONE
        if ok:
            rq = hr[0][1].args[0]
            ok = rq[0] == "new" and rq[1].endswith("Unsubscribe") and any(same_obj(x.term[1], rq) and show(x.args[0]).endswith("handle") for j, x in calls(t, "set_callback") if j < hr[0][0])
        ctx.ob("pva-monitor-begins-and-ends", tag, ok, "%s stored %s" % ([repr(e) for _, e in hr], {k: show(v) for k, v in st.items()}), f.loc(), pl)


def split_name(x, ch):
    """(0 or 1) when x is the block or the field half of a channel name"""
    if x[0] != "i" or x[1][0] != "call" or x[2][0] != "c":
        return None
    c = x[1]
    if c[1][0] != "a" or c[1][1] != ch or not c[2] or c[2][0] != ("c", "."):
        return None
    k = x[2][1]
    if last_name(c[1]) == "rsplit" and c[2][1:] == (("c", 1),):
        return {0: 0, 1: 1, -1: 1, -2: 0}.get(k)
    if last_name(c[1]) == "rpartition":
        return {0: 0, 2: 1, -1: 1, -3: 0}.get(k)
    return None


def channels(ctx):
    """a channel is offered for every published block and its fields, once each, and is closed when the block goes"""
    c = ctx.p.cls("PvaServerComms")
    f, S, tr, it = drive(ctx, c, "_make_channel", names={"_pvs", "_published"}, noraise=T)
    tag = c.name + "._make_channel"
    ch = ("p", f.params[1])
    n = 0
    pub = ("a", S, "_published")
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        blk = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("op", "in", ch, pub)]
        isname = lambda x: x == ch if blk == [True] else split_name(x, ch) == 0
        isfield = lambda x: x == NONE if blk == [True] else split_name(x, ch) == 1
        v = t.value
        mk = [e for i, e in calls(t, "SharedPV")]
        kept = [e for i, e in calls(t, "__setitem__") if contains(e.term[1], ("a", S, "_pvs"))]
        ok = len(blk) == 1
        if mk:
            n += 1
            h = mk[0].kwd("handler")
            d = dict(h[2]) if h and h[0] == "new" else {}
            who = d.get("controller", NONE)
            ok = ok and len(mk) == 1 and who[0] == "call" and last_name(who[1]) == "get_controller" and isname(who[2][0]) and isfield(d.get("field", NONE))
            ok = ok and len(kept) == 1 and isfield(kept[0].args[0]) and kept[0].args[1][0] == "call" and last_name(kept[0].args[1][1]) == "SharedPV" and v[0] == "call" and last_name(v[1]) == "SharedPV"
            ok = ok and any(isname(y) for y in walk_term(kept[0].term[1]))
        else:
            ok = ok and contains(v, ("a", S, "_pvs")) and any(isname(y) for y in walk_term(v)) and (v[0] == "i" and isfield(v[2]) or v[0] == "call" and last_name(v[1]) == "get" and isfield(v[2][0]))
        lock = [i for i, e in enumerate(t.events) if e.kind == "enter" and e.term == ("a", S, "_lock")]
        ok = ok and bool(lock)
        ctx.ob("pva-one-channel-per-field", tag, ok, "gives %s" % show(v), f.loc(), pl)
    ctx.ob("pva-one-channel-per-field", tag, n > 0, "never made", f.loc())
    f, S, tr, it = drive(ctx, c, "testChannel", names={"_published"}, noraise=T)
    tag = c.name + ".testChannel"
    ch = ("p", f.params[1])
    for t in tr:
        if t.outcome != "return":
            continue
        have = {}
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "in":
                have[e.term[2:]] = bool(e.extra)
        blk = have.get((ch, pub))
        mri = [k for k in have if k[1] == pub and split_name(k[0], ch) == 0]
        v = t.value
        if v == ("c", True):
            ok = bool(blk) or any(have[k] for k in mri)
        elif v == ("c", False):
            ok = blk is False and (have.get((("c", "."), ch)) is False or any(have[k] is False for k in mri))
        else:
            ok = contains(v, pub) and (blk is False and v[:2] == ("op", "in") and split_name(v[2], ch) == 0 or v == ("op", "in", ch, pub) and have.get((("c", "."), ch)) is False)
        ctx.ob("pva-offers-published-blocks", tag, ok, "answers %s" % show(v), f.loc(), path_lines(t))
    f, S, tr, it = drive(ctx, c, "publish", names={"_pvs", "_published", "_pva_server"}, never={"disconnect_pv_clients"}, noraise=T)
    tag = c.name + ".publish"
    pb = ("p", f.params[1])
    pvs = ("a", S, "_pvs")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        st = [t.state.snap(e.args[0]) for e in t.events if e.kind == "store" and e.term == pub]
        ctx.ob("pva-offers-published-blocks", tag, len(st) == 1 and contains(st[0], pb), "publishes %s" % [show(x) for x in st], f.loc(), pl)
        gone = [t.state.snap(e.args[0]) for i, e in calls(t, "disconnect_pv_clients") if e.args]
        els = {}
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "in" and e.term[2][0] == "elem" and e.term[2][1] == pvs:
                els[e.term[2]] = bool(e.extra)
        for el, inside in els.items():
            n += 1
            ok = any(contains(g, el) for g in gone) != inside
            ctx.ob("pva-removed-block-is-disconnected", tag, ok, "%s published: %s, disconnected: %s" % (show(el), inside, [show(g) for g in gone]), f.loc(), pl)
    ctx.ob("pva-removed-block-is-disconnected", tag, n > 0, "never looked at", f.loc())
    f, S, tr, it = drive(ctx, c, "disconnect_pv_clients", names={"_pvs"}, noraise=T)
    tag = c.name + ".disconnect_pv_clients"
    mris = ("p", f.params[1])
    for t in tr:
        if t.outcome != "return":
            continue
        pop = [e.args[0] for i, e in calls(t, "pop") if e.term[1] == pvs]
        cl = [e for i, e in calls(t, "close")]
        els = {y for x in pop for y in walk_term(x) if y[0] == "elem" and y[1] == mris}
        ok = all(contains(e.term[1], pvs) and e.kwd("destroy") == ("c", True) for e in cl) and (not cl or bool(els))
        ctx.ob("pva-removed-block-is-disconnected", tag, ok, "closes %s of %s" % ([repr(e) for e in cl], [show(x) for x in pop]), f.loc(), path_lines(t))
    ctx.ob("pva-removed-block-is-disconnected", tag, any(calls(t, "close") for t in tr), "never closed", f.loc())


# ---------------------------------------------------------------- values on the way to and from pvAccess
MODC = "malcolm.modules.pva.controllers.pvaconvert"
SPEC = {"bool_": "?", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "l", "uint64": "L", "float32": "f", "float64": "d", "str": "s",
        "bool": "?", "int": "l", "float": "d"}
ONE = lambda it, base, st: [1]


def fun(ctx, name, never=()):
    f = ctx.p.funcs[MODC + "." + name]
    q = EQ(names={"value_for_set"}, call=T, cond=T, store=T, counts=ONE, max_iter=1, noraise=T, never=set(never))
    it = Interp(ctx.p, q)
    tr = it.run(f, None, None)
    ctx.used(it, tr)
    return f, tr


def truth(t, test):
    """outcome of the (first) test for which test(term) holds, None if there was none"""
    for e in t.events:
        if e.kind == "cond" and test(e.term):
            return bool(e.extra)
    return None


def eqs(a, b):
    return lambda x: x[0] == "op" and x[1] == "==" and ((a(x[2]) and b(x[3])) or (a(x[3]) and b(x[2])))


def of_kind(t, v, names):
    """is v known (not) to be an instance of one of the classes"""
    got = isinst(t, v)
    hit = [got[k] for k in got if k in names or isinstance(k, tuple) and set(k) <= set(names)]
    if any(hit):
        return True
    return False if all(k in got or any(isinstance(c, tuple) and k in c and got[c] is False for c in got) for k in names) else None


def is_call(x, name, arg=None):
    return x[0] == "call" and last_name(x[1]) == name and (arg is None or any(arg(a) for a in x[2]))


def pva_convert(ctx):
    m = ctx.p.modules[MODC]
    n = 0
    for d in ast.walk(m.tree):
        if isinstance(d, ast.Dict):
            for k, v in zip(d.keys, d.values):
                kn = k.attr if isinstance(k, ast.Attribute) else k.id if isinstance(k, ast.Name) else None
                if kn in SPEC and isinstance(v, ast.Constant):
                    n += 1
                    ctx.ob("pva-type-letters", "%s: %s" % (MODC, kn), v.value == SPEC[kn], "type %s is sent as %r, pvAccess spells it %r" % (kn, v.value, SPEC[kn]), "%s:%d" % (m.path, v.lineno), [])
    # from Value
    f, tr = fun(ctx, "convert_value_to_dict", never={"convert_from_type_spec"})
    tag = "convert_value_to_dict"
    v = ("p", f.params[0])
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        r = t.state.snap(t.value)
        items = r[1] if r[0] == "dict" else ()
        gid = lambda x: is_call(x, "getID")
        plain = truth(t, eqs(gid, lambda x: x == ("c", "structure")))
        tid = [x for k, x in items if k == ("c", "typeid")]
        ctx.ob("pva-converts-typeid", tag, (plain is False and len(tid) == 1 and gid(tid[0])) or (plain is True and not tid), "typeid known plain: %s, given: %s" % (plain, [show(x) for x in tid]), f.loc(), pl)
        els = {y for e in t.events for y in ([e.term] + list(e.args or ())) for y in walk_term(y) if y[0] == "elem" and contains(y, v)} | {("elem", ("call", ("a", v, "type")), 0)}
        lab = truth(t, eqs(gid, lambda x: x[0] == "a" and x[2] == "typeid")) and truth(t, eqs(lambda x: x[0] == "elem", lambda x: x == ("c", "labels")))
        fl = [(k, x) for k, x in items if k != ("c", "typeid")]
        ok = len(fl) == 1 or bool(lab)
        for k, x in fl:
            ok = ok and k[0] == "elem" and contains(k, v) and is_call(x, "convert_from_type_spec") and len(x[2]) == 2 and x[2][1] == ("i", v, k) and (x[2][0] == ("val",) + k[1:])
        ctx.ob("pva-converts-every-field", tag, ok, "fields %s" % ["%s: %s" % (show(k), show(x)) for k, x in fl], f.loc(), pl)
    f, tr = fun(ctx, "convert_from_type_spec", never={"convert_value_to_dict"})
    tag = "convert_from_type_spec"
    sp, v = [("p", x) for x in f.params[:2]]
    for t in tr:
        if t.outcome != "return":
            continue
        r = t.state.snap(t.value)
        st = of_kind(t, sp, ("Type",))
        av = truth(t, eqs(lambda x: x == sp, lambda x: x == ("c", "av")))
        if st:
            ok = is_call(r, "convert_value_to_dict") and r[2] == (v,)
        elif av:
            ok = r[0] in ("list", "T") and len(r[1]) == 1 and is_call(r[1][0], "convert_value_to_dict") and r[1][0][2] == (("elem", v, 0),)
        else:
            ok = r == v and av is False and st is False
        ctx.ob("pva-converts-by-type", tag, ok, "structure %s, list of structures %s: gives %s" % (st, av, show(r)), f.loc(), path_lines(t))
    # to Value
    f, tr = fun(ctx, "convert_to_type_tuple_value", never={"convert_to_type_tuple_value", "convert_dict_to_value"})
    tag = "convert_to_type_tuple_value"
    v = ("p", f.params[0])
    kinds, ids = set(), set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        r = t.state.snap(t.value)
        if not (r[0] == "T" and len(r[1]) == 2):
            ctx.ob("pva-type-fits-value", tag, False, "gives %s" % show(r), f.loc(), pl)
            continue
        s, x = r[1]
        alarm = of_kind(t, v, ("AlarmSeverity", "AlarmStatus"))
        seq = ("a", v, "seq")
        look = lambda y, k: y[0] == "i" and y[1][0] == "g" and y[2] == k
        if s == ("c", "as"):
            ok, k = x[0] == "list" and len(x[1]) == 1 and x[1][0] == ("a", ("elem", seq, 0), "value"), "as"
        elif s == ("c", "av"):
            ok, k = x[0] == "list" and len(x[1]) == 1 and is_call(x[1][0], "convert_dict_to_value") and x[1][0][2][0] in (("elem", seq, 0), ("elem", v, 0)), "av"
        elif s[0] == "op" and s[1] == "+" and s[2] == ("c", "a"):
            ok = look(s[3], ("a", v, "typ")) and x == seq or s[3][0] == "i" and s[3][1][0] == "g" and contains(s[3][2], ("a", v, "dtype")) and x == v
            k = "a"
        elif s[0] == "T":
            k = "S"
            ids |= {y for y in walk_term(s) if y == ("c", "typeid")}
            ok = structure(ctx, f, t, tag, v, s[1], x, pl)
        elif s == ("c", "i"):
            ok, k = x == ("a", v, "value") and alarm is True, "i"
        elif s == ("c", "s") and x == ("a", v, "value"):
            ok, k = of_kind(t, v, ("Enum",)) is True and alarm is False, "enum"
        elif s == ("c", "s"):
            ok, k = x == v and of_kind(t, v, ("str",)) is True, "s"
        else:
            ok, k = s[0] == "i" and s[1][0] == "g" and x == v and (is_call(s[2], "type", lambda y: y == v) or s[2] == ("a", v, "__class__") or s[2][:2] == ("op", "type")), "p"
        kinds.add(k)
        ctx.ob("pva-type-fits-value", tag, ok, "type %s for value %s" % (show(s), show(x)), f.loc(), pl)
    ctx.ob("pva-converts-typeid", tag, bool(ids), "the typeid of a structure is not sent", f.loc())
    ctx.ob("pva-type-fits-value", tag, kinds >= {"as", "av", "a", "S", "i", "enum", "s", "p"}, "kinds of value converted: %s" % sorted(kinds), f.loc())
    f, tr = fun(ctx, "convert_dict_to_value", never={"convert_to_type_tuple_value"})
    tag = "convert_dict_to_value"
    d = ("p", f.params[0])
    for t in tr:
        if t.outcome != "return":
            continue
        r = t.state.snap(t.value)
        none = truth(t, lambda x: x == ("op", "is", d, NONE))
        if none is True:
            ok = r[0] == "g" or is_call(r, "Value")
        else:
            ok = is_call(r, "Value") and len(r[2]) == 2
            if ok:
                ty, val = r[2]
                conv = lambda y: is_call(y, "convert_to_type_tuple_value") and y[2] == (d,)
                ok = val[0] == "i" and val[2] == ("c", 1) and conv(val[1]) and is_call(ty, "Type") and len(ty[2]) == 2
                ok = ok and all(a[0] == "i" and a[2] == ("c", n) and a[1][0] == "i" and a[1][2] == ("c", 0) and conv(a[1][1]) for a, n in zip(ty[2], (2, 1)))
        ctx.ob("pva-type-fits-value", tag, ok, "None %s: gives %s" % (none, show(r)), f.loc(), path_lines(t))
    # a change of part of a value
    f, tr = fun(ctx, "update_path", never={"convert_to_type_tuple_value"})
    tag = "update_path"
    v, p, u = [("p", x) for x in f.params[:3]]
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        st = [e for i, e in calls(t, "__setitem__")]
        n += len(st)
        front = lambda x: x[0] == "i" and x[1] == v and contains(x[2], p) and any(contains(x[2], ("op", "slice", s0, ("c", -1), NONE)) for s0 in (NONE, ("c", 0)))
        ok = len(st) == 1 and front(st[0].term[1]) and st[0].args[0] == ("i", p, ("c", -1)) and st[0].args[1][0] == "i" and st[0].args[1][2] == ("c", 1) and is_call(st[0].args[1][1], "convert_to_type_tuple_value") and st[0].args[1][1][2] == (u,)
        ctx.ob("pva-change-goes-to-its-field", tag, ok, "sets %s" % [repr(e) for e in st], f.loc(), path_lines(t))
    ctx.ob("pva-change-goes-to-its-field", tag, n > 0, "nothing is set", f.loc())
    subnet(ctx)


def structure(ctx, f, t, tag, v, s, x, pl):
    if not (len(s) == 3 and s[0] == ("c", "S") and s[2][0] == "list" and x[0] == "dict"):
        return False
    given = s[1] == ("i", v, ("c", "typeid")) or s[1] == ("c", "structure") or is_call(s[1], "get")
    names = [y[1][0] if y[0] == "T" else y for y in s[2][1]]
    if names != [k for k, _ in x[1]]:
        return False
    skip = truth(t, eqs(lambda y: y == ("elem", v, 0), lambda y: y == ("c", "typeid")))
    fl = 0
    for y, (k, val) in zip(s[2][1], x[1]):
        if k == ("c", "labels"):
            el = ("i", ("i", v, ("c", "meta")), ("c", "elements"))
            if y != ("T", (k, ("c", "as"))) or val[0] not in ("list",) or len(val[1]) != 1 or not contains(val[1][0], el):
                return False
            lab = truth(t, lambda z: z[0] == "i" and z[2] == ("c", "label"))
            if val[1][0][0] == "elem" and lab is not False or val[1][0][0] == "i" and lab is not True:
                return False
            continue
        fl += 1
        conv = lambda z, n: z[0] == "i" and z[2] == ("c", n) and is_call(z[1], "convert_to_type_tuple_value") and z[1][2] in ((("val", v, 0),), (("i", v, ("elem", v, 0)),))
        if k != ("elem", v, 0) or y[0] != "T" or len(y[1]) != 2 or not conv(y[1][1], 0) or not conv(val, 1):
            return False
    return given and (fl == 1) == (skip is False)


def subnet(ctx):
    """the test that a client is on the subnet of an interface"""
    f = next((g for k, g in sorted(ctx.p.funcs.items()) if k.endswith("websocketserverpart.get_ip_validator")), None)
    if f is None:
        return
    q = EQ(names={"get_if_info"}, call=T, cond=T, store=T, counts=two, max_iter=2, noraise=T, never={"get_if_info"})
    it = Interp(ctx.p, q)
    tr = it.run(f, None, None)
    ctx.used(it, tr)
    for t in tr:
        if t.outcome != "return":
            continue
        a = ("p", "remote address")
        node = ast.parse("validator(remoteaddr)").body[0].value
        node.lineno = f.node.lineno
        try:
            outs = [v for k, v, st in it.apply(t.value, [a], [], node, t.state) if k == "ok"]
        except (KeyError, TypeError, ValueError):
            outs = []
        for v in outs:
            for remote, addr, mask in NETS:
                got = value_of(v, a, remote, {0x8915: addr, 0x891B: mask})
                if got is None:
                    continue
                want = remote & mask == addr & mask
                ctx.ob("read-only-client-changes-nothing", "get_ip_validator", bool(got) == want, "client %#x, interface %#x, netmask %#x: %s" % (remote, addr, mask, bool(got)), f.loc(), [show(v)[:200]])


# one client in, and one just out of, the subnet of an interface, for netmasks that end at, and within, a byte
NETS = [(0xC0A80105, 0xC0A80101, 0xFFFFFF00), (0xC0A80205, 0xC0A80101, 0xFFFFFF00), (0x0A000001, 0x0AFFFFFE, 0xFF000000), (0x0B000001, 0x0AFFFFFE, 0xFF000000),
        (0xC0A80141, 0xC0A80142, 0xFFFFFFC0), (0xC0A80181, 0xC0A80142, 0xFFFFFFC0), (0x80A80101, 0xC0A80101, 0xFFFFFF00), (0xC0A80101, 0xC0A80101, 0xFFFFFFFF), (0xC0A80100, 0xC0A80101, 0xFFFFFFFF)]


def value_of(x, a, remote, info):
    """value of a term over the address of the client and what the interface says (None: not known)"""
    if x == a:
        return remote
    if x[0] == "c":
        return x[1]
    if is_call(x, "get_if_info"):
        return next((info[y[1]] for y in x[2] if y[0] == "c" and y[1] in info), None)
    if x[0] == "op" and len(x) in (3, 4):
        vs = [value_of(y, a, remote, info) for y in x[2:]]
        if None in vs:
            return None
        if len(vs) == 1:
            return {"not": lambda p: not p, "~": lambda p: ~p}.get(x[1], lambda p: None)(*vs)
        return {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q, ">>": lambda p, q: p >> q,
                "<=": lambda p, q: p <= q, "<": lambda p, q: p < q, "and": lambda p, q: p and q, "or": lambda p, q: p or q}.get(x[1], lambda p, q: None)(*vs)
    return None
