"""Registration/removal pairing in the subscription tree: every Subscribe is filed under its own key and in exactly one list of
exactly the node its path names, answered from that node's data while the lock is held; Unsubscribe finds it by the same
key, walks the same path, removes that request and nothing else; nodes are only pruned when nothing is subscribed below."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.q import EQ, Interp, path_lines
from checks.requests import Traces, controllers, is_lock

TAIL = ("op", "slice", ("c", 1), ("c", None), ("c", None))
LISTS = ("delta_requests", "update_requests")


def run(ctx):
    keys(ctx)
    node_subscribe(ctx)
    node_unsubscribe(ctx)
    locked(ctx)
    for r, n in (("filed-under-own-key", 1), ("joins-one-list-of-the-named-node", 2), ("removes-only-that-request", 2),
                 ("found-by-the-same-key", 1), ("pruned-only-when-unused", 2), ("registered-and-read-in-one-locked-step", 2)):
        ctx.floor(r, n)


def key_of(t, req):
    return t is not None and t[0] == "T" and len(t[1]) == 2 and set(t[1]) == {("a", req, "callback"), ("a", req, "id")}


def keys(ctx):
    p = ctx.p
    n = p.cls("Notifier")
    selft = ("o", "self", n.qual)

    def go(meth, rc):
        f = p.method(n, meth)
        req = ("o", "request", p.cls(rc).qual)
        q = EQ(names={"generate_key", "callback"}, call=lambda it, fn, a, k, st: last_name(fn) in (
            "__setitem__", "__delitem__", "pop", "get", "handle_subscribe", "handle_unsubscribe", "setdefault", "popitem", "clear"),
            store=lambda it, b, nm, v, st: b == selft, cond=lambda it, t, st: True, force={"generate_key"})
        q.never_inline = lambda g: g.cls is not None and g.cls.name == "NotifierNode"
        it = Interp(p, q)
        tr = it.run(f, n, {f.params[1]: req})
        ctx.used(it, tr)
        return f, req, tr

    f, req, traces = go("handle_subscribe", "Subscribe")
    reg = set()
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        sets = [e for e in t.events if e.kind == "call" and e.name() == "__setitem__" and e.term[1][0] == "a" and e.term[1][1] == selft]
        ctx.ob("filed-under-own-key", "Notifier.handle_subscribe", len(sets) == 1 and key_of(sets[0].args[0], req) and sets[0].args[1] == req,
               "filed %s" % [[show(a) for a in e.args] for e in sets], f.module.rel, pl)
        reg |= {e.term[1] for e in sets}
        calls = [e for e in t.events if e.kind == "call" and e.name() == "handle_subscribe"]
        ok = len(calls) == 1 and calls[0].args == (req, ("i", ("a", req, "path"), TAIL))
        ctx.ob("walks-the-requested-path", "Notifier.handle_subscribe", ok, "tree asked for %s" % [[show(a) for a in e.args] for e in calls], f.module.rel, pl)
        if ok:
            v = t.state.snap(t.value)
            ctx.ob("initial-response-returned", "Notifier.handle_subscribe", returned(v, calls[0].term), "returns %s" % show(v), f.module.rel, pl)
    f, req, traces = go("handle_unsubscribe", "Unsubscribe")
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        looks = [e for e in t.events if e.kind == "call" and e.name() in ("pop", "get", "__delitem__") and e.term[1] in reg]
        pops = [e for e in looks if e.name() in ("pop", "__delitem__")]
        ctx.ob("found-by-the-same-key", "Notifier.handle_unsubscribe", len(pops) == 1 and all(key_of(e.args[0], req) for e in looks),
               "looked up %s" % [[show(a) for a in e.args] for e in looks], f.module.rel, pl)
        calls = [e for e in t.events if e.kind == "call" and e.name() == "handle_unsubscribe"]
        ok = len(calls) == 1
        if ok:
            s = calls[0].args[0]
            ok = ((s[0] == "call" and last_name(s[1]) in ("pop", "get") and s[1][1] in reg and key_of(s[2][0], req)) or
                  (s[0] == "i" and s[1] in reg and key_of(s[2], req))) \
                and calls[0].args[1] == ("i", ("a", s, "path"), TAIL)
        ctx.ob("walks-the-subscribed-path", "Notifier.handle_unsubscribe", ok, "tree asked for %s" % [[show(a) for a in e.args] for e in calls], f.module.rel, pl)
        if calls:
            v = t.state.snap(t.value)
            ctx.ob("initial-response-returned", "Notifier.handle_unsubscribe", returned(v, calls[0].term), "returns %s" % show(v), f.module.rel, pl)


def returned(v, fn):
    return any(isinstance(x, tuple) and x and x[0] == "call" and x[1] == fn for x in walk_term(v))


def node_query(ctx, meth, own):
    p = ctx.p
    n = p.cls("NotifierNode")
    selft = ("o", "self", n.qual)
    f = p.method(n, meth)
    req, path = ("p", f.params[1]), ("p", f.params[2])
    q = EQ(names={"append", "remove", "children"} | set(LISTS), call=lambda it, fn, a, k, st: last_name(fn) in (
        "append", "remove", "insert", "extend", "pop", "clear", "freeze", "update_response", "delta_response", "return_response", "handle_subscribe",
        "handle_unsubscribe", "__setitem__", "__delitem__", "discard"),
        store=lambda it, b, nm, v, st: True, cond=lambda it, t, st: True, ctor={"NotifierNode"} if False else ())
    q.never_inline = lambda g: g.name in ("freeze", "update_response", "delta_response", "return_response") or (g.name == meth)
    it = Interp(p, q)
    tr = it.run(f, n)
    ctx.used(it, tr)
    return f, selft, req, path, tr


def path_truth(t, path):
    for e in t.events:
        if e.kind == "cond":
            if e.term == path:
                return e.extra
            if e.term[:2] == ("op", "==") and ("op", "len", path) in e.term[2:] and ("c", 0) in e.term[2:]:
                return not e.extra
    return None


def node_subscribe(ctx):
    f, selft, req, path, traces = node_query(ctx, "handle_subscribe", True)
    tag = "NotifierNode.handle_subscribe"
    kids = ("a", selft, "children")
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        below = path_truth(t, path)
        apps = [e for e in t.events if e.kind == "call" and e.name() in ("append", "insert") and e.term[1][0] == "a" and e.term[1][2] in LISTS]
        rec = [e for e in t.events if e.kind == "call" and e.name() == "handle_subscribe"]
        if below is None:
            ctx.ob("joins-one-list-of-the-named-node", tag, False, "path not examined", f.module.rel, pl)
            continue
        if below:
            name = ("i", path, ("c", 0))
            ok = not apps and len(rec) == 1 and rec[0].args == (req, ("i", path, TAIL))
            ctx.ob("descends-along-the-path", tag, ok, "passed %s on" % [[show(a) for a in e.args] for e in rec], f.module.rel, pl)
            if not rec:
                continue
            child = rec[0].term[1]
            made = [e for e in t.events if e.kind == "call" and e.name() == "__setitem__" and e.term[1] == kids]
            known = None
            for e in t.events:
                if e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[2] == name and e.term[3] == kids:
                    known = e.extra
                elif e.kind == "cond" and e.term[:2] == ("op", "is") and NONE in e.term[2:] and contains(e.term, kids) and contains(e.term, name):
                    known = not e.extra
            if made:
                ctx.ob("node-made-only-when-missing", tag, known is False and len(made) == 1 and made[0].args[0] == name,
                       "node %s replaced although it may hold subscriptions" % show(name), made[0].loc(), pl)
                v = made[0].args[1]
                d = dict(v[2]).get("data") if v[0] == "new" else None
                ctx.ob("new-node-has-the-data-it-names", tag, d is not None and contains(d, ("a", selft, "data")) and contains(d, name),
                       "new node made with %s" % show(v), made[0].loc(), pl)
                ctx.ob("descends-along-the-path", tag, child == v or child == ("i", kids, name), "goes down to %s" % show(child), rec[0].loc(), pl)
            else:
                ctx.ob("descends-along-the-path", tag, contains(child, kids) and contains(child, name),
                       "goes down to %s" % show(child), rec[0].loc(), pl)
                ctx.ob("node-made-only-when-missing", tag, known is not False or "setdefault" in repr(child), "missing node not made", rec[0].loc(), pl)
            ctx.ob("responses-passed-up", tag, returned(t.state.snap(t.value), rec[0].term), "initial response lost", f.module.rel, pl)
        else:
            delta = [e.extra for e in t.events if e.kind == "cond" and e.term == ("a", req, "delta")]
            ok = len(apps) == 1 and not rec and apps[0].arg(len(apps[0].args) - 1) == req and apps[0].term[1][1] == selft
            ctx.ob("joins-one-list-of-the-named-node", tag, ok, "joined %s" % [show(e.term) for e in apps], f.module.rel, pl)
            if ok:
                ctx.ob("joins-the-list-it-asked-for", tag, bool(delta) and (apps[0].term[1][2] == "delta_requests") == delta[-1],
                       "delta=%s joins %s" % (delta, apps[0].term[1][2]), apps[0].loc(), pl)
            resp = [e for e in t.events if e.kind == "call" and e.name() in ("update_response", "delta_response")]
            data = ("a", selft, "data")
            good = False
            if len(resp) == 1 and resp[0].term[1] == req:
                a = resp[0].arg(0)
                fr = [x for x in walk_term(a) if isinstance(x, tuple) and x and x[0] == "call" and last_name(x[1]) == "freeze"]
                good = len(fr) == 1 and fr[0][2] == (data,)
                if resp[0].name() == "delta_response":
                    good = good and a[0] == "list" and len(a[1]) == 1 and a[1][0][0] == "list" and a[1][0][1][0] == ("list", ()) and a[1][0][1][1] == fr[0]
                else:
                    good = good and a == fr[0]
            ctx.ob("initial-value-is-current-data", tag, good, "initial response %s" % [show(e.arg(0)) for e in resp], f.module.rel, pl)


def node_unsubscribe(ctx):
    f, selft, req, path, traces = node_query(ctx, "handle_unsubscribe", True)
    tag = "NotifierNode.handle_unsubscribe"
    kids = ("a", selft, "children")
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        below = path_truth(t, path)
        rem = [e for e in t.events if e.kind == "call" and e.name() in ("remove", "pop", "clear", "discard") and e.term[1][0] == "a" and e.term[1][2] in LISTS]
        st = [e for e in t.events if e.kind == "store" and e.term[0] == "a" and e.term[2] in LISTS + ("children",)]
        rec = [e for e in t.events if e.kind == "call" and e.name() == "handle_unsubscribe"]
        if below is None:
            ctx.ob("removes-only-that-request", tag, False, "path not examined", f.module.rel, pl)
            continue
        if below:
            name = ("i", path, ("c", 0))
            ok = not rem and not st and len(rec) == 1 and rec[0].args == (req, ("i", path, TAIL)) and contains(rec[0].term[1], kids) and contains(rec[0].term[1], name)
            ctx.ob("descends-along-the-path", tag, ok, "passed %s on" % [[show(a) for a in e.args] for e in rec], f.module.rel, pl)
            if not ok:
                continue
            child = rec[0].term[1]
            ctx.ob("responses-passed-up", tag, returned(t.state.snap(t.value), rec[0].term), "response lost", f.module.rel, pl)
            dels = [(i, e) for i, e in enumerate(t.events) if (e.kind == "call" and e.name() in ("__delitem__", "pop") and e.term[1] == kids)
                    or e.kind == "del" and contains(e.term, kids)]
            after = t.events.index(rec[0])
            ctx.ob("pruned-only-when-unused", tag, len(dels) <= 1, "more than one node pruned", f.module.rel, pl)
            for i, e in dels:
                arg = e.args[0] if e.args else e.term[2]
                ctx.ob("pruned-only-when-unused", tag, arg == name and i > after, "prunes %s" % show(arg), e.loc(), pl)
                empty = set()
                for c in t.events[after:i]:
                    if c.kind == "cond" and c.term[0] == "a" and c.term[1] == child and c.extra is False:
                        empty.add(c.term[2])
                ctx.ob("pruned-only-when-unused", tag, {"children", "update_requests", "delta_requests"} <= empty,
                       "node pruned although only %s were found empty" % sorted(empty), e.loc(), pl)
        else:
            ok = len(rem) == 1 and rem[0].name() in ("remove", "discard") and rem[0].args == (req,) and rem[0].term[1][1] == selft and not st and not rec
            ctx.ob("removes-only-that-request", tag, ok, "removes %s" % [(show(e.term), [show(a) for a in e.args]) for e in rem + st], f.module.rel, pl)
            if ok:
                lst = rem[0].term[1][2]
                known = None
                for e in t.events:
                    if e.kind == "cond" and e.term == ("a", req, "delta"):
                        known = "delta_requests" if e.extra else "update_requests"
                    elif e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[2] == req and e.term[3][0] == "a" and e.term[3][2] in LISTS:
                        other = [x for x in LISTS if x != e.term[3][2]][0]
                        known = e.term[3][2] if e.extra else other
                ctx.ob("removes-from-the-list-it-is-in", tag, known == lst, "removes from %s but it is in %s" % (lst, known), rem[0].loc(), pl)


def locked(ctx):
    """reading the initial value and joining the list happen in one locked step"""
    p = ctx.p
    base = p.cls("Controller")
    T = Traces(ctx, locks=True)
    req = ("o", "request", p.cls("Subscribe").qual)
    q = EQ(names={"callback", "append", "acquire", "release"},
           call=lambda it, fn, a, k, st: last_name(fn) in ("append", "freeze", "acquire", "release"),
           with_=lambda it, t, st: is_lock(t), spawn=True, never={"freeze"}, force={"lock_released"}, max_iter=1, max_recursion=2)
    for cls in controllers(p)[:1]:
        it = Interp(p, q)
        traces = it.run(p.method(cls, "handle_request"), cls, {"request": req})
        ctx.used(it, traces)
        for t in traces:
            d = 0
            region = 0
            where = {}
            for e in t.events:
                if e.kind == "enter" or (e.kind == "call" and e.name() == "acquire"):
                    d += 1
                    if d == 1:
                        region += 1
                elif e.kind == "exit" or (e.kind == "call" and e.name() == "release"):
                    d -= 1
                elif e.kind == "call" and e.name() == "append" and e.term[1][0] == "a" and e.term[1][2] in LISTS:
                    where["join"] = (d, region)
                elif e.kind == "call" and e.name() == "freeze":
                    where["read"] = (d, region)
            if "join" in where:
                ok = where["join"][0] >= 1 and where.get("read") is not None and where["read"][0] >= 1 and where["read"][1] == where["join"][1]
                ctx.ob("registered-and-read-in-one-locked-step", cls.name, ok, "locked regions %s" % where, "", path_lines(t))
