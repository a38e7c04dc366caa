"""Value-provenance and guard analysis of Put/Post (and Get) along every path of Controller.handle_request: which function
is called, under which already-decided guards, with which argument terms, and what is reported afterwards."""
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.q import path_lines
from checks.requests import Traces, controllers


def field_of(t, req):
    """t is the field object looked up by request.path[1] in the block"""
    key = ("i", ("a", req, "path"), ("c", 1))
    return t[0] in ("i", "call") and contains(t, key)


def run(ctx):
    p = ctx.p
    T = Traces(ctx, conds=True)
    for cls in controllers(p):
        proxy = p.lookup(cls, "get_put_function").cls is not p.cls("Controller")
        for r in ("Put", "Post"):
            req, traces = T.run(cls, r)
            tag = "%s/%s" % (cls.name, r)
            key = ("i", ("a", req, "path"), ("c", 1))
            n_writes = 0
            for t in traces:
                ws = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and T.is_writer(e.term)]
                pl = path_lines(t)
                ctx.ob("setter-runs-at-most-once", tag, len(ws) <= 1, "%d setter calls" % len(ws), ws[-1][1].loc() if ws else "", pl)
                rets = [e.arg(0, "response") for e in t.events if e.kind == "call" and e.name() == "callback"]
                rets = [a for a in rets if a and a[0] == "new" and a[1].endswith(".Return")]
                if rets:
                    ctx.ob("return-only-after-setter", tag, bool(ws), "Return sent although the field's setter was not called", "", pl)
                if not ws:
                    ctx.ob("no-log-without-call", tag, not [e for e in t.events if e.kind == "call" and e.name() in ("set_took", "set_returned")],
                           "method log changed although the method was not called", "", pl)
                    continue
                n_writes += 1
                i, e = ws[0]
                before = t.events[:i]
                after = t.events[i + 1:]
                if proxy:
                    args = e.args
                    ctx.ob("forwarded-to-same-field", tag, len(args) >= 2 and args[0] == ("a", ("o", "self", cls.qual), "mri") and args[1] == key
                           and last_name(e.term) == ("send_put" if r == "Put" else "send_post"),
                           "%s forwarded as %s" % (r, show(e.term)), e.loc(), pl)
                    given = args[2:]
                else:
                    ctx.ob("setter-of-named-field", tag, T.writer_key(e.term) == key,
                           "setter looked up with %s instead of the field named in the request" % show(T.writer_key(e.term)), e.loc(), pl)
                    given = e.args
                    ok = any(c.kind == "cond" and c.extra is True and c.term[0] == "a" and c.term[2] == "writeable"
                             and c.term[1][0] == "a" and c.term[1][2] == "meta" and field_of(c.term[1][1], req) for c in before)
                    ctx.ob("writeable-checked-first", tag, ok,
                           "the setter runs on a path where the field's writeable flag was not found true", e.loc(), pl)
                want = {"Put": "AttributeModel", "Post": "MethodModel"}[r]
                ok = any(c.kind == "cond" and c.extra is True and c.term[:2] == ("op", "isinstance")
                         and field_of(c.term[2], req) and contains(c.term[3], ("cls", p.cls(want).qual)) for c in before)
                ctx.ob("field-kind-checked-first", tag, ok, "%s reaches a setter without checking for %s" % (r, want), e.loc(), pl)
                # arguments
                if r == "Put":
                    a = given[0] if len(given) == 1 and not e.kw else None
                    ok = a is not None and a[0] == "call" and last_name(a[1]) == "validate" \
                        and a[1][1][0] == "a" and a[1][1][2] == "meta" and field_of(a[1][1][1], req) \
                        and tuple(a[2]) + tuple(v for _, v in a[3]) == (("a", req, "value"),)
                    ctx.ob("argument-is-validated-value", tag, ok,
                           "setter called with %s" % (show(a) if a else [show(x) for x in e.args]), e.loc(), pl)
                else:
                    src = [v for n, v in e.kw if n == "**"]
                    a = src[0] if len(src) == 1 and len(e.kw) == 1 and not given else None
                    if proxy:
                        # parameters travel as one mapping
                        a = a or (given[0] if len(given) == 1 and not e.kw else None)
                    ok = a is not None and a[0] == "call" and last_name(a[1]) == "validate" \
                        and a[1][1][0] == "a" and a[1][1][2] == "takes" and field_of(a[1][1][1][1], req) \
                        and a[2][:1] == (("a", req, "parameters"),) and len(a[2]) + len(a[3]) == 1
                    ctx.ob("argument-is-validated-value", tag, ok,
                           "method called with %s" % (show(a) if a else [show(x) for x in e.args]), e.loc(), pl)
                # response value
                res = None
                for x in rets:
                    v = dict(x[2]).get("value")
                    is_res = v is not None and v[0] == "call" and v[1] == (e.term if e.term[0] != "partial" else e.term)
                    if proxy and v is not None and v[0] == "call" and last_name(v[1]) == last_name(e.term):
                        is_res = True
                    if r == "Post":
                        ctx.ob("returns-method-result", tag, is_res, "Post answered with %s" % show(v), e.loc(), pl)
                    else:
                        g = [c.extra for c in t.events if c.kind == "cond" and c.term == ("a", req, "get")]
                        got = g[-1] if g else None
                        new = v is not None and v[0] == "call" and v[1] == ("ext", "after")
                        v = v[2][0] if new else v
                        cur = v is not None and v[0] == "a" and v[2] == "value" and field_of(v[1], req)
                        if cur:
                            # looked up again after the setter ran, or read after it
                            was = [c.term[2] for c in before if c.kind == "cond" and c.term[:2] == ("op", "isinstance")]
                            cur = new or v[1] not in was
                        ok = got is not None and ((got and (is_res or cur)) or (not got and v == NONE))
                        ctx.ob("put-returns-value-iff-asked", tag, ok, "get=%s answered with %s" % (got, show(v)), e.loc(), pl)
                if r == "Post" and not proxy:
                    took = [x for x in after if x.kind == "call" and x.name() == "set_took"]
                    retd = [x for x in after if x.kind == "call" and x.name() == "set_returned"]
                    failed = any(x.kind == "raised" and x.term == e.term for x in after)
                    # the only exit that may leave the log incomplete is a failure of building/storing the log itself
                    log_failed = any(x.kind == "raised" and x.name() in ("set_took", "set_returned", "validate") for x in after)
                    if not log_failed:
                        ctx.ob("call-logged-on-every-exit", tag, len(took) == 1 and len(retd) == 1,
                               "took logged %d times, returned logged %d times" % (len(took), len(retd)), e.loc(), pl)
                    for x in retd:
                        m = x.arg(0)
                        al = dict(m[2]).get("alarm") if m and m[0] == "new" else None
                        is_major = al is not None and contains_name(al, "major")
                        if failed:
                            ctx.ob("failed-call-logged-with-alarm", tag, is_major,
                                   "method failed but returned log has alarm %s" % (show(al) if al else None), x.loc(), pl)
                        if rets:
                            ctx.ob("successful-call-logged-ok", tag, not is_major, "method returned but log has alarm", x.loc(), pl)
                    for x in took:
                        m = x.arg(0)
                        d = dict(m[2]) if m and m[0] == "new" else {}
                        v = d.get("value")
                        ctx.ob("took-log-records-arguments", tag, v is not None and contains(v, ("a", req, "parameters")),
                               "took log holds %s" % (show(v) if v else None), x.loc(), pl)
                        ts = d.get("timeStamp")
                        stamped = [j for j, y in enumerate(before) if y.kind == "call" and y.name() == "TimeStamp"]
                        ctx.ob("took-stamped-before-call", tag, ts is not None and ts[0] == "new" and bool(stamped),
                               "took timestamp not made before the call", x.loc(), pl)
            ctx.ob("setter-reachable", tag, n_writes > 0, "no path reaches the setter")
    # Get: the value at exactly the requested path
    for cls in controllers(p):
        req, traces = T.run(cls, "Get")
        tag = "%s/Get" % cls.name
        tail = ("i", ("a", req, "path"), ("op", "slice", ("c", 1), ("c", None), ("c", None)))
        lens = set()
        for t in traces:
            for e in t.events:
                if e.kind != "call" or e.name() != "callback":
                    continue
                a = e.arg(0)
                if not a[1].endswith(".Return"):
                    continue
                v = dict(a[2]).get("value")
                ok = False
                if v is not None and v[0] == "call" and last_name(v[1]) == "freeze":
                    d = v[2][0] if v[2] else None
                    keys = []
                    while d is not None and d[0] == "i":
                        keys.append(d[2])
                        d = d[1]
                    keys.reverse()
                    ok = d is not None and d[0] == "a" and all(
                        k == ("elem", tail, i) or k == ("i", ("a", req, "path"), ("c", i + 1)) for i, k in enumerate(keys))
                    lens.add(len(keys))
                ctx.ob("get-reads-exact-path", tag, ok, "Get answered with %s" % (show(v) if v else None), e.loc(), path_lines(t))
        ctx.ob("get-depths-covered", tag, {0, 1, 2} <= lens, "Get does not descend along the path: depths %s" % sorted(lens))
    for r, n in (("writeable-checked-first", 6), ("argument-is-validated-value", 10), ("call-logged-on-every-exit", 4),
                 ("failed-call-logged-with-alarm", 2), ("get-reads-exact-path", 6), ("put-returns-value-iff-asked", 6)):
        ctx.floor(r, n)


def contains_name(t, n):
    return any(isinstance(x, tuple) and x and x[0] in ("a", "fn", "bm", "ext", "cls") and last_name(x) == n for x in walk_term(t))



def registration(ctx):
    """add_block_field stores the write function under the field's own name; the wrapper passes everything through"""
    p = ctx.p
    from sa.q import EQ, Interp, distinct_classes
    T = Traces(ctx)
    for cls in distinct_classes(p, p.cls("Controller"), ["add_block_field"]):
        f = p.method(cls, "add_block_field")
        q = EQ(names={"set_endpoint_data", "set_writeable"} | T.maps,
               call=lambda it, fn, a, k, st: last_name(fn) in ("__setitem__", "set_endpoint_data", "set_writeable"),
               cond=lambda it, t, st: t in (("p", "writeable_func"), ("p", "needs_context")),
               never={"set_endpoint_data"}, max_iter=1)
        it = Interp(p, q)
        pn = f.params[1:5]
        traces = it.run(f, cls, dict(zip(pn, [("p", "name"), ("p", "child"), ("p", "writeable_func"), ("p", "needs_context")])))
        ctx.used(it, traces)
        for t in traces:
            if t.outcome != "return":
                continue
            tag = cls.name + ".add_block_field"
            pl = path_lines(t)
            w = [c.extra for c in t.events if c.kind == "cond" and c.term == ("p", "writeable_func")]
            n = [c.extra for c in t.events if c.kind == "cond" and c.term == ("p", "needs_context")]
            sets = [e for e in t.events if e.kind == "call" and e.name() == "__setitem__" and e.term[1][0] == "a" and e.term[1][2] in T.maps]
            wr = bool(w and w[-1])
            ctx.ob("writer-registered-iff-given", tag, len(sets) == (1 if wr else 0),
                   "%d write functions registered, writeable_func given: %s" % (len(sets), wr), f.loc() if hasattr(f, "loc") else "", pl)
            for e in sets:
                ctx.ob("writer-registered-under-own-name", tag, e.args[0] == ("p", "name"), "registered under %s" % show(e.args[0]), e.loc(), pl)
                v = e.args[1]
                if n and n[-1]:
                    ok = v[0] == "clo" and wrapper_ok(ctx, it, v, t)
                    ctx.ob("context-wrapper-passes-through", tag, ok, "wrapper does not forward context, arguments and result", e.loc(), pl)
                else:
                    ctx.ob("writer-is-given-function", tag, v == ("p", "writeable_func"), "registered %s" % show(v), e.loc(), pl)
            if wr:
                ctx.ob("writeable-field-marked", tag, any(
                    e.kind == "call" and e.name() == "set_writeable" for e in t.events), "field with a setter is never marked writeable", "", pl)
            ctx.ob("field-added", tag, len([e for e in t.events if e.kind == "call" and e.name() == "set_endpoint_data"
                                            and e.args[:2] == (("p", "name"), ("p", "child"))]) == 1, "field not added to the block exactly once", "", pl)


def wrapper_ok(ctx, it, clo, t):
    f = it.closures[clo[1]]
    res = it.call_func(f, None, [("star", ("p", "A"))], [("**", ("p", "K"))], f.node, t.state, closure=clo)
    good = False
    for k, v, st in res:
        if k == "raise":
            continue
        ok = v[0] == "call" and v[1] == ("p", "writeable_func") and len(v[2]) == 2 and v[2][0][0] == "new" \
            and v[2][0][1].endswith(".Context") and v[2][1] == ("star", ("p", "A")) and v[3] == (("**", ("p", "K")),)
        if not ok:
            return False
        good = True
    return good


_run = run


def run(ctx):  # noqa: F811
    _run(ctx)
    registration(ctx)
    ctx.floor("writer-registered-under-own-name", 2)
    ctx.floor("context-wrapper-passes-through", 1)
