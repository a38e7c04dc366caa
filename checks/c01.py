"""Path-sensitive typestate over Controller.handle_request for each of the five request classes and each distinct
controller class: along every path (including every implicit exception) the request's callback is invoked exactly once,
with a response of a kind allowed for that request, built from the request's own id."""
from sa.interp import last_name, show, walk_term
from sa.q import path_lines
from checks.requests import REQUESTS, Traces, controllers


def same_request(x, req):
    """x is the request itself, or the stored Subscribe looked up under the key (request.callback, request.id)"""
    if x == req:
        return True
    key = {("a", req, "callback"), ("a", req, "id")}
    idx = None
    if x[0] == "i":
        idx = x[2]
    elif x[0] == "call" and last_name(x[1]) in ("pop", "get") and x[2]:
        idx = x[2][0]
    return idx is not None and idx[0] == "T" and set(idx[1]) == key


def run(ctx):
    p = ctx.p
    T = Traces(ctx, conds=True)
    allowed = {r: {"Return", "Error"} for r in REQUESTS}
    allowed["Subscribe"] = {"Update", "Delta", "Error"}
    for cls in controllers(p):
        for r in REQUESTS:
            req, traces = T.run(cls, r)
            tag = "%s/%s" % (cls.name, r)
            answered = set()
            for t in traces:
                spawned = [e for e in t.events if e.kind == "spawn"]
                if t.outcome == "raise" and not spawned:
                    ctx.ob("rejected-before-queueing-is-silent", tag,
                           not [e for e in t.events if e.kind == "call" and e.term[0] == "a" and e.term[2] == "callback"],
                           "a response was sent although the caller got an exception", path=path_lines(t))
                    continue
                cbs = [e for e in t.events if e.kind == "call" and e.term[0] == "a" and e.term[2] == "callback"
                       and same_request(e.term[1], req)]
                loc = cbs[-1].loc() if cbs else (t.events[-1].loc() if t.events else "")
                ctx.ob("answered-exactly-once", tag, len(cbs) == 1,
                       "%d responses to one %s on a path" % (len(cbs), r), loc, path_lines(t))
                for e in cbs:
                    a = e.arg(0, "response")
                    kind = a[1].split(".")[-1] if a and a[0] == "new" else show(a) if a else "nothing"
                    answered.add(kind)
                    ok = ctx.ob("response-kind", tag, kind in allowed[r],
                                "%s answered with %s" % (r, kind), e.loc(), path_lines(t))
                    if not ok:
                        continue
                    rid = dict(a[2]).get("id")
                    ctx.ob("response-id", tag, rid is not None and rid[0] == "a" and rid[2] == "id"
                           and same_request(rid[1], req),
                           "response id is %s, not the id of the request" % (show(rid) if rid else None),
                           e.loc(), path_lines(t))
                    if kind == "Error":
                        m = dict(a[2]).get("message")
                        ctx.ob("error-carries-the-failure", tag,
                               m is not None and any(isinstance(x, tuple) and x and x[0] in ("exc", "new") for x in walk_term(m)),
                               "Error message %s is not the exception" % (show(m) if m else None), e.loc(), path_lines(t))
                    if kind in ("Update", "Delta"):
                        d = [c.extra for c in t.events if c.kind == "cond" and c.term == ("a", req, "delta")]
                        ctx.ob("delta-iff-requested", tag, bool(d) and d[-1] == (kind == "Delta"),
                               "%s sent although request.delta is %s" % (kind, d), e.loc(), path_lines(t))
            ctx.ob("success-answer-reachable", tag, bool(answered - {"Error"}),
                   "no path answers a %s with anything but an Error" % r)
    ctx.floor("answered-exactly-once", 60)
    ctx.floor("response-id", 60)
    ctx.floor("delta-iff-requested", 4)
