"""PandABlocks: on every path, each response of the box goes to the request it answers, a put is sent as it was given and only succeeds when the
box accepts it, a change the box reports is shown by the attribute it is for, tables are packed and unpacked alike, and polling goes on."""
from sa.interp import Interp, contains, last_name, show, NONE
from sa.q import EQ, path_lines
from checks.c13 import calls, walk_term
from checks.c15 import failed, is_call
from checks.c17 import deep, facts
from checks.c18 import arg, known, paths
from checks.util import two

ANSWER = "a-response-reaches-its-request"
SENT = "a-put-is-sent-and-accepted"
CHANGE = "a-change-reaches-its-attribute"
TABLE = "a-table-is-packed-as-it-is-unpacked"
POLL = "changes-are-polled-for"


def T(*a):
    return True


def drive(ctx, c, meth, never=(), counts=two, max_iter=2, raising=(), **kw):
    f = ctx.p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(call=T, cond=T, store=T, with_=T, node=T, counts=counts, max_iter=max_iter, never=set(never) - {meth}, noraise=lambda it, fn, st: last_name(fn) not in raising, **kw)
    it = Interp(ctx.p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    return f, S, tr


def run(ctx):
    client = ctx.p.cls("PandABlocksClient")
    send(ctx, client)
    send_loop(ctx, client)
    recv_loop(ctx, client)
    get_lines(ctx, client)
    set_fields(ctx, client)
    set_table(ctx, client)
    get_field(ctx, client)
    get_changes(ctx, client)
    field(ctx)
    table_part(ctx)
    label(ctx)
    action(ctx)
    manager(ctx)
    whole(ctx)
    block(ctx)
    mux(ctx)
    register(ctx)
    metas(ctx)
    busses(ctx)
    columns(ctx)
    puts(ctx)
    packing(ctx)
    polling(ctx)
    startstop(ctx)
    children(ctx)
    lookups(ctx)
    for r, n in ((ANSWER, 40), (SENT, 20), (CHANGE, 60), (TABLE, 6), (POLL, 6)):
        ctx.floor(r, n)


def text(x):
    """the pieces a text is put together from, neighbouring constants joined"""
    def go(x):
        if x[0] == "c" and isinstance(x[1], str):
            return [x[1]]
        if x[0] == "op" and x[1] == "fstr":
            return [y for z in x[2:] for y in go(z)]
        if x[0] == "op" and x[1] == "+" and any(y[0] == "c" and isinstance(y[1], str) or y[0] == "op" and y[1] in ("fstr", "%", "+") for y in x[2:]):
            return [y for z in x[2:] for y in go(z)]
        if x[0] == "op" and x[1] == "%" and x[2][0] == "c" and isinstance(x[2][1], str):
            vs = list(x[3][1]) if x[3][0] == "T" else [x[3]]
            bits = x[2][1].replace("%d", "%s").split("%s")
            if len(bits) == len(vs) + 1 and not any("%" in b for b in bits):
                return [bits[0]] + [y for v, b in zip(vs, bits[1:]) for y in go(v) + [b]]
        if x[0] == "call" and x[1][0] == "a" and x[1][1][0] == "c" and isinstance(x[1][1][1], str):
            n, s = x[1][2], x[1][1][1]
            if n == "join" and len(x[2]) == 1 and x[2][0][0] in ("list", "T"):
                out = []
                for i, y in enumerate(x[2][0][1]):
                    out += ([s] if i else []) + go(y)
                return out
            if n in ("upper", "lower") and not x[2]:
                return [getattr(s, n)()]
            if n == "format" and not x[3] and s.count("{}") == len(x[2]) and s.count("{") == len(x[2]):
                bits = s.split("{}")
                return [bits[0]] + [y for v, b in zip(x[2], bits[1:]) for y in go(v) + [b]]
        if is_call(x, "str") and len(x[2]) == 1 and x[1][0] == "ext":
            return go(x[2][0])
        return [x]
    out = []
    for y in go(x):
        if y == "":
            continue
        if out and isinstance(y, str) and isinstance(out[-1], str):
            out[-1] += y
        else:
            out.append(y)
    return tuple(out)


def given(x):
    """an argument without the parentheses of a one element call"""
    return x


def starts(fs, x, s):
    """does the text start with s, in any spelling"""
    for k, v in fs.items():
        if is_call(k, "startswith") and k[1][0] == "a" and k[1][1] == x and k[2] == (("c", s),):
            return v
        if k[0] == "op" and k[1] == "==" and ("c", s) in k[2:]:
            o = k[3] if k[2] == ("c", s) else k[2]
            if o[0] == "i" and o[1] == x and (len(s) == 1 and o[2] == ("c", 0) or o[2] in (("op", "slice", NONE, ("c", len(s)), NONE), ("op", "slice", ("c", 0), ("c", len(s)), NONE))):
                return v
    return None


def ends(fs, x, s):
    for k, v in fs.items():
        if is_call(k, "endswith") and k[1][0] == "a" and k[1][1] == x and k[2] == (("c", s),):
            return v
        if k[0] == "op" and k[1] == "==" and ("c", s) in k[2:]:
            o = k[3] if k[2] == ("c", s) else k[2]
            if o[0] == "i" and o[1] == x and (len(s) == 1 and o[2] == ("c", -1) or o[2] == ("op", "slice", ("c", -len(s)), NONE, NONE)):
                return v
    return None


def eq(fs, a, b):
    for k in (("op", "==", a, b), ("op", "==", b, a)):
        if k in fs:
            return fs[k]
    for k in (("op", "!=", a, b), ("op", "!=", b, a)):
        if k in fs:
            return not fs[k]
    return None


def isin(fs, a, b):
    v = fs.get(("op", "in", a, b))
    if v is None and ("op", "not in", a, b) in fs:
        return not fs[("op", "not in", a, b)]
    return v


def site(e):
    """the result of a call"""
    return e.result if hasattr(e, "result") else None


def on(e, base):
    return e.term[0] in ("a", "bm") and e.term[1] == base


def send(ctx, c):
    f, S, tr = drive(ctx, c, "send")
    for t, fs, pl in paths(tr):
        q = [e for i, e in calls(t, "put") if on(e, ("a", S, "_send_queue"))]
        x = deep(t, arg(q[0], 0, "item")) if len(q) == 1 else NONE
        good = t.outcome == "return" and x[0] == "T" and len(x[1]) == 2 and x[1][0] == ("p", f.params[1]) and x[1][1] == deep(t, t.value) and x[1][1][0] in ("call", "new")
        ctx.ob(ANSWER, "send", good, "queues %s, returns %s" % (show(x), show(t.value)), f.loc(), pl)
    f, S, tr = drive(ctx, c, "recv")
    for t, fs, pl in paths(tr):
        q = [e for i, e in calls(t, "get") if on(e, ("p", f.params[1]))]
        exc = [v for k, v in fs.items() if k[0] == "op" and k[1] == "isinstance" and "Exception" in show(k[3])]
        if exc and exc[0]:
            ctx.ob(ANSWER, "recv of an error", t.outcome == "raise", "an error is returned", f.loc(), pl)
        else:
            good = len(q) == 1 and exc == [False] and t.outcome == "return" and is_call(t.value, "get") and t.value[1][1] == ("p", f.params[1])
            ctx.ob(ANSWER, "recv", good, "%s %s" % (t.outcome, show(t.value)), f.loc(), pl)
        ctx.ob(ANSWER, "recv waits no longer than asked", all(arg(e, 1, "timeout") == ("p", f.params[2]) for e in q), "waits without the timeout", f.loc(), pl)
    f, S, tr = drive(ctx, c, "send_recv", never={"send", "recv"})
    for t, fs, pl in paths(tr):
        v = t.value
        good = t.outcome == "return" and is_call(v, "recv") and v[2] and is_call(v[2][0], "send") and v[2][0][2] == (("p", f.params[1]),) and len(calls(t, "send")) == 1
        ctx.ob(ANSWER, "send_recv", good, "%s %s" % (t.outcome, show(v)), f.loc(), pl)


def send_loop(ctx, c):
    f, S, tr = drive(ctx, c, "_send_loop", raising={"sendall"})
    Q, R, K = ("a", S, "_send_queue"), ("a", S, "_response_queues"), ("a", S, "_socket")
    n = 0
    for t, fs, pl in paths(tr):
        got, now = [], None
        for e in t.events:
            if e.kind == "call" and e.name() == "get" and on(e, Q):
                now = [None, 0, 0, e]
                got.append(now)
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] in ("is", "==") and ("a", S, "STOP") in e.term[2:] and now:
                now[0] = bool(e.extra)
                now.append(next(y for y in e.term[2:] if y != ("a", S, "STOP")))
            if e.kind == "call" and now and now[0] is False:
                m = now[4]
                if e.name() == "put" and on(e, R):
                    q = arg(e, 0, "item")
                    ctx.ob(ANSWER, "_send_loop", now[1] == 0 and now[2] == 0 and m[0] == "i" and m[2] == ("c", 0) and q == ("i", m[1], ("c", 1)),
                           "expects the answer for %s" % show(q), f.loc(), pl)
                    now[1] += 1
                if e.name() in ("sendall", "send") and on(e, K):
                    x = arg(e, 0, "data")
                    ctx.ob(ANSWER, "_send_loop", now[1] == 1 and now[2] == 0 and (x == m or is_call(x, "encode") and x[1][1] == m), "sends %s %s its answer is expected" % (show(x), "after" if now[1] else "before"), f.loc(), pl)
                    now[2] += 1
                    n += 1
        ctx.ob(ANSWER, "_send_loop ends", t.outcome == "return" and got and got[-1][0] is True, "ends with %s though not told to stop" % t.outcome, f.loc(), pl)
        for g in got[:-1]:
            ctx.ob(ANSWER, "_send_loop each", g[0] is False and g[1] == 1 and g[2] == 1, "request was sent %d times, answer expected %d times" % (g[2], g[1]), f.loc(), pl)
    ctx.ob(ANSWER, "_send_loop sends", n, "nothing is sent", f.loc(), ())


def recv_loop(ctx, c):
    f, S, tr = drive(ctx, c, "_recv_loop", never={"_get_lines"}, max_iter=4, counts=lambda it, b, st: [3])
    R = ("a", S, "_response_queues")
    seen = set()
    for t, fs, pl in paths(tr):
        lines, resp = [], []
        src = None
        for e in t.events:
            if e.kind == "call" and e.name() == "_get_lines":
                src = e
            for x in [e.term] + list(e.args):
                for y in walk_term(x):
                    if (y[0] == "elem" or is_call(y, "next")) and "_get_lines" in show(y) and y not in lines:
                        lines.append(y)
                        resp.append([])
            if e.kind == "call" and e.name() == "put" and is_call(e.term[1], "get") and e.term[1][1][0] == "a" and e.term[1][1][1] == R:
                if lines:
                    resp[-1].append(deep(t, arg(e, 0, "item")) if arg(e, 0, "item")[0] != "list" else arg(e, 0, "item"))
        if any(is_call(k[2], "startswith") and v for k, v in fs.items() if k[0] == "op" and k[1] == "is" and NONE in k[2:]):
            continue
        held, multi = [], False
        for n, x in enumerate(lines):
            bang, dot, err = starts(fs, x, "!"), eq(fs, x, ("c", ".")), starts(fs, x, "ERR")
            if sum(bool(y) for y in (bang, dot, err)) > 1:
                break
            last = n == len(lines) - 1
            if err:
                want, kind = "err", "error"
            elif dot:
                want, kind = ("list", tuple(held)), "end"
            elif bang:
                want, kind = None, "part"
            elif multi or err is None or (bang is None and dot is None):
                if err and not resp[n] or not err and not multi and dot is False and not bang and last and t.outcome == "raise":
                    ctx.ob(ANSWER, "_recv_loop", False, "a line after a whole response is refused", f.loc(), pl)
                if resp[n]:
                    ctx.ob(ANSWER, "_recv_loop", False, "responds to a line without telling what it is: %s" % show(resp[n][0]), f.loc(), pl)
                break
            else:
                want, kind = x, "single"
            r = resp[n]
            seen.add((kind, bool(held)))
            if want is None:
                ctx.ob(ANSWER, "_recv_loop part", not r, "responds before the end of a response", f.loc(), pl)
            elif not r:
                ctx.ob(ANSWER, "_recv_loop " + kind, last and t.outcome == "return", "no response passed on", f.loc(), pl)
            else:
                good = len(r) == 1 and (is_call(r[0], "ValueError") and x in r[0][2] if want == "err" else r[0] == want)
                ctx.ob(ANSWER, "_recv_loop " + kind, good, "response %s to lines %s" % (", ".join(map(show, r)), kind), f.loc(), pl)
            if kind == "part":
                held.append(("i", x, ("op", "slice", ("c", 1), NONE, NONE)))
                multi = True
            else:
                held, multi = [], False
    for k in (("error", False), ("end", False), ("end", True), ("part", False), ("part", True), ("single", False), ("error", True)):
        ctx.ob(ANSWER, "_recv_loop covers " + k[0], k in seen, "no path where a line is %s%s" % (k[0], " of a response under way" if k[1] else ""), f.loc(), ())


def get_lines(ctx, c):
    f, S, tr = drive(ctx, c, "_get_lines")
    most = 0
    for t, fs, pl in paths(tr):
        buf = ("c", "")
        ys = [e for i, e in calls(t, "<yield>")]
        for n, e in enumerate(ys):
            x = arg(e, 0)
            sp = next((y for y in walk_term(x) if is_call(y, "split") and y[2] == (("c", "\n"),)), None)
            if sp is None:
                continue
            whole, cut = ("i", sp, ("op", "slice", NONE, ("c", -1), NONE)), [1 for i, o in calls(t, "pop") if on(o, sp) and not o.args]
            good = x[0] == "elem" and x[1] == whole or x == whole or cut and (x == sp or x[0] == "elem" and x[1] == sp)
            ctx.ob(ANSWER, "_get_lines", good, "yields %s" % show(x), f.loc(), pl)
            b = sp[1][1]
            if n and sp == prev:
                continue
            if n == 0:
                ok = b == ("c", "") or is_rx(b, S)
            else:
                rest = ("i", prev, ("c", -1))
                ok = b[0] == "op" and b[1] == "+" and (b[2] == rest or is_call(b[2], "pop") and b[2][1][1] == prev) and is_rx(b[3], S)
            ctx.ob(ANSWER, "_get_lines keeps the rest", ok, "splits %s" % show(b), f.loc(), pl)
            prev = sp
        most = max(most, len(ys))
        stop = [v for k, v in fs.items() if is_rx(k, S)]
        ctx.ob(ANSWER, "_get_lines ends", t.outcome == "return" and (not stop or stop[-1] is False or any(not v for v in stop)), "ends though there was more", f.loc(), pl)
    ctx.ob(ANSWER, "_get_lines goes on", most > 1, "only reads once", f.loc(), ())


def is_rx(x, S):
    return any(is_call(y, "recv") and y[1][0] == "a" and y[1][1] == ("a", S, "_socket") for y in walk_term(x)) and is_call(x, "decode")


def set_fields(ctx, c):
    f, S, tr = drive(ctx, c, "set_fields", never={"send", "recv"}, raising={"recv"})
    v = ("p", f.params[1])
    n = 0
    for t, fs, pl in paths(tr, "return"):
        n += 1
        sent = [e for i, e in calls(t, "send")]
        msgs = [text(deep(t, arg(e, 0, "message"))) for e in sent]
        want = [(("elem", v, i), "=", ("val", v, i), "\n") for i in range(2)]
        ctx.ob(SENT, "set_fields", msgs == want, "sends %s" % "; ".join("".join(y if isinstance(y, str) else show(y) for y in m) for m in msgs), f.loc(), pl)
        ok = []
        for k, b in fs.items():
            if b and k[0] == "op" and k[1] == "==" and ("c", "OK") in k[2:]:
                o = k[3] if k[2] == ("c", "OK") else k[2]
                if is_call(o, "recv") and is_call(o[2][0], "send"):
                    ok.append(text(o[2][0][2][0]))
        ctx.ob(SENT, "set_fields accepted", sorted(map(str, ok)) == sorted(map(str, want)), "succeeds when %d of 2 fields were accepted" % len(ok), f.loc(), pl)
    ctx.ob(SENT, "set_fields succeeds", n, "never succeeds", f.loc(), ())
    f, S, tr = drive(ctx, c, "set_field", never={"set_fields"})
    for t, fs, pl in paths(tr):
        b, k, v = (("p", x) for x in f.params[1:4])
        cs = [e for i, e in calls(t, "set_fields")]
        d = deep(t, arg(cs[0], 0)) if len(cs) == 1 else NONE
        good = t.outcome == "return" and d[0] == "dict" and len(d[1]) == 1 and text(d[1][0][0]) == (b, ".", k) and d[1][0][1] == v
        ctx.ob(SENT, "set_field", good, "sets %s" % show(d), f.loc(), pl)


def set_table(ctx, c):
    f, S, tr = drive(ctx, c, "set_table", never={"send", "recv", "send_recv"})
    b, k, v = (("p", x) for x in f.params[1:4])
    n = 0
    for t, fs, pl in paths(tr, "return"):
        n += 1
        sent = [e for i, e in calls(t, "send_recv", "send")]
        m = text(deep(t, arg(sent[0], 0, "message"))) if len(sent) == 1 else ()
        want = (b, ".", k, "<\n", ("elem", v, 0), "\n", ("elem", v, 1), "\n\n")
        ctx.ob(SENT, "set_table", m == want, "sends %s" % "".join(y if isinstance(y, str) else show(y) for y in m), f.loc(), pl)
        ok = [x for k2, x in fs.items() if k2[0] == "op" and k2[1] == "==" and ("c", "OK") in k2[2:]]
        ctx.ob(SENT, "set_table accepted", ok == [True], "succeeds without OK", f.loc(), pl)
    ctx.ob(SENT, "set_table succeeds", n, "never succeeds", f.loc(), ())


def get_field(ctx, c):
    f, S, tr = drive(ctx, c, "get_field", never={"send_recv"})
    b, k = (("p", x) for x in f.params[1:3])
    n = 0
    for t, fs, pl in paths(tr, "return"):
        n += 1
        v = t.value
        good = v[0] == "i" and v[2] == ("op", "slice", ("c", 4), NONE, NONE) and is_call(v[1], "send_recv") and text(v[1][2][0]) == (b, ".", k, "?\n") and starts(fs, v[1], "OK =")
        ctx.ob(ANSWER, "get_field", good, "returns %s" % show(v), f.loc(), pl)
    ctx.ob(ANSWER, "get_field succeeds", n, "never succeeds", f.loc(), ())


def get_changes(ctx, c):
    f, S, tr = drive(ctx, c, "get_changes", never={"send", "recv", "send_recv"})
    seen = set()
    for t, fs, pl in paths(tr):
        ctx.ob(CHANGE, "get_changes", t.outcome == "return", "ends with %s" % t.outcome, f.loc(), pl)
        src = next((e for i, e in calls(t, "send_recv")), None)
        if src is None or text(arg(src, 0)) != ("*CHANGES?\n",):
            ctx.ob(CHANGE, "get_changes", False, "doesn't ask for the changes", f.loc(), pl)
            continue
        ys = []
        for i, e in calls(t, "<yield>"):
            x = deep(t, arg(e, 0))
            ys.append((x[1][0], x[1][1]) if x[0] == "T" and len(x[1]) == 2 else (NONE, NONE))
        lines = []
        for e in t.events:
            for x in [e.term] + list(e.args):
                lines += [y for y in walk_term(x) if y[0] == "elem" and is_call(y[1], "send_recv") and y not in lines]
        errs = known(fs, ("p", f.params[1]))
        ctx.ob(CHANGE, "get_changes each", t.outcome != "return" or len(lines) == 2, "looks at %d of 2 lines" % len(lines), f.loc(), pl)
        for x in lines:
            e, tab, bad = isin(fs, ("c", "="), x), ends(fs, x, "<"), ends(fs, x, "(error)")
            mine = [(a, b) for a, b in ys if contains(a, x)]
            if e:
                sp = ("split", ("c", "=")), ("partition", ("c", "="))
                good = len(mine) == 1 and half(mine[0][0], x, 0) and half(mine[0][1], x, 1)
                kind = "value"
            elif e is None:
                continue
            elif tab:
                name = ("i", x, ("op", "slice", NONE, ("c", -1), NONE))
                mine = [(a, b) for a, b in mine if b != NONE]
                good = len(mine) == 1 and mine[0][0] == name and is_call(mine[0][1], "recv") and is_call(mine[0][1][2][0], "send") and text(mine[0][1][2][0][2][0]) == (name, "?\n")
                kind = "table"
            elif bad and errs:
                good = len(mine) == 1 and last_name(mine[0][1]) == "Exception"
                kind = "error"
            else:
                good = not mine
                kind = "other"
            seen.add(kind)
            ctx.ob(CHANGE, "get_changes " + kind, good, "a %s line gives %s" % (kind, ", ".join("(%s, %s)" % (show(a), show(b)) for a, b in mine) or "nothing"), f.loc(), pl)
    for k in ("value", "table"):
        ctx.ob(CHANGE, "get_changes covers " + k, k in seen, "no %s line handled" % k, f.loc(), ())


def half(x, line, n, sep="="):
    if x[0] != "i" or x[1][0] != "call" or x[1][1][0] != "a" or x[1][1][1] != line:
        return False
    m, a = x[1][1][2], x[1][2] + tuple(v for k, v in x[1][3] if k == "maxsplit")
    if m == "split":
        return a == (("c", sep), ("c", 1)) and x[2] in (("c", n), ("c", n - 2))
    return m == "partition" and a == (("c", sep),) and x[2] in (("c", n * 2), ("c", n * 2 - 3))


def shown(t, attr):
    """what the attribute is set to: [(event, value, alarm, time stamp)]"""
    out = []
    for i, e in calls(t, "set_value", "set_value_alarm_ts"):
        if on(e, attr):
            if e.name() == "set_value":
                out.append((i, deep(t, arg(e, 0, "value")), arg(e, 2, "alarm"), arg(e, 3, "ts")))
            else:
                out.append((i, deep(t, arg(e, 0, "value")), arg(e, 1, "alarm"), arg(e, 2, "ts")))
    return out


def alarm_ok(x):
    return x is not None and "ok" == last_name(x) or x == NONE


def field(ctx):
    c = ctx.p.cls("PandAFieldPart")
    f, S, tr = drive(ctx, c, "handle_change", never={"validate", "set_value", "set_value_alarm_ts"})
    v, ts = ("p", f.params[1]), ("p", f.params[2])
    attr, pend = ("a", S, "attr"), ("a", S, "pending_change")
    n = 0
    for t, fs, pl in paths(tr):
        us = shown(t, attr)
        p = known(fs, pend)
        done = [e for e in t.events if e.kind == "store" and e.term == pend and e.args == (("c", False),)]
        if not us:
            same = [b for k, b in fs.items() if k[0] == "op" and k[1] == "==" and ("a", attr, "value") in k[2:]]
            ctx.ob(CHANGE, "field change ignored", t.outcome == "return" and p and same == [True], "a change that is no echo of a put is ignored", f.loc(), pl)
        else:
            i, x, al, st = us[0]
            good = len(us) == 1 and is_call(x, "validate") and x[2] == (v,) and alarm_ok(al) and st == ts
            ctx.ob(CHANGE, "field change", good, "shows %s alarm %s at %s" % (show(x), show(al), show(st)), f.loc(), pl)
            n += 1
        if p:
            ctx.ob(CHANGE, "field change after a put", done, "the changes after the next one are taken as an echo too", f.loc(), pl)
    ctx.ob(CHANGE, "field change shown", n, "never shown", f.loc(), ())
    f, S, tr = drive(ctx, c, "set_field", never={"set_field", "set_fields", "set_value", "set_value_alarm_ts"}, raising={"set_field", "set_fields"})
    v = ("p", f.params[1])
    n = 0
    for t, fs, pl in paths(tr):
        sent = [(i, e) for i, e in calls(t, "set_field") if on(e, ("a", S, "client"))]
        us = shown(t, attr)
        if t.outcome != "return":
            ctx.ob(SENT, "field put refused", not us, "shows the value though it was refused", f.loc(), pl)
            continue
        n += 1
        flag = [b for k, b in fs.items() if k[0] == "op" and k[1] == "isinstance" and k[2] == ("a", S, "meta") and last_name(k[3]) == "BooleanMeta"]
        x = arg(sent[0][1], 2, "value") if len(sent) == 1 else NONE
        whole = is_call(x, "int") and x[2] == (v,)
        good = len(sent) == 1 and sent[0][1].args[:2] == (("a", S, "block_name"), ("a", S, "field_name")) and (whole if flag and flag[0] else x == v and flag == [False])
        ctx.ob(SENT, "field put", good, "sends %s of a %s field" % (show(x), "boolean" if flag and flag[0] else "possibly boolean" if not flag else "plain"), f.loc(), pl)
        good = len(us) == 1 and sent and us[0][0] > sent[0][0] and us[0][1] in (v, x)
        ctx.ob(SENT, "field put shown", good, "shows %s" % ", ".join(show(u[1]) for u in us), f.loc(), pl)
        if sent:
            marks = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == pend and e.args == (("c", True),)]
            ctx.ob(SENT, "field put echo", not [i for i in marks if i > sent[0][0]], "the echo is expected after the box may have given it", f.loc(), pl)
    ctx.ob(SENT, "field put succeeds", n, "never succeeds", f.loc(), ())


def table_part(ctx):
    c = ctx.p.cls("PandATablePart")
    f, S, tr = drive(ctx, c, "handle_change", never={"table_from_list", "set_value", "set_value_alarm_ts"})
    for t, fs, pl in paths(tr):
        us = shown(t, ("a", S, "attr"))
        good = t.outcome == "return" and len(us) == 1 and is_call(us[0][1], "table_from_list") and us[0][1][2] == (("p", f.params[1]),) and alarm_ok(us[0][2]) and us[0][3] == ("p", f.params[2])
        ctx.ob(CHANGE, "table change", good, "shows %s" % ", ".join(show(u[1]) for u in us), f.loc(), pl)
    f, S, tr = drive(ctx, c, "set_field", never={"list_from_table", "set_table", "set_value", "set_value_alarm_ts"})
    for t, fs, pl in paths(tr):
        sent = [e for i, e in calls(t, "set_table") if on(e, ("a", S, "client"))]
        x = deep(t, arg(sent[0], 2)) if len(sent) == 1 else NONE
        good = t.outcome == "return" and len(sent) == 1 and sent[0].args[:2] == (("a", S, "block_name"), ("a", S, "field_name")) and is_call(x, "list_from_table") and x[2] == (("p", f.params[1]),)
        ctx.ob(SENT, "table put", good, "sends %s" % show(x), f.loc(), pl)


def label(ctx):
    c = ctx.p.cls("PandALabelPart")
    f, S, tr = drive(ctx, c, "handle_change", never={"set_value", "set_value_alarm_ts", "set_field", "set_fields", "report"})
    v = ("p", f.params[1])
    attr = ("a", S, "attr")
    for t, fs, pl in paths(tr):
        us = shown(t, attr)
        want = v if known(fs, v) else ("a", S, "initial_value")
        ctx.ob(CHANGE, "label change", t.outcome == "return" and known(fs, v) is not None and len(us) == 1 and us[0][1] == want and us[0][3] == ("p", f.params[2]),
               "shows %s" % ", ".join(show(u[1]) for u in us), f.loc(), pl)
        ctx.ob(CHANGE, "label change told", len(calls(t, "report")) == 1, "the block's label isn't told", f.loc(), pl)
        ctx.ob(CHANGE, "label change not sent back", not calls(t, "set_field", "set_fields"), "sends the label back", f.loc(), pl)
    f, S, tr = drive(ctx, c, "set_label", never={"set_value", "set_value_alarm_ts", "set_field", "set_fields", "report"})
    v = ("p", f.params[1])
    for t, fs, pl in paths(tr):
        us = shown(t, attr)
        sent = [e for i, e in calls(t, "set_field") if on(e, ("a", S, "client"))]
        x = arg(sent[0], 2, "value") if len(sent) == 1 else NONE
        good = len(sent) == 1 and sent[0].args[:2] == (("c", "*METADATA"), ("a", S, "metadata_field")) and x in (v, ("a", attr, "value")) and len(us) == 1 and us[0][1] == v
        ctx.ob(SENT, "label put", t.outcome == "return" and good, "sends %s" % show(x), f.loc(), pl)


def action(ctx):
    f, S, tr = drive(ctx, ctx.p.cls("PandAActionPart"), "set_field", never={"set_field", "set_fields"})
    for t, fs, pl in paths(tr):
        sent = [e for i, e in calls(t, "set_field") if on(e, ("a", S, "client"))]
        good = t.outcome == "return" and len(sent) == 1 and sent[0].args == (("a", S, "block_name"), ("a", S, "field_name"), ("c", ""))
        ctx.ob(SENT, "action", good, "%d fields set" % len(sent), f.loc(), pl)


def sets(t, base=None, name=None):
    """keys given values in a mapping: [(base, key, value)]"""
    out = []
    for i, e in calls(t, "__setitem__"):
        if e.term[0] == "a" and (base is None or e.term[1] == base):
            out.append((e.term[1], deep(t, e.args[0]), deep(t, e.args[1])))
    return out


def manager(ctx):
    c = ctx.p.cls("PandAManagerController")
    f, S, tr = drive(ctx, c, "_handle_change", never={"set_layout"})
    k, v, bus, blk, bits = (("p", x) for x in f.params[1:6])
    outs, later = ("a", S, "_bit_outs"), ("a", S, "_bit_out_changes")
    seen = set()
    for t, fs, pl in paths(tr):
        if t.outcome != "return":
            ctx.ob(CHANGE, "_handle_change", False, "ends with %s" % show(t.value), f.loc(), pl)
            continue
        flag = next((y for e in t.events for x in [e.term] + list(e.args) for y in walk_term(x) if (is_call(y, "int") or is_call(y, "bool")) and contains(y, v)), None)
        V = next((y for e in t.events for x in [e.term] + list(e.args) for y in walk_term(x) if (is_call(y, "bool") or y[0] == "op" and y[1] == "bool") and contains(y, v)), None)
        B = [x for b, kk, x in sets(t, bus) if kk == k]
        D = [x for b, kk, x in sets(t, later) if kk == k]
        W = [x for b, kk, x in sets(t, outs) if kk == k]
        new = [("i", blk, deep(t, e.args[0])) for i, e in calls(t, "__setitem__") if on(e, blk) and e.args[1] == ("dict", ())]
        Y = [(kk, x, new[0] if len(new) == 1 and b[0] in ("D", "dict") else b) for b, kk, x in sets(t) if b not in (bus, later, outs) and (contains(b, blk) or kk != k) and x != ("dict", ())]
        want = v
        if flag is not None:
            if V is None or not is_call(flag, "int") and not contains(V, flag):
                ctx.ob(CHANGE, "_handle_change bit", False, "a bit is not made a boolean", f.loc(), pl)
                continue
            once = eq(fs, ("i", bits, k), V)
            now = eq(fs, V, ("i", outs, k))
            if once is None and now is None:
                for q in fs:
                    if q[0] == "op" and q[1] in ("==", "!=") and V in q[2:]:
                        o = q[3] if q[2] == V else q[2]
                        b = fs[q] == (q[1] == "==")
                        if contains(o, bits):
                            once = b
                        elif contains(o, outs):
                            now = b
            if once is not None:
                seen.add(("deferred", once))
                ctx.ob(CHANGE, "_handle_change bit changed twice", not B and not Y and not W and (D == [] if once else D == [V]),
                       "a second change of a bit in one update %s" % ("is lost" if not once and not D else "is not left for the next update"), f.loc(), pl)
                continue
            if now is None:
                ctx.ob(CHANGE, "_handle_change bit", False, "a bit is not compared with what is shown", f.loc(), pl)
                continue
            want = ("op", "not", V) if now else V
            seen.add(("bit", now))
            ctx.ob(CHANGE, "_handle_change bit", D == ([V] if now else []) and W == [want], "a bit reported as %s: now %s, next update %s" % ("what is shown" if now else "changed", ", ".join(map(show, W)), ", ".join(map(show, D))), f.loc(), pl)
        inb = isin(fs, k, ("a", S, "_bus_fields"))
        ctx.ob(CHANGE, "_handle_change bus", inb is not None and B == ([want] if inb else []), "busses told %s" % ", ".join(map(show, B)), f.loc(), pl)
        sp = [y for e in t.events for y in walk_term(e.term) if is_call(y, "split") and y[1][0] == "a" and y[1][1] == k]
        name = ("i", sp[0], ("c", 0)) if sp else NONE
        fld = ("i", sp[0], ("c", 1)) if sp else NONE
        meta = eq(fs, name, ("c", "*METADATA"))
        if meta is None:
            ctx.ob(CHANGE, "_handle_change block", False, "metadata and fields are not told apart", f.loc(), pl)
            continue
        if not meta:
            seen.add("field")
            good = len(Y) == 1 and Y[0][0] == fld and Y[0][1] == want and contains(Y[0][2], name)
        elif starts(fs, fld, "LABEL_"):
            seen.add("label")
            good = len(Y) == 1 and Y[0][1] == want and (Y[0][0] == ("c", "LABEL") or half(Y[0][0], fld, 0, "_")) and any(
                half(y, fld, 1, "_") or y[0] == "i" and y[1] == fld and y[2][:2] == ("op", "slice") and y[2][2] in (("c", 6), ("call", ("ext", "builtins.len"), (("c", "LABEL_"),), (), "pure"), ("op", "len", ("c", "LABEL_"))) and y[2][3] == NONE for y in walk_term(Y[0][2]))
        elif eq(fs, fld, ("c", "LAYOUT")):
            st = [e for e in t.events if e.kind == "store" and e.term == ("a", S, "_json_layout")]
            some = known(fs, v) if flag is None else True
            if flag is not None:
                continue
            seen.add("layout")
            if some:
                x = deep(t, st[0].args[0]) if len(st) == 1 else NONE
                good = is_call(x, "loads") and text(x[2][0]) == text(("call", ("a", ("c", ""), "join"), (v,), (), ())) or is_call(x, "loads") and is_call(x[2][0], "join") and x[2][0][2] == (v,) and x[2][0][1][1] == ("c", "")
                lay = known(fs, ("a", ("a", ("a", S, "layout"), "value"), "name"))
                if lay:
                    good = good and len(calls(t, "set_layout")) == 1
            else:
                good = not st
        else:
            good = not Y
        ctx.ob(CHANGE, "_handle_change block", good, "block told %s" % "; ".join("%s = %s" % (show(a), show(b)) for a, b, _ in Y), f.loc(), pl)
    for x in (("deferred", False), ("bit", True), ("bit", False), "field", "label", "layout"):
        ctx.ob(CHANGE, "_handle_change covers %s" % (x,), x in seen, "not handled", f.loc(), ())


def whole(ctx):
    c = ctx.p.cls("PandAManagerController")
    f, S, tr = drive(ctx, c, "handle_changes", never={"_handle_change"}, never_if=lambda f: f.name == "handle_changes" and "Manager" not in f.qual)
    later, outs = ("a", S, "_bit_out_changes"), ("a", S, "_bit_outs")
    ch = ("p", f.params[1])
    for t, fs, pl in paths(tr):
        hs = [(i, e) for i, e in calls(t, "_handle_change")]
        told = [(deep(t, arg(e, 0)), deep(t, arg(e, 1))) for i, e in hs]
        want = [(("i", ("elem", ch, n), ("c", 0)), ("i", ("elem", ch, n), ("c", 1))) for n in range(2)]
        ctx.ob(CHANGE, "handle_changes each", t.outcome == "return" and told == want, "handles %s" % ", ".join(show(a) for a, b in told), f.loc(), pl)
        for n in range(2):
            kk, vv = ("elem", later, n), ("val", later, n)
            new = [e for e in t.events if e.kind == "store" and e.term == later]
            ctx.ob(CHANGE, "handle_changes bits set back", (outs, kk, vv) in sets(t, outs), "a bit to be set back isn't", f.loc(), pl)
            ctx.ob(CHANGE, "handle_changes bits set back once", len(new) == 1 and deep(t, new[0].args[0])[0] in ("dict", "D"), "the bits to be set back are kept", f.loc(), pl)
        bus = [e for i, e in calls(t, "handle_changes") if on(e, ("a", S, "busses"))]
        kids = [(i, e) for i, e in calls(t, "handle_changes") if not on(e, ("a", S, "busses"))]
        last = max([i for i, e in hs] or [0])
        d = bus[0].args[0] if len(bus) == 1 else NONE
        bk = [k for k in (d[1] if d[0] == "dict" else ())]
        good = len(bus) == 1 and all((("elem", later, n), ("val", later, n)) in bk for n in range(2)) and is_stamp(deep(t, arg(bus[0], 1)))
        ctx.ob(CHANGE, "handle_changes busses", good, "busses told %s" % show(d), f.loc(), pl)
        got = set()
        for i, e in kids:
            who = e.term[1]
            name = who[2] if who[0] == "i" and who[1] == ("a", S, "_child_controllers") else NONE
            x = e.args[0]
            for n in range(2):
                k = ("elem", later, n)
                if contains(name, k) and x[0] == "dict" and any(contains(a, k) and b == ("val", later, n) for a, b in x[1]) and is_stamp(deep(t, arg(e, 1))) and i > last:
                    got.add(n)
        ctx.ob(CHANGE, "handle_changes blocks", got == {0, 1} and len(kids) == 2, "%d of 2 blocks told" % len(got), f.loc(), pl)
        ctx.ob(CHANGE, "handle_changes collects", all(len({str(deep0(e.args[n])) for i, e in hs}) == 1 for n in (2, 3, 4) if hs and len(hs[0][1].args) > 4), "changes collected apart", f.loc(), pl)


def deep0(x):
    return x


def is_stamp(x):
    return "TimeStamp" in show(x)


def block(ctx):
    c = ctx.p.cls("PandABlockController")
    f, S, tr = drive(ctx, c, "handle_changes", never={"handle_change", "update_health", "_handle_mux_update", "update_icon", "set_value", "changes_squashed", "HealthInfo", "major", "SVGIcon"})
    ch, ts = ("p", f.params[1]), ("p", f.params[2])
    parts, icon = ("a", S, "field_parts"), ("a", S, "icon_part")
    seen = set()
    for t, fs, pl in paths(tr, "return"):
        if any(k[0] == "op" and k[1] == "isinstance" and k[2] == ch and not v for k, v in fs.items()):
            continue
        need = False
        inside = [i for i, e in enumerate(t.events) if e.kind == "enter" and "changes_squashed" in show(e.term)]
        for n in range(2):
            k, v = ("elem", ch, n), ("val", ch, n)
            hs = [e for i, e in calls(t, "handle_change") if contains(e.term[1], k)]
            ups = [e for i, e in calls(t, "update_health") if n == idx(t, e, ch, k, v)]
            he = [b for q, b in fs.items() if q[0] == "op" and q[1] == "==" and ("c", "HEALTH") in q[2:] and any(contains(y, k) for y in q[2:])]
            if not he:
                ctx.ob(CHANGE, "block health", False, "the health is not told apart", f.loc(), pl)
                continue
            if he[0]:
                seen.add("health")
                ok = [b for q, b in fs.items() if q[0] == "op" and q[1] == "==" and ("c", "OK") in q[2:] and any(contains(y, v) for y in q[2:])]
                infos = [deep(t, arg(e, 1)) for i, e in calls(t, "update_health")]
                good = not hs and ok and (any(contains(x, v) and not "Alarm.ok" in show(x) and contains(x, ts) for x in infos) if not ok[0] else any("Alarm.ok" in show(x) and contains(x, ts) for x in infos))
                ctx.ob(CHANGE, "block health", good, "health %s shown as %s" % ("OK" if ok and ok[0] else "not OK", ", ".join(map(show, infos))), f.loc(), pl)
                continue
            none = [b for q, b in fs.items() if b and q[0] == "op" and q[1] == "is" and NONE in q[2:] and any(contains(y, k) and contains(y, parts) for y in q[2:])]
            none += [1 for q, b in fs.items() if not b and (q[0] == "i" and q[1] == parts and q[2] == k or is_call(q, "get") and q[1][1] == parts and q[2][0] == k)]
            none += [1 for q, b in fs.items() if q == ("op", "in", k, parts) and not b]
            none += [1 for i, e in calls(t, "exception", "warning", "error", "info", "debug") if any(contains(deep(t, a), k) for a in e.args)]
            if none:
                seen.add("unknown")
                ctx.ob(CHANGE, "block unknown field", not hs, "a field without a part is handled", f.loc(), pl)
                continue
            seen.add("field")
            good = len(hs) == 1 and (hs[0].term[1] == ("i", parts, k) or is_call(hs[0].term[1], "get") and hs[0].term[1][1][1] == parts) and hs[0].args == (v, ts)
            ctx.ob(CHANGE, "block field", good, "%d parts told %s" % (len(hs), ", ".join(show(e.args[0]) for e in hs if e.args)), f.loc(), pl)
            mx = [e for i, e in calls(t, "_handle_mux_update") if contains(arg(e, 0), k)]
            if mx:
                seen.add("mux")
            ctx.ob(CHANGE, "block mux", len(mx) < 2 and all(contains(arg(e, 0), ("a", S, "mux_metas")) and arg(e, 1) == v for e in mx), "link set to %s" % ", ".join(show(arg(e, 1)) for e in mx), f.loc(), pl)
            need = need or isin(fs, k, ("a", icon, "update_fields"))
        ups = [e for i, e in calls(t, "set_value") if on(e, ("a", icon, "attr"))]
        if need:
            seen.add("icon")
            ctx.ob(CHANGE, "block icon", len(ups) == 1 and arg(ups[0], 3, "ts") == ts and len(calls(t, "update_icon")) == 1, "the icon is not updated", f.loc(), pl)
        ctx.ob(CHANGE, "block together", len(inside) == 1 and all(i > inside[0] for i, e in calls(t, "handle_change")), "changes are not shown together", f.loc(), pl)
    for x in ("health", "field", "unknown", "mux", "icon"):
        ctx.ob(CHANGE, "block covers " + x, x in seen, "not handled", f.loc(), ())


def idx(t, e, ch, k, v):
    return None


def mux(ctx):
    c = ctx.p.cls("PandABlockController")
    f, S, tr = drive(ctx, c, "_handle_mux_update", never={"without_linked_value_tags", "linked_value_tag", "set_tags", "snake_to_camel"})
    m, v = ("p", f.params[1]), ("p", f.params[2])
    seen = set()
    for t, fs, pl in paths(tr):
        st = [e for i, e in calls(t, "set_tags") if on(e, m)]
        links = [e for i, e in calls(t, "linked_value_tag")]
        two_ = [b for q, b in fs.items() if q[0] == "op" and q[1] == "==" and ("c", 2) in q[2:]]
        good = t.outcome == "return" and len(st) == 1 and len([1 for i, e in calls(t, "without_linked_value_tags") if arg(e, 0) == ("a", m, "tags")]) == 1
        ctx.ob(CHANGE, "mux link replaced", good, "tags set %d times" % len(st), f.loc(), pl)
        if not two_:
            continue
        seen.add(two_[0])
        if two_[0]:
            a = links[0].args if len(links) == 1 else ()
            good = len(a) == 2 and text(a[0])[:2] == (("a", S, "mri_prefix"), ":") and len(text(a[0])) == 3 and last_i(text(a[0])[2]) in (0, -2) and is_call(a[1], "snake_to_camel") and any(
                last_i(y) in (1, -1) for y in walk_term(a[1]))
            ctx.ob(CHANGE, "mux link", good, "links to %s" % ", ".join(map(show, a)), f.loc(), pl)
        else:
            ctx.ob(CHANGE, "mux link removed", not links, "links to something", f.loc(), pl)
    ctx.ob(CHANGE, "mux covers", True in seen, "no link made", f.loc(), ())


def last_i(x):
    return x[2][1] if x[0] == "i" and x[2][0] == "c" and is_call(x[1], "split") else None


def register(ctx):
    c = ctx.p.cls("PandABlockController")
    for meth, cls in (("_make_field_part", "PandAFieldPart"), ("_make_table", "PandATablePart")):
        f, S, tr = drive(ctx, c, meth, never={"add_part", "set_tags", "set_writeable", "_make_group", "config_tag", "PandAFieldPart", "PandATablePart", "TableMeta", "__init__", "tag"})
        n = ("p", f.params[1])
        for t, fs, pl in paths(tr, "return"):
            mk = [e for i, e in calls(t, cls)]
            ss = sets(t, ("a", S, "field_parts"))
            ad = [deep(t, arg(e, 0)) for i, e in calls(t, "add_part")]
            good = len(mk) == 1 and arg(mk[0], 0, "client") == ("a", S, "client") and arg(mk[0], 2, "block_name") == ("a", S, "block_name") and arg(mk[0], 3, "field_name") == n
            ctx.ob(CHANGE, meth, good, "makes %s" % ", ".join(map(repr, mk)), f.loc(), pl)
            ctx.ob(CHANGE, meth + " told", len(ss) == 1 and ss[0][1] == n and ad == [ss[0][2]], "field %s of %d parts" % (", ".join(show(a[1]) for a in ss), len(ad)), f.loc(), pl)


KINDS = {"enum": ("ChoiceMeta", None), "bit": ("BooleanMeta", None), "uint": ("NumberMeta", "uint32"), "": ("NumberMeta", "uint32"), "int": ("NumberMeta", "int32"), "pos": ("NumberMeta", "int32"),
         "scalar": ("NumberMeta", "float64"), "lut": ("StringMeta", None)}


def metas(ctx):
    f = ctx.p.funcs["malcolm.modules.pandablocks.controllers.pandablockcontroller.make_meta"]
    for kind, (cls, dt) in sorted(KINDS.items()):
        q = EQ(call=T, cond=T, store=T, with_=T, node=T, counts=two, max_iter=2, never={"set_writeable", "set_tags", "default_widget", "tag", "__init__"}, noraise=T)
        it = Interp(ctx.p, q)
        tr = it.run(f, None, {f.params[0]: ("c", kind)})
        ctx.used(it, tr)
        ok = [t for t in tr if t.outcome == "return"]
        ctx.ob(CHANGE, "make_meta %r" % kind, ok, "refused", f.loc(), ())
        for t in ok:
            mk = [e for i, e in calls(t, "ChoiceMeta", "BooleanMeta", "NumberMeta", "StringMeta")]
            good = len(mk) == 1 and mk[0].name() == cls and (dt is None or arg(mk[0], 0, "dtype") == ("c", dt)) and (kind != "enum" or ("p", "labels") in list(mk[0].args) + [b for a, b in mk[0].kw])
            ctx.ob(CHANGE, "make_meta %r" % kind, good, "is a %s" % ", ".join(map(repr, mk)), f.loc(), path_lines(t))
            wr = [e for i, e in calls(t, "set_writeable")]
            ctx.ob(CHANGE, "make_meta writeable", len(wr) == 1 and arg(wr[0], 0) == ("p", "writeable"), "writeable isn't set as asked", f.loc(), path_lines(t))


def one(it, b, st):
    return [1]


def cells(t):
    """cells changed in columns of the tables: [(table, column, row, value)]"""
    out = []
    for b, k, v in sets(t):
        cols = [y for y in walk_term(b) if is_call(y, "getattr") or y[0] == "a" and y[1][0] == "a" and y[1][2] == "value"]
        if is_call(b, "update_column"):
            a = b[2]
            out.append((a[2], a[1], k, v))
    return out


def busses(ctx):
    c = ctx.p.cls("PandABussesPart")
    never = {"make_updated_table", "update_column", "set_value", "set_value_alarm_ts", "PositionCapture"}
    # a bit
    f, S, tr = drive(ctx, c, "_handle_bit", never=never)
    name, v, ch = (("p", x) for x in f.params[1:4])
    some = 0
    for t, fs, pl in paths(tr, "return"):
        cs = cells(t)
        if not cs:
            ctx.ob(CHANGE, "bus bit not ours", not truthy(t.value), "says it was handled", f.loc(), pl)
        else:
            some += 1
            x = cs[0]
            good = len(cs) == 1 and x[0] == ("a", ("a", S, "bits"), "value") and x[1] == ("c", "value") and row(x[2], ("a", S, "_bit_indexes"), name) and x[3] == v and truthy(t.value)
            ctx.ob(CHANGE, "bus bit", good, "sets row %s to %s" % (show(x[2]), show(x[3])), f.loc(), pl)
    ctx.ob(CHANGE, "bus bit shown", some, "never shown", f.loc(), ())
    # whether its words are captured
    f, S, tr = drive(ctx, c, "_handle_pcap", never=never)
    name, v, ch = (("p", x) for x in f.params[1:4])
    some = 0
    for t, fs, pl in paths(tr, "return"):
        cs = cells(t)
        if not cs:
            ctx.ob(CHANGE, "bus capture not ours", not truthy(t.value), "says it was handled", f.loc(), pl)
        else:
            some += 1
            rows = []
            for x in cs:
                val = x[3]
                no = val in (("op", "!=", v, ("c", "No")), ("op", "not", ("op", "==", v, ("c", "No")))) or val == ("c", True) and eq(fs, v, ("c", "No")) is False or val == ("c", False) and eq(fs, v, ("c", "No")) is True
                ctx.ob(CHANGE, "bus capture", x[0] == ("a", ("a", S, "bits"), "value") and x[1] == ("c", "capture") and no and truthy(t.value), "sets %s of %s to %s" % (show(x[1]), show(x[2]), show(val)), f.loc(), pl)
                if x[2][0] == "elem" and contains(x[2], ("a", S, "_pcap_bit_indexes")) and contains(x[2], name):
                    rows.append(x[2][2])
            ctx.ob(CHANGE, "bus capture of each bit", rows == [0, 1], "sets %d of 2 bits" % len(rows), f.loc(), pl)
    ctx.ob(CHANGE, "bus capture shown", some, "never shown", f.loc(), ())
    # a position
    f, S, tr = drive(ctx, c, "_handle_pos", never=never)
    name, v, ch = (("p", x) for x in f.params[1:4])
    tab, pv = ("a", ("a", S, "positions"), "value"), ("a", S, "_pos_values")
    seen = set()
    for t, fs, pl in paths(tr, "return"):
        cs = cells(t)
        if not cs:
            ctx.ob(CHANGE, "bus position not ours", not truthy(t.value), "says it was handled", f.loc(), pl)
            continue
        if known(fs, ("a", S, "positions")) is False:
            continue
        vals = [x for x in cs if x[1] == ("c", "value")]
        x = vals[0] if len(vals) == 1 else None
        good = x is not None and x[0] == tab and row(x[2], ("a", S, "_pos_indexes"), name) and truthy(t.value)
        lens = [b for q, b in fs.items() if q[0] == "op" and q[1] == "==" and ("c", 2) in q[2:]]
        raw = None
        if good:
            i, val = x[2], x[3]
            st = [b for a, kk, b in sets(t, pv) if kk == i]
            raw = (st[-1],) if st else (("i", pv, i),)
            raw = raw + (("i", pv, i),)
            good = val[0] == "op" and val[1] == "+" and any(y[0] == "op" and y[1] == "*" and any(z in raw for z in y[2:]) and any(col(z, "scale", tab, i, fs, ch) for z in y[2:]) for y in val[2:]) and any(
                col(y, "offset", tab, i, fs, ch) for y in val[2:])
        ctx.ob(CHANGE, "bus position", good, "shows %s" % (show(x[3]) if x else "no value"), f.loc(), pl)
        if not lens or x is None:
            continue
        if lens[0]:
            seen.add("value")
            st = [b for a, kk, b in sets(t, pv) if kk == x[2]]
            ctx.ob(CHANGE, "bus position value", len(st) == 1 and is_call(st[0], "int") and st[0][2] == (v,) and len(cs) == 1, "remembers %s" % ", ".join(map(show, st)), f.loc(), pl)
        else:
            o = [y for y in cs if y[1] != ("c", "value")]
            if len(o) != 1:
                ctx.ob(CHANGE, "bus position field", False, "%d columns changed" % len(o), f.loc(), pl)
                continue
            colm = o[0][1]
            is_f = [n for n in ("scale", "offset") if eq(fs, colm, ("c", n))]
            infs = [q for q, b in fs.items() if b and q[0] == "op" and q[1] == "in" and q[2] == colm and "capture" not in show(q[3])]
            cap = eq(fs, colm, ("c", "capture"))
            w = o[0][3]
            if is_f or infs:
                good, kind = is_call(w, "float") and w[2] == (v,), "number"
            elif cap:
                good, kind = (is_call(w, "PositionCapture") or w[0] == "new" and str(w[1]).endswith("PositionCapture")) and contains(w, v), "capture"
            else:
                out = [n for n in ("scale", "offset") if eq(fs, colm, ("c", n)) is False or any(
                    not b and q[0] == "op" and q[1] == "in" and q[2] == colm and ("c", n) in (q[3][1] if len(q[3]) > 1 and isinstance(q[3][1], tuple) else ()) for q, b in fs.items())]
                good, kind = w == v and len(out) == 2, "text"
            seen.add(kind)
            good = good and is_call(colm, "lower") and o[0][2] == x[2] and o[0][0] == tab
            order = [e.args[0] for e in t.events if e.kind == "call" and e.name() == "__setitem__" and e.term[0] == "a" and is_call(e.term[1], "update_column")]
            ctx.ob(CHANGE, "bus position " + kind, good, "%s set to %s" % (show(colm), show(w)), f.loc(), pl)
            ks = [y[1] for y in cs]
            ctx.ob(CHANGE, "bus position scaled after", ks.index(colm) < ks.index(("c", "value")), "scaled before the change", f.loc(), pl)
    for k in ("value", "number", "capture", "text"):
        ctx.ob(CHANGE, "bus position covers " + k, k in seen, "not handled", f.loc(), ())
    # the tables
    f, S, tr = drive(ctx, c, "handle_changes", never=never | {"_handle_bit", "_handle_pos", "_handle_pcap"}, counts=one)
    chs, ts = ("p", f.params[1]), ("p", f.params[2])
    k, v = ("elem", chs, 0), ("val", chs, 0)
    for t, fs, pl in paths(tr, "return"):
        tried = {e.name(): e for i, e in calls(t, "_handle_bit", "_handle_pos", "_handle_pcap")}
        ctx.ob(CHANGE, "bus change offered", tried and all(e.args[:2] == (k, v) for e in tried.values()), "offers %s" % ", ".join(sorted(tried)), f.loc(), pl)
        took = [n for n in tried for q, b in fs.items() if b and is_call(q, n)]
        ctx.ob(CHANGE, "bus change taken", len(took) == 1, "a change nothing took is ignored", f.loc(), pl)
    f, S, tr = drive(ctx, c, "handle_changes", never=never | {"_handle_bit", "_handle_pos", "_handle_pcap"}, clobber=lambda it, fn, args, st: args[2:3] if last_name(fn) in ("_handle_bit", "_handle_pos", "_handle_pcap") else ())
    n = 0
    for t, fs, pl in paths(tr, "return"):
        for what, hs in (("bits", ("_handle_bit", "_handle_pcap")), ("positions", ("_handle_pos",))):
            attr = ("a", S, what)
            us = shown(t, attr)
            ds = {y for q in fs if any(is_call(q, h) for h in hs) for y in q[2][2:3]}
            got = [q for q, b in fs.items() if b and any(is_call(q, h) for h in hs)]
            some = [known(fs, d) for d in ds]
            if us:
                n += 1
                x = us[0][1]
                good = len(us) == 1 and is_call(x, "make_updated_table") and x[2][0] == ("a", attr, "value") and alarm_ok(us[0][2]) and us[0][3] == ts
                ctx.ob(CHANGE, "bus table " + what, good, "shows %s" % show(x), f.loc(), pl)
            elif got and ds:
                ctx.ob(CHANGE, "bus table " + what, any(b is False for b in some), "changes of %s are not shown" % what, f.loc(), pl)
    ctx.ob(CHANGE, "bus tables shown", n >= 4, "not shown", f.loc(), ())


def truthy(x):
    return x == ("c", True)


def row(x, lookup, name):
    return is_call(x, "get") and x[1][1] == lookup and x[2][0] == name or x == ("i", lookup, name)


def col(x, name, tab, i, fs, ch):
    """the cell of a column as it is with the changes so far"""
    if x[0] != "i" or x[2] != i:
        return False
    b, n = x[1], ("c", name)
    if b == ("a", tab, name):
        return isin(fs, n, ch) is False
    return b == ("i", ch, n) or is_call(b, "get") and b[1][1] == ch and b[2] == (n, ("a", tab, name)) or is_call(b, "update_column") and b[2] == (ch, n, tab)


def columns(ctx):
    m = "malcolm.modules.pandablocks.parts.pandabussespart."
    f = ctx.p.funcs[m + "update_column"]
    q = EQ(call=T, cond=T, store=T, with_=T, node=T, counts=two, max_iter=2, noraise=T)
    it = Interp(ctx.p, q)
    tr = it.run(f, None, None)
    ctx.used(it, tr)
    d, k, tab = (("p", x) for x in f.params[:3])
    n = 0
    for t, fs, pl in paths(tr, "return"):
        x = deep(t, t.value)
        ss = sets(t, d)
        if x == ("i", d, k):
            ctx.ob(CHANGE, "update_column again", not ss, "loses the changes so far", f.loc(), pl)
        else:
            n += 1
            copied = is_call(x, "copy") or is_call(x, "list") or x[0] == "list" and len(x[1]) == 1 and x[1][0][0] in ("star", "*") or "[*" in show(x) or x[0] == "i" and x[2][:2] == ("op", "slice")
            ctx.ob(CHANGE, "update_column", len(ss) == 1 and ss[0][1] == k and ss[0][2] == x and copied and "getattr" in show(x) or len(ss) == 1 and ss[0][2] == x and copied and contains(x, tab),
                   "changes %s" % show(x), f.loc(), pl)
    ctx.ob(CHANGE, "update_column first", n, "never takes a column of the table", f.loc(), ())
    f = ctx.p.funcs[m + "make_updated_table"]
    it = Interp(ctx.p, q)
    tr = it.run(f, None, None)
    ctx.used(it, tr)
    old, chs = (("p", x) for x in f.params[:2])
    for t, fs, pl in paths(tr):
        s = show(deep(t, t.value))
        mk = [e for e in t.events if e.kind == "call" and e.term == ("a", old, "__class__")]
        kws = [deep(t, b) for a, b in mk[0].kw] if len(mk) == 1 else []
        good = t.outcome == "return" and kws and kws[0][0] == "dict" and len(kws[0][1]) == 2
        for n, (a, b) in enumerate(kws[0][1] if good else ()):
            el = ("elem", old, n)
            good = good and a == el and (is_call(b, "get") and b[1][1] == chs and b[2][0] == el and contains(b[2][1], old) and contains(b[2][1], el) or b == ("i", chs, el) or
                                         isin(fs, el, chs) is False and contains(b, old) and contains(b, el))
        ctx.ob(CHANGE, "make_updated_table", good, "makes %s" % s, f.loc(), pl)


def puts(ctx):
    c = ctx.p.cls("PandABussesPart")
    never = {"make_updated_table", "get_column_changes", "set_value", "set_fields", "set_field"}
    f, S, tr = drive(ctx, c, "set_bits", never=never, raising={"set_fields"})
    v = ("p", f.params[1])
    n = 0
    for t, fs, pl in paths(tr):
        us = shown(t, ("a", S, "bits"))
        sent = [(i, e) for i, e in calls(t, "set_fields")]
        if t.outcome == "raise":
            ctx.ob(SENT, "bits put refused", not us, "shows what was refused", f.loc(), pl)
            continue
        cc = [b for k, b in fs.items() if k[0] == "op" and k[1] == "in" and k[2] == ("c", "capture")]
        good = len(us) == 1 and is_call(us[0][1], "make_updated_table") and contains(us[0][1], ("a", ("a", S, "bits"), "value")) and all(i < us[0][0] for i, e in sent)
        ctx.ob(SENT, "bits put shown", good, "shows %s" % ", ".join(show(u[1]) for u in us), f.loc(), pl)
        if not cc or not cc[0]:
            continue
        n += 1
        if len(sent) != 1:
            ctx.ob(SENT, "bits put", False, "changes of what is captured sent %d times" % len(sent), f.loc(), pl)
            continue
        d = sent[0][1].args[0]
        d = d if d[0] == "dict" else deep(t, d)
        got = dict(d[1]) if d[0] == "dict" else {}
        past = False
        for b, kk, x in [(e.term[1], deep(t, e.args[0]), e.args[1]) for i, e in calls(t, "__setitem__") if len(e.args) == 2]:
            if x == ("c", "No") and past:
                ctx.ob(SENT, "bits put trumped", any(q[0] == "op" and q[1] == "in" and q[2] == kk and not w for q, w in fs.items()), "a bit that isn't captured stops another in its word", f.loc(), pl)
            past = past or x == ("c", "Value")
        for j in range(2):
            b = ("elem", ("a", v, "name"), j)
            if isin(fs, b, ("a", S, "_bit_indexes")) is False:
                continue
            kk = ("i", ("a", S, "_bit_pcap_fields"), b)
            cap = [x for k, x in fs.items() if k[0] == "i" and k[1][0] == "i" and k[1][2] == ("c", "capture") and k[2] == ("i", ("a", S, "_bit_indexes"), b)]
            good = cap and (got.get(kk) == ("c", "Value" if cap[0] else "No") or not cap[0] and isin(fs, kk, d))
            ctx.ob(SENT, "bits put", good, "a bit that is%s captured sends %s" % ("" if cap and cap[0] else " not", show(got.get(kk, NONE))), f.loc(), pl)
    ctx.ob(SENT, "bits put sent", n, "never sent", f.loc(), ())
    diff(ctx, c)
    f, S, tr = drive(ctx, c, "set_positions", never=never, raising={"set_fields"})
    names = ("a", ("a", ("a", S, "positions"), "value"), "name")
    seen = set()
    for t, fs, pl in paths(tr):
        us = shown(t, ("a", S, "positions"))
        sent = [(i, e) for i, e in calls(t, "set_fields")]
        if t.outcome == "raise":
            ctx.ob(SENT, "positions put refused", not us, "shows what was refused", f.loc(), pl)
            continue
        ctx.ob(SENT, "positions put shown", len(us) == 1 and is_call(us[0][1], "make_updated_table") and all(i < us[0][0] for i, e in sent), "shows %s" % ", ".join(show(u[1]) for u in us), f.loc(), pl)
        all_ = {}
        for i, e in sent:
            d = e.args[0] if e.args[0][0] == "dict" else deep(t, e.args[0])
            for a, b in d[1] if d[0] == "dict" else ():
                all_[text(a)] = b
        for w in ("capture", "scale", "offset", "units"):
            there = [b for k, b in fs.items() if k[0] == "op" and k[1] == "in" and k[2] == ("c", w)]
            if not there or not there[0]:
                ctx.ob(SENT, "positions put " + w, there, "whether the %s changed is not looked at" % w, f.loc(), pl)
                continue
            seen.add(w)
            for j in range(2):
                got = all_.get((("elem", names, j), "." + w.upper()), NONE)
                x = got[1] if w == "capture" and got[0] == "a" and got[2] == "value" else got if w != "capture" else NONE
                good = (x[0] == "i" and x[2] in (("c", j), ("idx", names, j)) or x[0] == "elem" and x[2] == j) and x[1][0] == "i" and x[1][2] == ("c", w)
                ctx.ob(SENT, "positions put " + w, good, "sends %s" % show(got), f.loc(), pl)
    ctx.ob(SENT, "positions put covers", len(seen) == 4, "only sends %s" % ", ".join(sorted(seen)), f.loc(), ())


def diff(ctx, c):
    """every cell of a put that differs, and only those, is a change"""
    f, S, tr = drive(ctx, c, "get_column_changes", never={"update_column"}, counts=lambda it, b, st: [2 if b[0] == "a" else 1])
    old, new = (("p", x) for x in f.params[1:3])
    k = ("elem", old, 0)
    n = 0
    for t, fs, pl in paths(tr, "return"):
        cs = cells(t)
        if eq(fs, k, ("c", "name")) or eq(fs, k, ("c", "value")) or any(v and q[0] == "op" and q[1] == "in" and q[2] == k and set(y[1] for y in q[3][1] if y[0] == "c") <= {"name", "value"} for q, v in fs.items() if q[0] == "op" and q[1] == "in" and q[3][0] in ("T", "list", "set")):
            ctx.ob(SENT, "put of names and values", not cs, "takes %s for a change" % ", ".join(show(x[1]) for x in cs), f.loc(), pl)
            continue
        if any(v and q[0] == "op" and q[1] == "==" and k in q[2:] and any(y[0] == "c" for y in q[2:]) for q, v in fs.items()):
            ctx.ob(SENT, "put of a column", cs, "a change of a column is ignored", f.loc(), pl)
        for i in range(2):
            at = [j for j in range(2) if eq(fs, ("elem", ("a", new, "name"), i), ("elem", ("a", old, "name"), j))]
            if not at:
                continue
            j = at[0]
            same = None
            for q, v in fs.items():
                if q[0] == "op" and q[1] in ("==", "!="):
                    for a, b in (q[2:], q[:1:-1]):
                        if a[0] == b[0] == "i" and a[2] == ("c", j) and b[2] == ("c", i) and contains(a, old) and contains(a, k) and contains(b, new) and contains(b, k) and not contains(a, new):
                            same = v == (q[1] == "==")
            mine = [x for x in cs if x[2] == ("c", j) and x[3][0] == "i" and x[3][2] == ("c", i)]
            n += 1
            if same:
                good = not mine
            else:
                good = len(mine) == 1 and mine[0][0] == old and mine[0][1] == k and contains(mine[0][3], new) and contains(mine[0][3], k)
            ctx.ob(SENT, "put of a row", good, "row %d of the table, row %d of the put: %s" % (j, i, "a change" if cs else "no change"), f.loc(), pl)
    ctx.ob(SENT, "put of rows", n, "no row is looked up", f.loc(), ())


def bit_of(x, fd, part):
    return x == ("a", fd, part)


def packing(ctx):
    c = ctx.p.cls("PandATablePart")
    never = {"get_column_index", "get_nbits_mask", "validate"}
    F = ("a", ("o", "self", c.qual), "field_data")
    f, S, tr = drive(ctx, c, "list_from_table", never=never, counts=one)
    tab = ("p", f.params[1])
    key, fd = ("elem", F, 0), ("val", F, 0)
    shift = ("op", "%", ("a", fd, "bits_lo"), ("c", 32))
    mask, index = ("i", None, ("c", 1)), None
    n = 0
    for t, fs, pl in paths(tr, "return"):
        ss = [(b, k, x) for b, k, x in sets(t) if is_call(b, "zeros")]
        x = ss[0][2] if len(ss) == 1 else NONE
        lab = known(fs, ("a", fd, "labels"))
        sh = [y for y in walk_term(x) if y[0] == "op" and y[1] == "<<"]
        good = len(sh) == 1 and sh[0][3] == shift
        src = sh[0][2] if good else NONE
        wide = [y for y in walk_term(src) if is_call(y, "astype") and "uint32" in show(y[2][0]) or is_call(y, "array") and "uint32" in show(y)]
        ms = [y for y in walk_term(src) if y[0] == "op" and y[1] == "&" and any(z[0] == "i" and is_call(z[1], "get_nbits_mask") and z[2] == ("c", 1) for z in y[2:])]
        ctx.ob(TABLE, "packing shifted", good, "puts %s in the words" % show(x), f.loc(), pl)
        ctx.ob(TABLE, "packing masked", len(ms) == 1, "not masked: %s" % show(src), f.loc(), pl)
        ctx.ob(TABLE, "packing full width", wide, "shifted at the width of the column: %s" % show(src), f.loc(), pl)
        cellv = ("i", tab, key)
        if lab:
            good = any(is_call(y, "index") and y[1][1] == ("a", fd, "labels") and y[2] and y[2][0][0] == "elem" and y[2][0][1] == cellv for y in walk_term(deep(t, src)))
        else:
            good = lab is False and contains(src, cellv)
        ctx.ob(TABLE, "packing value", good, "packs %s" % show(src), f.loc(), pl)
        k = ss[0][1] if len(ss) == 1 else NONE
        ctx.ob(TABLE, "packing word", any(is_call(y, "get_column_index") and y[2] == (fd,) for y in walk_term(k)), "in word %s" % show(k), f.loc(), pl)
        joined = x[0] == "op" and x[1] == "|" and any(y[0] == "i" and is_call(y[1], "zeros") for y in x[2:])
        ctx.ob(TABLE, "packing joined", joined, "replaces what other columns put there", f.loc(), pl)
        n += 1
        ctx.ob(TABLE, "packing all", contains(t.value, ss[0][0]) if ss else False, "returns %s" % show(t.value), f.loc(), pl)
    f, S, tr = drive(ctx, c, "table_from_list", never=never, counts=one)
    for t, fs, pl in paths(tr, "return"):
        ss = [(b, k, x) for b, k, x in sets(t) if k == key]
        x = ss[0][2] if len(ss) == 1 else NONE
        lab = known(fs, ("a", fd, "labels"))
        sh = {y for y in walk_term(x) if y[0] == "op" and y[1] == ">>"}
        good = len(sh) == 1 and next(iter(sh))[3] == shift
        w = next(iter(sh))[2] if good else NONE
        ctx.ob(TABLE, "unpacking shifted", good and any(is_call(y, "get_column_index") and y[2] == (fd,) for y in walk_term(w)), "takes %s" % show(x), f.loc(), pl)
        ms = {y for y in walk_term(x) if y[0] == "op" and y[1] == "&" and any(z[0] == "i" and is_call(z[1], "get_nbits_mask") and z[2] == ("c", 1) for z in y[2:]) and contains(y, w)}
        ctx.ob(TABLE, "unpacking masked", len(ms) == 1, "takes %s" % show(x), f.loc(), pl)
        y = next(iter(ms)) if ms else NONE
        if lab:
            good = x[0] == "list" and all(z[0] == "i" and z[1] == ("a", fd, "labels") and contains(z[2], y) for z in x[1])
        else:
            b = [v for k, v in fs.items() if k[0] == "op" and k[1] == "==" and ("c", 1) in k[2:] and "nbits" in show(k)]
            good = lab is False and is_call(x, "astype") and x[1][1] == y and b and ("bool" in show(x[2][0]) if b[0] else last_name(x[2][0]) == "dtype")
        ctx.ob(TABLE, "unpacking value", good, "shows %s" % show(x), f.loc(), pl)
        n += 1
    ctx.ob(TABLE, "packing covers", n >= 5, "%d kinds of column" % n, f.loc(), ())
    m = "malcolm.modules.pandablocks.parts.pandatablepart."
    for name, want in (("get_column_index", lambda v, p, fs: v == ("op", "//", ("a", p, "bits_lo"), ("c", 32))),
                       ("get_nbits_mask", lambda v, p, fs: v[0] == "T" and len(v[1]) == 2 and nbits(v[1][0], p) and maskof(v[1][1], v[1][0]))):
        g = ctx.p.funcs[m + name]
        it = Interp(ctx.p, EQ(call=T, cond=T, store=T, with_=T, node=T, counts=two, max_iter=2, noraise=T))
        tr = it.run(g, None, None)
        ctx.used(it, tr)
        for t, fs, pl in paths(tr, "return"):
            ctx.ob(TABLE, name, want(deep(t, t.value), ("p", g.params[0]), fs), "is %s" % show(t.value), g.loc(), pl)
    f, S, tr = drive(ctx, c, "__init__", never={"get_dtype", "snake_to_camel", "camel_to_title", "set_label", "set_tags", "set_description", "set_writeable", "set_elements", "get_table_fields", "create_attribute_model",
                                                "ChoiceArrayMeta", "BooleanArrayMeta", "NumberArrayMeta", "tag", "Part.__init__"}, counts=one)
    for t, fs, pl in paths(tr, "return"):
        st = [deep(t, e.args[0]) for e in t.events if e.kind == "store" and e.term == ("a", S, "ints_per_row")]
        x = st[0] if len(st) == 1 else NONE
        good = x[0] == "op" and x[1] == "+" and ("c", 1) in x[2:] and any(y[0] == "op" and y[1] == "//" and y[3] == ("c", 32) and "bits_hi" in show(y[2]) and is_call(y[2], "max") for y in x[2:])
        good = good or x[0] == "op" and x[1] == "//" and x[3] == ("c", 32) and x[2][0] == "op" and x[2][1] == "+" and ("c", 32) in x[2][2:] and "bits_hi" in show(x)
        ctx.ob(TABLE, "words of a row", good, "a row has %s words" % show(x), f.loc(), pl)


def nbits(x, p):
    hi, lo = ("a", p, "bits_hi"), ("a", p, "bits_lo")
    return x in (("op", "+", ("op", "-", hi, lo), ("c", 1)), ("op", "-", ("op", "+", hi, ("c", 1)), lo))


def maskof(x, n):
    return x in (("op", "-", ("op", "**", ("c", 2), n), ("c", 1)), ("op", "-", ("op", "<<", ("c", 1), n), ("c", 1)))


def polling(ctx):
    c = ctx.p.cls("PandAManagerController")
    f, S, tr = drive(ctx, c, "_poll_loop", never={"handle_changes", "get_changes", "go_to_error_state", "set_value", "get"}, raising={"get", "handle_changes", "get_changes"})
    n = 0
    for t, fs, pl in paths(tr):
        err = calls(t, "go_to_error_state")
        gets = [(i, e) for i, e in calls(t, "get") if on(e, ("a", S, "_stop_queue"))]
        polls = [(i, e) for i, e in calls(t, "handle_changes")]
        ctx.ob(POLL, "_poll_loop waits", gets and all(arg(e, 0, "timeout") != NONE for i, e in gets), "waits for ever", f.loc(), pl)
        ctx.ob(POLL, "_poll_loop polls", all(is_call(arg(e, 0), "get_changes") and arg(e, 0)[1][1] == ("a", S, "_client") for i, e in polls), "handles other changes", f.loc(), pl)
        for (i, a), (j, b) in zip(gets, gets[1:]):
            n += 1
            ctx.ob(POLL, "_poll_loop each time", len([1 for k, e in polls if i < k < j]) == 1, "waits again without polling", f.loc(), pl)
        if t.outcome == "raise":
            ctx.ob(POLL, "_poll_loop fails", len(err) == 1, "a failure doesn't make it an error", f.loc(), pl)
        else:
            told = gets and not failed(t, *gets[-1]) and not [1 for k, e in polls if k > gets[-1][0]]
            ctx.ob(POLL, "_poll_loop ends", told and not err, "ends though not told to stop", f.loc(), pl)
    ctx.ob(POLL, "_poll_loop goes on", n, "only polls once", f.loc(), ())


def startstop(ctx):
    c = ctx.p.cls("PandAManagerController")
    never = {"start", "stop", "_make_child_controllers", "ready", "wait", "put", "spawn", "stop_poll_loop"}
    f, S, tr = drive(ctx, c, "start_poll_loop", never=never)
    sp, cl, kids = ("a", S, "_poll_spawned"), ("a", S, "_client"), ("a", S, "_child_controllers")
    n = 0
    for t, fs, pl in paths(tr, "return"):
        starts_ = [(i, e) for i, e in calls(t, "start") if on(e, cl)]
        st = [(i, e) for i, e in enumerate(t.events) if e.kind == "store" and e.term == sp and e.args[0] != NONE]
        run_ = known(fs, sp)
        on_ = known(fs, ("a", cl, "started"))
        ctx.ob(POLL, "start connects", on_ is not None and (starts_ or on_), "not connected", f.loc(), pl)
        made = known(fs, kids)
        mk = calls(t, "_make_child_controllers")
        ctx.ob(POLL, "start makes the blocks", made is not None and len(mk) == (0 if made else 1) and all(i > j for i, e in mk for j, x in starts_), "blocks made %d times" % len(mk), f.loc(), pl)
        last = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("op", "is", sp, NONE)]
        idle = last[-1] if last else None if run_ is None else not run_
        good = idle is not None and len(st) == (1 if idle else 0) and all(is_call(e.args[0], "spawn") and last_name(e.args[0][2][0]) == "_poll_loop" for i, e in st)
        ctx.ob(POLL, "start polls", good, "polling started %d times" % len(st), f.loc(), pl)
        n += len(st)
    ctx.ob(POLL, "start polls at all", n, "never", f.loc(), ())
    f, S, tr = drive(ctx, c, "stop_poll_loop", never=never)
    for t, fs, pl in paths(tr):
        run_ = known(fs, sp)
        puts_ = [i for i, e in calls(t, "put") if on(e, ("a", S, "_stop_queue"))]
        waits = [i for i, e in calls(t, "wait") if on(e, sp)]
        st = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == sp and e.args == (NONE,)]
        stops = [i for i, e in calls(t, "stop") if on(e, cl)]
        good = t.outcome == "return" and run_ is not None and (len(puts_) == len(waits) == len(st) == 1 and puts_[0] < waits[0] < st[0] if run_ else not puts_ and not waits)
        ctx.ob(POLL, "stop ends polling", good, "polling not stopped", f.loc(), pl)
        on_ = known(fs, ("a", cl, "started"))
        ctx.ob(POLL, "stop disconnects", on_ is not None and len(stops) == (1 if on_ else 0) and all(i < j for i in waits for j in stops), "disconnected %d times" % len(stops), f.loc(), pl)
    for meth, what in (("do_init", "start_poll_loop"), ("do_reset", "start_poll_loop"), ("do_disable", "stop_poll_loop")):
        f, S, tr = drive(ctx, c, meth, never={"start_poll_loop", "stop_poll_loop"}, never_if=lambda g: "pandablocks" not in g.qual)
        for t, fs, pl in paths(tr):
            cs = [(i, e) for i, e in calls(t, what)]
            up = [(i, e) for i, e in calls(t, meth)]
            good = t.outcome == "return" and len(cs) == 1 and len(up) == 1 and (cs[0][0] < up[0][0]) == (what == "start_poll_loop")
            ctx.ob(POLL, meth, good, "%d calls of %s, %d of the base's" % (len(cs), what, len(up)), f.loc(), pl)


def children(ctx):
    c = ctx.p.cls("PandAManagerController")
    f, S, tr = drive(ctx, c, "_make_child_controllers", never={"get_blocks_data", "_make_child_block", "add_controllers", "add_part", "get_pcap_bits_fields", "create_busses", "handle_changes", "get_changes"}, counts=one)
    kids, bus = ("a", S, "_child_controllers"), ("a", S, "_bus_fields")
    seen = set()
    for t, fs, pl in paths(tr, "return"):
        mk = [e for i, e in calls(t, "_make_child_block")]
        one_ = [v for k, v in fs.items() if k[0] == "op" and k[1] == "==" and ("c", 1) in k[2:] and "number" in show(k)]
        name = arg(mk[0], 0) if len(mk) == 1 else NONE
        st = [e for e in t.events if e.kind == "store" and e.term == kids]
        base = t.state.store.get(kids) if hasattr(t.state.store, "get") else None
        ss = [(deep(t, e.args[0]), deep(t, e.args[1])) for i, e in calls(t, "__setitem__") if "_make_child_block" in show(deep(t, e.args[1]))]
        ctl = [x for x in ss if x[0] == name]
        ctx.ob(CHANGE, "blocks by name", len(ctl) == 1, "block made as %s is told as %s" % (show(name), ", ".join(show(a) for a, b in ss)), f.loc(), pl)
        if one_:
            seen.add(one_[0])
            al = [x for x in ss if text(x[0]) == text(name) + ("1",) and ctl and x[1] == ctl[0][1]]
            ctx.ob(CHANGE, "a single block's label", len(al) == (1 if one_[0] else 0) if len(one_) == 1 else True, "told as %s" % ", ".join(show(a) for a, b in ss), f.loc(), pl)
            ctx.ob(CHANGE, "block numbered", one_[0] and text(name)[-1:] != ("1",) or not one_[0] and len(text(name)) == 2 and "range(" in show(name) and from_one(text(name)[1]), "block called %s" % show(name), f.loc(), pl)
        ads = [e for i, e in calls(t, "add_controllers")]
        good = len(ads) == 1 and ctl and any(contains(deep(t, a), ctl[0][1]) for a in ads[0].args)
        ctx.ob(CHANGE, "blocks added", good and len(calls(t, "add_part")) == 1, "block not added", f.loc(), pl)
        pos = [v for k, v in fs.items() if k[0] == "op" and k[1] == "==" and ("c", "pos_out") in k[2:]]
        have = deep(t, t.state.store.get((S, "_bus_fields"), NONE))
        have = [text(x) for x in have[1]] if have[0] in ("list", "set") else None
        if have is not None:
            blk = text(name)
            fl = [x for x in have if x[:len(blk)] == blk and len(x) > len(blk)]
            ends_ = sorted(x[-1] if isinstance(x[-1], str) else "" for x in fl)
            want = ["", ".CAPTURE", ".OFFSET", ".SCALE", ".UNITS"] if pos and pos[0] else []
            ctx.ob(CHANGE, "bus fields of positions", pos and ends_ == want, "busses are told %s of a position" % ", ".join(ends_), f.loc(), pl)
            ctx.ob(CHANGE, "bus fields of bits", any("bits.value.name" in show(y) for x in have for y in x if not isinstance(y, str)) and any(
                "get_pcap_bits_fields" in show(y) for x in have for y in x if not isinstance(y, str)), "busses are not told of bits", f.loc(), pl)
            cb_ = [e for i, e in calls(t, "create_busses")]
            names = deep(t, arg(cb_[0], 1)) if cb_ else NONE
            got = [text(x) for x in names[1]] if names[0] == "list" else None
            ctx.ob(CHANGE, "positions", got is not None and len(got) == (1 if pos and pos[0] else 0), "positions %s" % show(names), f.loc(), pl)
        hs = [(i, e) for i, e in calls(t, "handle_changes")]
        cb = [(i, e) for i, e in calls(t, "create_busses")]
        ctx.ob(CHANGE, "first values", hs and cb and is_call(deep(t, arg(hs[0][1], 0)), "get_changes") and cb[0][0] < hs[0][0], "first values not shown", f.loc(), pl)
    ctx.ob(CHANGE, "blocks cover", seen == {True, False}, "single and numbered blocks not told apart", f.loc(), ())


def from_one(x):
    """is it a number counted from one"""
    if x[0] == "op" and x[1] == "+":
        return ("c", 1) in x[2:] and any(y[0] == "elem" and is_call(y[1], "range") and (len(y[1][2]) == 1 or y[1][2][0] == ("c", 0)) for y in x[2:])
    return x[0] == "elem" and is_call(x[1], "range") and len(x[1][2]) > 1 and x[1][2][0] == ("c", 1)


def lookups(ctx):
    """the rows of the bus tables: every name looks up its own row"""
    c = ctx.p.cls("PandABussesPart")
    f, S, tr = drive(ctx, c, "create_busses", never={"set_value", "_make_initial_bits_table", "_make_initial_pos_table"})
    fields, pos = ("p", f.params[1]), ("p", f.params[2])
    n = 0
    for t, fs, pl in paths(tr, "return"):
        def final(name):
            x = deep(t, t.state.store.get((S, name), NONE))
            return dict(x[1]) if x[0] == "dict" else None
        tabs = {e.term[1][2]: deep(t, arg(e, 0)) for i, e in calls(t, "set_value") if e.term[0] in ("a", "bm") and e.term[1][0] == "a"}
        bits, rows, caps, ps = (final(x) for x in ("_bit_indexes", "_pcap_bit_indexes", "_bit_pcap_fields", "_pos_indexes"))
        made = tabs.get("bits", NONE)
        names = made[2][0] if is_call(made, "_make_initial_bits_table") and made[2] else NONE
        if None in (bits, rows, caps, ps) or names[0] != "list":
            continue
        n += 1
        for j, b in enumerate(names[1]):
            k = b[1][2] if b[0] == "elem" and b[1][0] == "val" else None
            ctx.ob(CHANGE, "rows of bits", bits.get(b) == ("c", j) and len(bits) == len(names[1]), "bit of row %d looks up row %s" % (j, show(bits.get(b, NONE))), f.loc(), pl)
            ctx.ob(CHANGE, "word of a bit", k is not None and caps.get(b) == ("elem", fields, k) and ("c", j) in dict(rows).get(("elem", fields, k), ("list", ()))[1], "bit of row %d is captured with %s" % (
                j, show(caps.get(b, NONE))), f.loc(), pl)
        ctx.ob(CHANGE, "bits of a word", sum(len(x[1]) for x in rows.values()) == len(names[1]) and len(rows) == 2, "words of %s" % ", ".join(show(x) for x in rows.values()), f.loc(), pl)
        bad = [show(k) for k, x in ps.items() for w in [text(k)] if not (w[0][0] == "elem" and w[0][1] == pos and x == ("c", w[0][2]))]
        full = {(w[0][2], w[1] if len(w) > 1 else "") for w in map(text, ps) if not isinstance(w[0], str)}
        ctx.ob(CHANGE, "rows of positions", not bad and len(full) == 10, "%d names of positions" % len(full), f.loc(), pl)
    ctx.ob(CHANGE, "rows", n, "none", f.loc(), ())
