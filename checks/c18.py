"""EPICS channel access: on every path, a value arriving from a PV becomes the attribute's value, alarm and time stamp (a lost PV its
disconnected alarm); monitors are released before they are replaced and watch the readback; puts go to the demand PV, are waited for
and are followed by a read back; actions only succeed with a good status; each part ties the metadata, data type and conversions together."""
import ast
from sa.interp import contains, last_name, show, NONE
from sa.q import path_lines
from sa.project import Class
from checks.c13 import calls, walk_term
from checks.c15 import is_call
from checks.c17 import deep, facts, kws
from checks.c17 import drive as drive17

UPDATE = "an-update-reaches-the-attribute"
CONNECT = "connects-to-its-pvs"
PUT = "a-put-reaches-the-pv-and-is-read-back"
ACTION = "an-action-succeeds-only-with-a-good-status"
PART = "attribute-suits-its-pv"
HIDE = {"set_tags", "set_logger", "create_attribute_model", "add_attribute_model", "add_method_model", "hook", "register_hooked", "deserialize_object", "set_value", "set_value_alarm_ts", "set_alarm",
        "set_display", "set_choices", "validate", "report", "parse_release", "with_source_port_tag"}
FOLLOW = {"caget", "camonitor", "assert_connected", "_update_value", "caput", "disconnect", "reconnect", "set_value", "set_value_alarm_ts", "close", "on_connect", "raw_stamp", "severity", "ok", "rbv", "pv", "pv_list", "name_list",
          "_local_value", "monitor", "_monitor_callback", "good_status", "status_pv", "set_display", "set_choices", "add_attribute_model", "register_hooked", "choices", "Display", "catools"}


def drive(ctx, c, meth, never=(), names=(), **kw):
    return drive17(ctx, c, meth, never=never, names=FOLLOW | set(names), **kw)


def run(ctx):
    base = ctx.p.cls("CABase")
    kinds = sorted((c for c in ctx.p.subclasses(base, strict=True)), key=lambda c: c.qual)
    for c in kinds:
        update_value(ctx, c)
        monitor_callback(ctx, c)
        disconnect(ctx, c)
        reconnect(ctx, c)
        setup(ctx, c)
        init(ctx, c)
        if ctx.p.lookup(c, "caput") is not ctx.p.lookup(base, "caput"):
            caput(ctx, c)
    connected(ctx)
    action(ctx)
    parts(ctx, kinds)
    for r, n in ((UPDATE, 30), (CONNECT, 40), (PUT, 6), (ACTION, 15), (PART, 30)):
        ctx.floor(r, n)


def arg(e, n, name=None, default=NONE):
    """an argument given by position or name"""
    if n is not None and len(e.args) > n and not any(a[0] == "star" for a in e.args[:n + 1]):
        return e.args[n]
    return e.kwd(name, default) if name else default


def possible(t):
    """a pure condition decided twice has one outcome"""
    seen = {}
    for e in t.events:
        if e.kind == "cond":
            if e.term[0] == "c" and bool(e.term[1]) != bool(e.extra):
                return False
            if seen.setdefault(e.term, bool(e.extra)) != bool(e.extra) and e.term[:2] != ("op", "<"):
                return False
    return True


def paths(tr, *outcomes):
    for t in tr:
        if (not outcomes or t.outcome in outcomes) and possible(t):
            yield t, facts(t), path_lines(t)


def known(fs, x):
    """outcome of a test for x being something"""
    if x in fs:
        return fs[x]
    if ("op", "bool", x) in fs:
        return fs[("op", "bool", x)]
    n = fs.get(("op", "is", x, NONE)) if x[-1] not in ("ok", "severity", "throw") else None
    if n is None and x[-1] not in ("ok", "severity", "throw"):
        n = fs.get(("op", "==", x, NONE))
    if n is not None:
        return not n
    for k, v in fs.items():
        if k[0] == "op" and k[1] in ("==", "is") and x in k[2:]:
            o = k[3] if k[2] == x else k[2]
            if o[0] == "c" and o[1] in (True, False, 0, ""):
                return v == bool(o[1])
    return None


def updates(t, attr):
    """what the attribute is set to: [(value, alarm, time stamp, validated)]; None where it is left or made up"""
    out = []
    for i, e in calls(t, "set_value", "set_value_alarm_ts", "set_alarm", "set_timeStamp", "set_ts"):
        if e.term[0] not in ("a", "bm") or e.term[1] != attr:
            continue
        n = e.name()
        s = t.state.snap
        if n == "set_value":
            if arg(e, 1, "set_alarm_ts", ("c", True)) == ("c", False):
                out.append((s(arg(e, 0, "value")), None, None, True, e))
            else:
                out.append((s(arg(e, 0, "value")), s(arg(e, 2, "alarm")), s(arg(e, 3, "ts")), True, e))
        elif n == "set_value_alarm_ts":
            out.append((s(arg(e, 0, "value")), s(arg(e, 1, "alarm")), s(arg(e, 2, "ts")), False, e))
        elif n == "set_alarm":
            out.append((("a", attr, "value"), s(arg(e, 0, "alarm")), None, True, e))
        else:
            out.append((("a", attr, "value"), None, s(arg(e, 0, "ts")), True, e))
    return out


def is_made(x, cls):
    return x[0] == "new" and str(x[1]).rsplit(".", 1)[-1] == cls or is_call(x, cls)


def update_value(ctx, c):
    f, S, tr = drive(ctx, c, "_update_value", never=HIDE)
    v = ("p", f.params[1])
    attr = ("a", S, "attr")
    cb = ("a", S, "_user_callback")
    for t, fs, pl in paths(tr):
        ctx.ob(UPDATE, c.name + "._update_value", t.outcome == "return", "ends with %s" % show(t.value), f.loc(), pl)
        told = [e for e in t.events if e.kind == "call" and e.term == cb]
        ctx.ob(UPDATE, c.name + "._update_value callback", len(told) == (1 if known(fs, cb) else 0) and known(fs, cb) is not None and all(e.args == (v,) for e in told),
               "callback called %d times" % len(told), f.loc(), pl)
        us = updates(t, attr)
        ok = known(fs, ("a", v, "ok"))
        if len(us) != 1 or ok is None:
            ctx.ob(UPDATE, c.name + "._update_value", False, "%d updates of the attribute%s" % (len(us), "" if ok is not None else ", whether connected or not"), f.loc(), pl)
            continue
        x, al, ts, valid, e = us[0]
        if not ok:
            good = x == ("a", attr, "value") and al is not None and (is_call(al, "disconnected") or is_made(al, "Alarm") and "UNDEFINED_ALARM" in str(al))
            ctx.ob(UPDATE, c.name + "._update_value disconnected", good, "PV is not connected: sets %s, alarm %s" % (show(x), al and show(al)), f.loc(), pl)
            continue
        al = NONE if al is None else al
        sev = ("a", v, "severity")
        bad = known(fs, sev)
        if bad:
            k = kws(al) if al is not None else {}
            good = is_made(al, "Alarm") and (k.get("severity") == sev or al[0] == "call" and al[2] and al[2][0] == sev) and "RECORD_STATUS" in str(al)
        else:
            good = bad is False and al is not None and (al[0] in ("a", "g") and last_name(al) == "ok" and "Alarm" in show(al) or "Alarm.ok" in show(al))
        ctx.ob(UPDATE, c.name + "._update_value alarm", good, "alarm %s with severity %s" % (al and show(al), "given" if bad else "zero" if bad is False else "unknown"), f.loc(), pl)
        val = x == v and valid or is_call(x, "validate") and x[2] == (v,) and x[1][1] == ("a", attr, "meta")
        ctx.ob(UPDATE, c.name + "._update_value value", val, "sets %s" % show(x), f.loc(), pl)
        raw = ("a", v, "raw_stamp")
        has = [k for y, k in fs.items() if y[0] == "op" and y[1] == "hasattr" and y[2] == v or is_call(y, "hasattr") and y[2][0] == v]
        if ts is not None and contains(ts, raw):
            kw = kws(ts)
            good = has != [False] and is_made(ts, "TimeStamp") and (kw.get("secondsPastEpoch") == ("i", raw, ("c", 0)) and kw.get("nanoseconds") == ("i", raw, ("c", 1)) or ts[0] == "call" and ts[2] == (("star", raw),))
        else:
            good = has == [False] and (ts is None or ts == NONE or is_made(ts, "TimeStamp"))
        ctx.ob(UPDATE, c.name + "._update_value time stamp", good, "time stamp %s" % (ts and show(ts)), f.loc(), pl)


def table_of(c, p):
    """does the class hold several PVs"""
    return any(isinstance(n, ast.Attribute) and n.attr == "name_list" for k in p.mro(c) if isinstance(k, Class) and k.name != "CABase" for m in k.methods.values() for n in ast.walk(m.node))


def status(ctx, c, m, t, fs, f, pl, local, before):
    """the table is connected if all its PVs are, and as severe as the worst of them"""
    st = {}
    for e in t.events[:before]:
        if e.kind == "store" and e.term[0] == "a" and e.term[1] == local:
            st[e.term[2]] = t.state.snap(e.args[0])
    oks = sorted({x for y in list(fs) + [st.get("ok", NONE)] for x in walk_term(y) if isinstance(x, tuple) and x[:1] == ("a",) and x[2:] == ("ok",) and x[1] != local}, key=str)
    ok = st.get("ok")
    if ok is None:
        good = False
    elif ok == ("c", False):
        good = any(fs.get(x) is False for x in oks)
    elif ok == ("c", True):
        good = len(oks) >= 2 and all(fs.get(x) for x in oks)
    else:
        good = ok[0] == "op" and ok[1] in ("and", "&") and len([x for x in walk_term(ok) if x in oks]) >= 2 or is_call(ok, "all")
    ctx.ob(UPDATE, "%s.%s connected" % (c.name, m), good, "connection state of the table is %s" % (ok and show(ok)), f.loc(), pl)
    lost = ok == ("c", False) or any(fs.get(x) is False for x in oks)
    sev = st.get("severity")
    if not lost:
        own = sev is not None and contains(sev, ("a", local, "severity"))
        n = len({x for x in walk_term(sev or NONE) if isinstance(x, tuple) and x[:1] == ("a",) and x[2:] == ("severity",)})
        good = sev is not None and not own and is_call(sev, "max") and (n >= 2 or "gen" in str(sev) or "elem" in str(sev) or "val" in str(sev))
        ctx.ob(UPDATE, "%s.%s severity" % (c.name, m), good, "severity of the table is %s" % (sev and show(sev)), f.loc(), pl)


def put_in(t, local, upto):
    """[(key, value)] put in the table"""
    return [(e.args[0], e.args[1]) for e in t.events[:upto] if e.kind == "call" and e.name() == "__setitem__" and e.term[1] == local]


def monitor_callback(ctx, c):
    f, S, tr = drive(ctx, c, "_monitor_callback", never=HIDE | {"_update_value"})
    v = ("p", f.params[1])
    ix = ("p", f.params[2])
    tab = table_of(c, ctx.p)
    local = ("a", S, "_local_value")
    for t, fs, pl in paths(tr):
        if any(y[0] == "op" and y[1] == "hasattr" and y[2] == S and k != tab for y, k in fs.items()) or (fs.get(("op", "is", ix, NONE)) is tab):
            continue
        us = calls(t, "_update_value")
        sl = calls(t, "Sleep", "sleep")
        ctx.ob(UPDATE, c.name + "._monitor_callback", t.outcome == "return" and len(us) == 1 and all(i > us[0][0] for i, e in sl), "%d updates, %s" % (len(us), t.outcome), f.loc(), pl)
        if len(us) != 1:
            continue
        i, e = us[0]
        if not tab:
            ctx.ob(UPDATE, c.name + "._monitor_callback value", e.args == (v,), "updates with %s" % [show(a) for a in e.args], f.loc(), pl)
            continue
        ps = put_in(t, local, i)
        ctx.ob(UPDATE, c.name + "._monitor_callback value", e.args == (local,) and ps == [(("i", ("a", S, "name_list"), ix), v)],
               "updates with %s after putting %s" % ([show(a) for a in e.args], [(show(a), show(b)) for a, b in ps]), f.loc(), pl)
        stamp = [t.state.snap(x.args[0]) for x in t.events[:i] if x.kind == "store" and x.term == ("a", local, "raw_stamp")]
        ctx.ob(UPDATE, c.name + "._monitor_callback time stamp", len(stamp) >= 1 and (stamp[-1] == ("a", v, "raw_stamp") or not contains(stamp[-1], v) and any(not k for y, k in fs.items() if "raw_stamp" in str(y))),
               "time stamp %s" % [show(x) for x in stamp], f.loc(), pl)
        status(ctx, c, "_monitor_callback", t, fs, f, pl, local, i)


def disconnect(ctx, c):
    f, S, tr = drive(ctx, c, "disconnect")
    m = ("a", S, "monitor")
    for t, fs, pl in paths(tr):
        cl = [e.term[1] for i, e in calls(t, "close")]
        gone = [e for e in t.events if e.kind == "store" and e.term == m]
        if known(fs, m) is False:
            ctx.ob(CONNECT, c.name + ".disconnect", t.outcome == "return" and not cl, "closes %s when there is no monitor" % [show(x) for x in cl], f.loc(), pl)
            continue
        many = [k for y, k in fs.items() if y != m and y[:2] != ("op", "is") and contains(y, m)]
        each = [x for x in cl if x[0] == "elem" and x[1] == m]
        ok = len(set(each)) == 2 and many != [False] if each else m in cl and True not in many
        ctx.ob(CONNECT, c.name + ".disconnect", t.outcome == "return" and ok and known(fs, m), "closes %s" % [show(x) for x in cl], f.loc(), pl)
        ctx.ob(CONNECT, c.name + ".disconnect", bool(gone) and gone[-1].args == (NONE,), "monitor is not forgotten", f.loc(), pl)


def pvs_of(x, t):
    x = t.state.snap(x)
    return list(x[1]) if x[0] in ("list", "T") else None


def first(x, got):
    """the value read for the first PV asked for"""
    return x[0] == "i" and x[2] == ("c", 0) and got(x[1]) or x[0] == "elem" and (len(x) < 3 or x[2] == 0) and got(x[1])


def reconnect(ctx, c):
    f, S, tr = drive(ctx, c, "reconnect", never=HIDE | {"_update_value", "disconnect", "assert_connected"})
    tab = table_of(c, ctx.p)
    n = c.name + ".reconnect"
    local = ("a", S, "_local_value")
    throw, dt, pv, rbv = (("a", S, k) for k in ("throw", "datatype", "pv", "rbv"))
    lst = ("a", S, "pv_list")
    oc = ("a", S, "on_connect")
    for t, fs, pl in paths(tr):
        dis, get, con, upd, mon = (calls(t, k) for k in ("disconnect", "caget", "assert_connected", "_update_value", "camonitor"))
        if t.outcome != "return":
            ctx.ob(CONNECT, n, False, "ends with %s" % show(t.value), f.loc(), pl)
            continue
        counts = [len(x) for x in (dis, get, con, upd, mon)]
        if counts != [1] * 5:
            ctx.ob(CONNECT, n, False, "releases, reads, checks, updates, monitors %s times" % counts, f.loc(), pl)
            continue
        (di, de), (gi, ge), (ci, ce), (ui, ue), (mi, me) = dis[0], get[0], con[0], upd[0], mon[0]
        ctx.ob(CONNECT, n + " order", di < gi < ci < ui < mi, "old monitor released, PVs read, checked, update, new monitor: not in this order", f.loc(), pl)
        asked = arg(ge, 0, "pvs")
        got = pvs_of(asked, t)
        if tab:
            ok = asked == lst or is_call(asked, "list") and asked[2] == (lst,)
        else:
            same = known(fs, pv) is False or any(k for y, k in fs.items() if y[0] == "op" and (y[1] == "==" and set(y[2:]) == {pv, rbv} or y[1] == "in" and y[2] == pv and contains(y[3], rbv)))
            ok = got is not None and got[:1] == [rbv] and (got[1:] == [pv] or not got[1:] and same)
        ctx.ob(CONNECT, n + " reads", ok, "reads %s" % (got and [show(x) for x in got] or show(asked)), f.loc(), pl)
        ctx.ob(CONNECT, n + " reads", ge.kwd("throw") == throw and ge.kwd("datatype") == dt and last_name(ge.kwd("format", NONE)) == "FORMAT_CTRL", "reads with %s" % [(k, show(v)) for k, v in ge.kw], f.loc(), pl)
        isread = lambda x: is_call(x, "caget")
        ctx.ob(CONNECT, n + " checks", isread(arg(ce, 0, "ca_values")) and arg(ce, 1, "throw", ("c", True)) == throw, "checks %s" % [show(x) for x in ce.args], f.loc(), pl)
        isgot = lambda x: isread(x) or is_call(x, "assert_connected")
        told = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.term == oc]
        vals = sorted({x[1] for y in fs for x in walk_term(y) if isinstance(x, tuple) and x[:1] == ("a",) and x[2:] == ("ok",) and any(isgot(z) for z in walk_term(x[1]) if isinstance(z, tuple))}, key=str)
        for i, e in told:
            x = deep(t, e.args[0]) if len(e.args) == 1 else NONE
            ctx.ob(CONNECT, n + " on_connect", i < ui and (first(x, isgot) or tab and x[0] == "elem" and isgot(x[1])) and fs.get(("a", x, "ok")) is True, "on_connect called with %s, connected or not" % show(x), f.loc(), pl)
        if known(fs, oc):
            up = {x for x in vals if fs.get(("a", x, "ok")) and not contains(x, local) and (tab or first(x, isgot))}
            ctx.ob(CONNECT, n + " on_connect", {deep(t, e.args[0]) for i, e in told if e.args} >= up and (bool(vals) or bool(told)), "on_connect is not called", f.loc(), pl)
        else:
            lost = bool(vals) and not any(fs.get(("a", x, "ok")) for x in vals)
            ctx.ob(CONNECT, n + " on_connect", (known(fs, oc) is False or lost) and not told, "on_connect called when there is none, or ignored", f.loc(), pl)
        x = arg(ue, 0, "value")
        if tab:
            ps = put_in(t, local, ui)
            want = {0: None, 1: None}
            for k, v in ps:
                j = v[2] if v[0] == "elem" and len(v) > 2 and isgot(v[1]) else v[2][1] if v[0] == "i" and isgot(v[1]) and v[2][0] == "c" else None
                if j in want and same_index(k, ("a", S, "name_list"), j):
                    want[j] = v
            ctx.ob(CONNECT, n + " value", x == local and None not in want.values() and len(ps) == 2, "updates with %s after putting %s" % (show(x), [(show(a), show(b)) for a, b in ps]), f.loc(), pl)
            status(ctx, c, "reconnect", t, fs, f, pl, local, ui)
        else:
            ctx.ob(CONNECT, n + " value", first(x, isgot), "updates with %s" % show(x), f.loc(), pl)
        ctx.ob(CONNECT, n + " monitors", arg(me, 0, "pvs") == (lst if tab else rbv) and arg(me, 1, "callback") in (("a", S, "_monitor_callback"), ("bm", S, "_monitor_callback")) or bound(me, S, lst if tab else rbv),
               "monitors %s" % [show(a) for a in me.args], f.loc(), pl)
        ctx.ob(CONNECT, n + " monitors", me.kwd("datatype") == dt and me.kwd("notify_disconnect") == ("c", True) and last_name(me.kwd("format", NONE)) == "FORMAT_TIME", "monitors with %s" % [(k, show(v)) for k, v in me.kw], f.loc(), pl)
        kept = [e for i, e in enumerate(t.events) if i > mi and e.kind == "store" and e.term == ("a", S, "monitor")]
        ctx.ob(CONNECT, n + " keeps", len(kept) == 1 and is_call(kept[0].args[0], "camonitor"), "the monitor is not kept", f.loc(), pl)


def same_index(k, names, j):
    if k[0] == "i" and k[1] == names:
        k = k[2]
        return k == ("c", j) or k[0] in ("idx", "elem") and (k[2] if len(k) > 2 else 0) == j
    return k[0] == "elem" and k[1] == names and (k[2] if len(k) > 2 else 0) == j


def bound(e, S, what):
    """camonitor(what, self._monitor_callback, ...)"""
    m = arg(e, 1, "callback")
    return arg(e, 0, "pvs") == what and last_name(m) == "_monitor_callback" and contains(m, S)


def init(ctx, c):
    f, S, tr = drive(ctx, c, "__init__", never=HIDE)
    n = c.name + ".__init__"
    P = lambda k: ("p", k)
    for t, fs, pl in paths(tr):
        if t.outcome != "return":
            continue
        st = {}
        for e in t.events:
            if e.kind == "store" and e.term[0] == "a" and e.term[1] == S:
                st[e.term[2]] = t.state.snap(e.args[0])
        for k in ("throw", "datatype", "min_delta", "timeout", "on_connect", "pv", "pv_list", "name_list"):
            if k in f.params:
                ctx.ob(CONNECT, n, st.get(k) == P(k), "%s is %s" % (k, st.get(k) and show(st[k])), f.loc(), pl)
        ctx.ob(CONNECT, n, st.get("_user_callback") == P("callback"), "callback is %s" % show(st.get("_user_callback", NONE)), f.loc(), pl)
        ctx.ob(CONNECT, n, is_call(st.get("attr", NONE), "create_attribute_model") and contains(st["attr"], P("meta")) and st.get("monitor") == NONE, "attribute is %s, monitor %s" % (show(st.get("attr", NONE)), show(st.get("monitor", NONE))), f.loc(), pl)
        if "pv" in f.params:
            pv, rbv, suf = P("pv"), P("rbv"), P("rbv_suffix")
            w = st.get("writeable", NONE)
            ctx.ob(PUT, n + " writeable", w in (("op", "bool", pv), ("c", known(fs, pv))) or is_call(w, "bool") and w[2] == (pv,) or w[0] == "op" and w[1] == "not" and contains(w, pv) or w[0] == "op" and w[1] == "!=" and contains(w, pv), "writeable is %s" % show(w), f.loc(), pl)
            r = st.get("rbv", NONE)
            if known(fs, rbv):
                ok = r == rbv
            elif known(fs, rbv) is False:
                ok = r == ("op", "+", pv, suf) if known(fs, suf) else r == pv and known(fs, suf) is False
                ok = ok or known(fs, suf) is None and r == ("op", "+", pv, suf)
                ctx.ob(CONNECT, n + " pv", known(fs, pv) is True or any(y[0] == "op" and y[1] in ("or", "|") and contains(y, pv) and k for y, k in fs.items()), "made without a PV", f.loc(), pl)
            else:
                ok = False
            ctx.ob(CONNECT, n + " readback", ok, "readback PV is %s" % show(r), f.loc(), pl)
        else:
            ctx.ob(PUT, n + " writeable", st.get("writeable") == ("c", False), "a table of PVs is writeable: %s" % show(st.get("writeable", NONE)), f.loc(), pl)
        tg = calls(t, "set_tags")
        g = ctx.p.func("malcolm.modules.builtin.util.set_tags") if tg else None
        for i, e in tg:
            for j, a in enumerate(e.args):
                if a[0] == "p" and g is not None and j < len(g.params) and a[1] in g.params:
                    ctx.ob(PART, n + " tags", g.params[j] == a[1], "%s given as %s" % (a[1], g.params[j]), f.loc(), pl)
                if g is not None and j < len(g.params) and g.params[j] == "writeable":
                    ctx.ob(PUT, n + " writeable", a == st.get("writeable"), "tagged as writeable: %s" % show(a), f.loc(), pl)
        ctx.ob(PART, n + " tags", len(tg) == 1, "tags set %d times" % len(tg), f.loc(), pl)


def hooks_of(x):
    x = x[1] if x[0] in ("T", "list") else (x,)
    return {str(k[1]).rsplit(".", 1)[-1] for k in x if k[0] in ("cls", "ext", "g", "a")}


def registered(t):
    """{hook: [functions]}"""
    out = {}
    for e in t.events:
        if e.kind == "call" and len(e.args) >= 2:
            hs = hooks_of(t.state.snap(e.args[0])) & {"DisableHook", "InitHook", "ResetHook"}
            for h in hs:
                out.setdefault(h, []).append(e.args[1])
    return out


def is_meth(x, obj, name):
    return last_name(x) == name and x[0] in ("a", "bm") and x[1] == obj


def setup(ctx, c):
    f, S, tr = drive(ctx, c, "setup", never=HIDE)
    n = c.name + ".setup"
    reg, name, hooked, wf = (("p", k) for k in f.params[1:5])
    for t, fs, pl in paths(tr):
        adds = calls(t, "add_attribute_model")
        ok = t.outcome == "return" and len(adds) == 1
        ctx.ob(CONNECT, n, ok, "attribute added %d times" % len(adds), f.loc(), pl)
        if not ok:
            continue
        e = adds[0][1]
        w = arg(e, 2, "writeable_func")
        ctx.ob(CONNECT, n, arg(e, 0, "name") == name and arg(e, 1, "attr") == ("a", S, "attr"), "adds %s" % [show(a) for a in e.args], f.loc(), pl)
        k = known(fs, ("a", S, "writeable"))
        if k:
            g = known(fs, wf)
            ok = w == wf if g else is_meth(w, S, "caput") and g is False
        else:
            ok = k is False and w == NONE
        ctx.ob(PUT, n, ok, "puts go to %s when writeable is %s" % (show(w), k), f.loc(), pl)
        r = registered(t)
        for h, m in (("DisableHook", "disconnect"), ("InitHook", "reconnect"), ("ResetHook", "reconnect")):
            fn = r.get(h, [])
            ctx.ob(CONNECT, "%s %s" % (n, h), len(fn) == 1 and is_meth(fn[0], S, m), "%s: %s" % (h, [show(x) for x in fn]), f.loc(), pl)


def caput(ctx, c):
    f, S, tr = drive(ctx, c, "caput", never=HIDE | {"_update_value"})
    n = c.name + ".caput"
    v = ("p", f.params[1])
    to = ("a", S, "timeout")
    for t, fs, pl in paths(tr):
        put, get, upd = calls(t, "caput"), calls(t, "caget"), calls(t, "_update_value")
        if t.outcome != "return" or (len(put), len(get), len(upd)) != (1, 1, 1):
            ctx.ob(PUT, n, False, "%d puts, %d reads, %d updates" % (len(put), len(get), len(upd)), f.loc(), pl)
            continue
        (pi, pe), (gi, ge), (ui, ue) = put[0], get[0], upd[0]
        neg = fs.get(("op", "<", to, ("c", 0)))
        if neg is None and ("op", "<=", ("c", 0), to) in fs:
            neg = not fs[("op", "<=", ("c", 0), to)]
        ctx.ob(PUT, n, pi < gi < ui, "put, read back and update are not in this order", f.loc(), pl)
        ctx.ob(PUT, n + " puts", arg(pe, 0, "pvs") == ("a", S, "pv") and arg(pe, 1, "values") == v and pe.kwd("wait") == ("c", True) and pe.kwd("datatype") == ("a", S, "datatype"), "puts %s %s" % ([show(a) for a in pe.args], [(k, show(x)) for k, x in pe.kw]), f.loc(), pl)
        ctx.ob(PUT, n + " timeout", neg is not None and pe.kwd("timeout") == (NONE if neg else to), "timeout %s" % show(pe.kwd("timeout", NONE)), f.loc(), pl)
        ctx.ob(PUT, n + " reads", arg(ge, 0, "pvs") == ("a", S, "rbv") and last_name(ge.kwd("format", NONE)) == "FORMAT_TIME" and ge.kwd("datatype") == ("a", S, "datatype") and ge.kwd("throw") == ("a", S, "throw"), "reads %s %s" % ([show(a) for a in ge.args], [(k, show(x)) for k, x in ge.kw]), f.loc(), pl)
        ctx.ob(PUT, n + " updates", is_call(arg(ue, 0, "value"), "caget"), "updates with %s" % [show(a) for a in ue.args], f.loc(), pl)


def connected(ctx):
    from checks.c15 import fun
    f, tr = fun_paths(ctx, "malcolm.modules.ca.util.assert_connected")
    vs, th = ("p", f.params[0]), ("p", f.params[1])
    for t, fs, pl in paths(tr):
        k = known(fs, th)
        oks = {y: x for y, x in fs.items() if y[0] == "a" and y[2] == "ok" and y[1][0] == "elem" and y[1][1] == vs}
        if t.outcome == "return":
            every = any(is_call(y, "all") and x or y[0] == "op" and y[1] == "and" and x for y, x in fs.items())
            ctx.ob(CONNECT, "assert_connected", t.value == vs and (k is False or k and (len(oks) == 2 and all(oks.values()) or every)), "returns %s, knowing %s" % (show(t.value), ["%s: %s" % (show(y), x) for y, x in fs.items()]), f.loc(), pl)
        else:
            ctx.ob(CONNECT, "assert_connected", k is True and False in oks.values() or k is True and any(not x for y, x in fs.items() if contains(y, vs)), "refused although %s" % ["%s: %s" % (show(y), x) for y, x in fs.items()], f.loc(), pl)


def fun_paths(ctx, qual):
    from sa.q import EQ, Interp
    from checks.util import two
    T = lambda *a: True
    f = ctx.p.func(qual)
    it = Interp(ctx.p, EQ(names=FOLLOW, call=T, cond=T, store=T, with_=T, counts=two, max_iter=2, noraise=T, never=HIDE))
    tr = it.run(f, None)
    ctx.used(it, tr)
    return f, tr


def action(ctx):
    c = ctx.p.cls("CAActionPart")
    f, S, tr = drive(ctx, c, "setup", never=HIDE)
    for t, fs, pl in paths(tr):
        r = registered(t)
        for h in ("InitHook", "ResetHook"):
            fn = r.get(h, [])
            ctx.ob(CONNECT, "CAActionPart.setup " + h, len(fn) == 1 and is_meth(fn[0], S, "reconnect"), "%s: %s" % (h, [show(x) for x in fn]), f.loc(), pl)
        adds = calls(t, "add_method_model")
        ok = len(adds) == 1 and is_meth(arg(adds[0][1], 0, "func"), S, "caput") and arg(adds[0][1], 1, "name") == ("a", S, "name")
        ctx.ob(ACTION, "CAActionPart.setup", ok, "methods %s" % [[show(a) for a in e.args] for i, e in adds], f.loc(), pl)
    f, S, tr = drive(ctx, c, "__init__", never=HIDE)
    for t, fs, pl in paths(tr, "return"):
        st = {e.term[2]: e.args[0] for e in t.events if e.kind == "store" and e.term[0] == "a" and e.term[1] == S}
        for k in ("pv", "status_pv", "good_status", "status_timeout", "message_pv", "value", "wait", "throw", "description"):
            ctx.ob(ACTION, "CAActionPart.__init__", st.get(k) == ("p", k), "%s is %s" % (k, show(st.get(k, NONE))), f.loc(), pl)
    f, S, tr = drive(ctx, c, "caput", never=HIDE | {"wait_for_good_status"})
    A = lambda k: ("a", S, k)
    for t, fs, pl in paths(tr):
        put, wait = calls(t, "caput"), calls(t, "wait_for_good_status")
        ok = len(put) == 1 and arg(put[0][1], 0, "pvs") == A("pv") and arg(put[0][1], 1, "values") == A("value") and put[0][1].kwd("wait") == A("wait") and put[0][1].kwd("timeout") == NONE
        ctx.ob(ACTION, "CAActionPart.caput puts", ok, "puts %s" % [([show(a) for a in e.args], [(k, show(x)) for k, x in e.kw]) for i, e in put], f.loc(), pl)
        k = known(fs, A("status_pv"))
        good = [x for y, x in fs.items() if y[0] == "op" and y[1] == "==" and A("good_status") in y[2:] and any(is_call(z, "wait_for_good_status") for z in y[2:])]
        if k is False:
            ctx.ob(ACTION, "CAActionPart.caput", t.outcome == "return" and not wait, "no status PV: %s" % t.outcome, f.loc(), pl)
            continue
        ok = k is True and len(wait) == 1 and put and wait[0][0] > put[0][0]
        d = arg(wait[0][1], 0, "deadline") if len(wait) == 1 else NONE
        ok = ok and d[0] == "op" and d[1] == "+" and A("status_timeout") in d[2:] and any(is_call(x, "time") for x in d[2:])
        ctx.ob(ACTION, "CAActionPart.caput waits", ok, "waits %d times, until %s" % (len(wait), show(d)), f.loc(), pl)
        ctx.ob(ACTION, "CAActionPart.caput status", good == [t.outcome == "return"], "%s with status found good: %s" % (t.outcome, good), f.loc(), pl)
    wait_good(ctx, c)
    f, S, tr = drive(ctx, c, "reconnect", never=HIDE)
    for t, fs, pl in paths(tr):
        get = calls(t, "caget")
        if len(get) != 1:
            ctx.ob(CONNECT, "CAActionPart.reconnect", False, "%d reads" % len(get), f.loc(), pl)
            continue
        got = pvs_of(arg(get[0][1], 0, "pvs"), t)
        want = [A("pv")] + [A(k) for k in ("status_pv", "message_pv") if known(fs, A(k))]
        ctx.ob(CONNECT, "CAActionPart.reconnect reads", got is not None and sorted(got, key=str) == sorted(want, key=str) and get[0][1].kwd("throw") == A("throw"), "reads %s" % (got and [show(x) for x in got]), f.loc(), pl)
        v = get[0][1]
        val = lambda x: x[0] == "elem" and is_call(x[1], "caget")
        oks = {y: x for y, x in fs.items() if y[0] == "a" and y[2] == "ok" and val(y[1])}
        non = {y: x for y, x in fs.items() if y[0] == "op" and y[1] == "isinstance" and val(y[2])}
        lost = False in oks.values() or True in non.values()
        th = known(fs, A("throw"))
        tags = calls(t, "set_tags")
        if lost:
            hid = any("method_hidden" in str(e.args) for i, e in tags) or any("method:hidden" in str(deep(t, a)) for i, e in tags for a in e.args)
            ok = t.outcome == "raise" if th else t.outcome == "return" and hid and th is False
        else:
            ok = t.outcome == "return" and not tags and len(oks) >= 2
        ctx.ob(CONNECT, "CAActionPart.reconnect", ok, "%s, a PV not connected: %s, throw: %s, hidden: %s" % (t.outcome, lost, th, bool(tags)), f.loc(), pl)


def wait_good(ctx, c):
    from sa.q import EQ, Interp
    from checks.util import two
    T = lambda *a: True
    f = ctx.p.method(c, "wait_for_good_status")
    S = ("o", "self", c.qual)
    quiet = lambda it, fn, st: last_name(fn) not in ("get", "camonitor", "caget")
    it = Interp(ctx.p, EQ(names=FOLLOW, call=T, cond=T, store=T, with_=T, counts=two, max_iter=2, noraise=quiet, never=HIDE | {"get", "put"}))
    tr = it.run(f, c)
    ctx.used(it, tr)
    A = lambda k: ("a", S, k)
    d = ("p", f.params[1])
    for t, fs, pl in paths(tr):
        mon = calls(t, "camonitor")
        n = "CAActionPart.wait_for_good_status"
        ok = len(mon) == 1 and arg(mon[0][1], 0, "pvs") == A("status_pv") and last_name(arg(mon[0][1], 1, "callback")) == "put" and last_name(mon[0][1].kwd("datatype", NONE)) == "DBR_STRING"
        ctx.ob(ACTION, n + " monitors", ok, "monitors %s" % [[show(a) for a in e.args] for i, e in mon], f.loc(), pl)
        if not ok:
            continue
        failed = any(e.kind == "raised" and last_name(e.term) == "camonitor" for e in t.events)
        cl = [e for i, e in calls(t, "close") if is_call(e.term[1], "camonitor")]
        ctx.ob(ACTION, n + " closes", failed or len(cl) == 1, "monitor closed %d times" % len(cl), f.loc(), pl)
        gets = [(i, e) for i, e in calls(t, "get")]
        q = arg(mon[0][1], 1, "callback")[1]
        got = [e for i, e in gets if not (i + 1 < len(t.events) and t.events[i + 1].kind == "raised" and t.events[i + 1].term == e.term)]
        ctx.ob(ACTION, n + " waits", all(e.term[1] == q and arg(e, 0, "timeout")[:2] == ("op", "-") and arg(e, 0, "timeout")[2] == d for i, e in gets), "waits with %s" % [show(arg(e, 0, "timeout")) for i, e in gets], f.loc(), pl)
        if t.outcome == "return":
            last = gets[-1][1] if gets else None
            r = t.value
            eq = [x for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "==" and A("good_status") in e.term[2:] for x in [bool(e.extra)]]
            timed = len(got) < len(gets)
            ok = bool(gets) and (is_call(r, "get") or r == NONE and not got or is_call(r, "Wait"))
            ok = ok and (timed or eq[-1:] == [True]) and not (True in eq[:-1])
            ctx.ob(ACTION, n, ok, "returns %s after %d values, comparisons %s" % (show(r), len(got), eq), f.loc(), pl)


KIND = {"BooleanMeta": {"DBR_LONG", "DBR_ENUM", "DBR_SHORT"}, "StringMeta": {"DBR_STRING", "DBR_CHAR_STR"}, "ChoiceMeta": {"DBR_ENUM"}, "float64": {"DBR_DOUBLE"}, "float32": {"DBR_FLOAT", "DBR_DOUBLE"}, "int32": {"DBR_LONG"}, "int16": {"DBR_SHORT", "DBR_LONG"}}


def suits(meta, dt, t):
    """is this the data type of such an attribute"""
    d = last_name(dt)
    k = kws(meta)
    n = str(meta[1]).rsplit(".", 1)[-1] if meta[0] == "new" else None
    if n in ("NumberMeta", "NumberArrayMeta"):
        x = k.get("dtype", NONE)
        return x[0] == "c" and d in KIND.get(x[1], ())
    if n == "TableMeta":
        el = t.state.snap(k.get("elements", NONE))
        el = [v for kk, v in el[1]] if el[0] == "dict" else []
        return len(el) == 2 and all(suits(v, dt, t) for v in el)
    return d in KIND.get(n, ())


def parts(ctx, kinds):
    names = {c.name for c in kinds}
    users = []
    for c in sorted(ctx.p.subclasses(ctx.p.cls("Part"), strict=True), key=lambda c: c.qual):
        m = c.methods.get("__init__")
        if m is not None and any(isinstance(n, ast.Call) and last(n.func) in names for n in ast.walk(m.node)):
            users.append(c)
    ctx.ob(PART, "parts", len(users) >= 10, "only %d parts with PVs found" % len(users))
    for c in users:
        part(ctx, c, names)


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


def part(ctx, c, names):
    f, S, tr = drive(ctx, c, "__init__", never=HIDE)
    fields = {}
    for t, fs, pl in paths(tr, "return"):
        for e in t.events:
            if e.kind == "store" and e.term[0] == "a" and e.term[1] == S:
                x = t.state.snap(e.args[0])
                if x[0] == "new" and str(x[1]).rsplit(".", 1)[-1] in names:
                    fields[e.term[2]] = kws(x)
                    k = kws(x)
                    n = "%s.%s" % (c.name, e.term[2])
                    meta = t.state.snap(k.get("meta", NONE))
                    ctx.ob(PART, n + " type", suits(meta, k.get("datatype", NONE), t), "%s with %s" % (show(meta), show(k.get("datatype", NONE))), f.loc(), pl)
                    for p in f.params:
                        if p in k and p not in ("name", "description"):
                            ctx.ob(PART, n + " arguments", k[p] == ("p", p), "%s is %s" % (p, show(k[p])), f.loc(), pl)
                    for p, v in k.items():
                        if v[0] == "p" and v[1] in k:
                            ctx.ob(PART, n + " arguments", v[1] == p, "%s is %s" % (p, show(v)), f.loc(), pl)
                    for p in ("on_connect", "callback"):
                        v = k.get(p, NONE)
                        ctx.ob(PART, n + " " + p, v == NONE or contains(v, S) and last_name(v) is not None and ctx.p.lookup(c, last_name(v)) is not None, "%s is %s" % (p, show(v)), f.loc(), pl)
                    if str(meta[1]).endswith(".ChoiceMeta"):
                        ctx.ob(PART, n + " choices", k.get("on_connect", NONE) != NONE, "choices are not taken from the PV", f.loc(), pl)
    ctx.ob(PART, c.name, bool(fields), "no attribute of a PV found", f.loc())
    used = {}
    f, S, tr = drive(ctx, c, "setup", never=HIDE)
    for t, fs, pl in paths(tr):
        if t.outcome != "return":
            ctx.ob(PART, c.name + ".setup", False, "ends with %s" % show(t.value), f.loc(), pl)
            continue
        r = registered(t)
        for fld in sorted(fields):
            a = ("a", S, fld)
            adds = [e for i, e in calls(t, "add_attribute_model") if arg(e, 1, "attr") == ("a", a, "attr")]
            ctx.ob(CONNECT, "%s.%s added" % (c.name, fld), len(adds) == 1, "attribute added %d times" % len(adds), f.loc(), pl)
            for h, m in (("DisableHook", "disconnect"), ("InitHook", "reconnect"), ("ResetHook", "reconnect")):
                ok = any(is_meth(x, a, m) or x[0] in ("a", "bm") and x[1] == S and through(ctx, c, last_name(x), a, m) for x in r.get(h, []))
                ctx.ob(CONNECT, "%s.%s %s" % (c.name, fld, h), ok, "%s: %s" % (h, [show(x) for x in r.get(h, [])]), f.loc(), pl)
            for e in adds:
                w = arg(e, 2, "writeable_func")
                if known(fs, ("a", a, "writeable")) and w != NONE:
                    used[fld] = w
    for fld, k in sorted(fields.items()):
        conversions(ctx, c, S, fld, k, used.get(fld))
    on_connect(ctx, c, S, fields)


def through(ctx, c, name, obj, m):
    """does the part's own hook function do this on every path"""
    if not name or ctx.p.lookup(c, name) is None:
        return False
    f, S, tr = drive(ctx, c, name, never=HIDE | {"reconnect", "disconnect"})
    ts = [t for t, fs, pl in paths(tr)]
    return bool(ts) and all(t.outcome == "return" and any(e.term[0] in ("a", "bm") and e.term[1] == obj for i, e in calls(t, m)) for t in ts)


def conversions(ctx, c, S, fld, k, w):
    """what is put to the PV for a value put to the attribute"""
    meta = str(k.get("meta", (0, ""))[1]).rsplit(".", 1)[-1]
    if "pv" not in k or k.get("pv", ("c", "")) == ("c", ""):
        return
    n = "%s.%s put" % (c.name, fld)
    a = ("a", S, fld)
    plain = w is None or is_meth(w, a, "caput")
    if plain:
        ctx.ob(PUT, n, meta not in ("ChoiceMeta", "BooleanMeta", "NumberArrayMeta") or w is None and c.name not in ("CAChoicePart",) and meta not in ("ChoiceMeta", "BooleanMeta", "NumberArrayMeta"), "a %s value is put as it is" % meta)
        return
    m = last_name(w)
    f, S, tr = drive(ctx, c, m, never=HIDE | {"caput"}, names={"caput"})
    v = ("p", f.params[1])
    for t, fs, pl in paths(tr):
        ps = [e for i, e in calls(t, "caput") if e.term[0] in ("a", "bm") and e.term[1] == a]
        ok = t.outcome == "return" and len(ps) == 1
        ctx.ob(PUT, n, ok, "put %d times, %s" % (len(ps), t.outcome), f.loc(), pl)
        if not ok:
            continue
        x = t.state.snap(arg(ps[0], 0, "value"))
        if meta == "ChoiceMeta":
            ok = is_call(x, "index") and x[2] == (v,) and last_name(x[1][1]) == "choices" or x[0] == "i" and contains(x[1], S) and "choices" in show(x) and contains(x, v)
        elif meta == "BooleanMeta":
            ok = is_call(x, "int") and x[2] == (v,) or x == ("op", "int", v) or x in (("c", 1), ("c", 0)) and known(fs, v) == bool(x[1])
        elif meta == "NumberArrayMeta":
            arr = [kk for y, kk in fs.items() if y[0] == "op" and y[1] in ("isinstance", "hasattr") and y[2] == v]
            ok = x == ("a", v, "seq") and arr == [True] or x == v and arr == [False]
        else:
            ok = x == v
        ctx.ob(PUT, n, ok, "puts %s" % show(x), f.loc(), pl)


def on_connect(ctx, c, S, fields):
    for fld, k in sorted(fields.items()):
        fn = k.get("on_connect", NONE)
        if fn == NONE:
            continue
        m = last_name(fn)
        f, S, tr = drive(ctx, c, m, never=HIDE)
        v = ("p", f.params[1])
        n = "%s.%s" % (c.name, m)
        meta = k["meta"]
        for t, fs, pl in paths(tr):
            ctx.ob(PART, n, t.outcome == "return", "ends with %s" % show(t.value), f.loc(), pl)
            if str(meta[1]).endswith(".ChoiceMeta"):
                ok = any(t.state.snap(e.args[0]) == ("a", v, "enums") or is_call(e.args[0], "list") and e.args[0][2] == (("a", v, "enums"),) for i, e in calls(t, "set_choices") if e.args)
                ctx.ob(PART, n + " choices", ok, "choices of the PV are not used", f.loc(), pl)
            ds = calls(t, "set_display")
            use = known(fs, ("a", S, "display_from_pv"))
            if use is None:
                ctx.ob(PART, n + " display", not ds and ctx.p.lookup(c, "__init__") is not None and "display_from_pv" not in ctx.p.lookup(c, "__init__").params, "display not taken from the PV only if wanted", f.loc(), pl)
                continue
            ctx.ob(PART, n + " display", use or not ds, "display changed", f.loc(), pl)
            tab = str(meta[1]).endswith(".TableMeta")
            if use and not tab:
                ctx.ob(PART, n + " display", len(ds) == 1, "display set %d times" % len(ds), f.loc(), pl)
            for i, e in ds:
                d = kws(t.state.snap(e.args[0])) if e.args else {}
                for key, src in (("limitHigh", "upper_disp_limit"), ("limitLow", "lower_disp_limit"), ("precision", "precision"), ("units", "units")):
                    ctx.ob(PART, n + " display", d.get(key) == ("a", v, src), "%s is %s" % (key, show(d.get(key, NONE))), f.loc(), pl)
                if tab:
                    x = e.term[1]
                    hit = [y for y, kk in fs.items() if kk and y[0] == "op" and y[1] == "==" and ("a", v, "name") in y[2:]]
                    ok = x[0] == "i" and last_name(x[1]) == "elements" and len(hit) == 1 and column(x[2], S) == column([z for z in hit[0][2:] if z != ("a", v, "name")][0], S) and column(x[2], S) is not None
                    ctx.ob(PART, n + " column", ok, "sets the display of %s" % show(x), f.loc(), pl)


def column(x, S):
    """which of the part's PVs or names this is"""
    if x[0] == "i" and x[1] in (("a", S, "name_list"), ("a", S, "pv_list")):
        return ("n", x[2][1] if x[2][0] == "c" else x[2] if x[2][0] not in ("elem", "idx") else x[2][2] if len(x[2]) > 2 else 0)
    if x[0] == "elem" and x[1] in (("a", S, "name_list"), ("a", S, "pv_list")):
        return ("n", x[2] if len(x) > 2 else 0)
    return None
