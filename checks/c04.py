"""Store/announce pairing on every path of every model method, of the squashing notifier and of the notifier tree: what is
stored in a model is announced inside the same squashed change, at that model's path, with the value that was stored; what
is announced reaches every subscriber node with the data it then has. Also who-may-store: no code outside the models
assigns a model field directly."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.project import Class
from sa.q import EQ, Interp, path_lines

PRIMS = ("set_endpoint_data", "remove_endpoint", "set_notifier_path", "__init__")
ANN = ("add_squashed_change", "add_squashed_delete")


def slots(p, c):
    out = set()
    for k in p.mro(c):
        if not isinstance(k, Class):
            continue
        for n in k.node.body:
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(tgt, ast.Name) and tgt.id == "__slots__" and isinstance(n.value, (ast.List, ast.Tuple)):
                out |= {e.value for e in n.value.elts if isinstance(e, ast.Constant)}
    return out


def is_squash(t):
    return t[0] in ("a", "bm") and last_name(t) == "changes_squashed"


def rel_path(t, selft):
    """announced path as a tuple of components below self.path, None if it is not below it"""
    if t is None or t[0] != "list" or not t[1]:
        return None
    if t[1][0] != ("star", ("a", selft, "path")):
        return None
    return t[1][1:]


def same(a, b):
    return a == b


class Model:
    def __init__(self, ctx, cls):
        self.ctx, self.p, self.cls = ctx, ctx.p, cls
        self.selft = ("o", "self", cls.qual)
        self.fields = slots(ctx.p, cls)

    def run(self, meth, inline_primitive=False, counts=2, args=None):
        p = self.p
        names = {"set_endpoint_data", "changes_squashed", "set_notifier_path"} | set(ANN)
        never = {"changes_squashed", "set_notifier_path", "validate", "deserialize_object"} | set(ANN)
        if not inline_primitive:
            never.add("set_endpoint_data")
        q = EQ(names=names,
               call=lambda it, fn, a, k, st: last_name(fn) in ANN + ("set_endpoint_data", "set_notifier_path", "delattr", "pop", "set_fields"),
               store=lambda it, b, n, v, st: b == self.selft,
               cond=lambda it, t, st: True,
               with_=lambda it, t, st: is_squash(t),
               force={"_update_fields"}, never=never | {"set_fields"}, counts=lambda it, b, st: [counts], max_iter=2)
        it = Interp(p, q)
        f = p.method(self.cls, meth)
        tr = it.run(f, self.cls, args)
        self.ctx.used(it, tr)
        return f, tr


def pairing(ctx, m, tag, t, pl):
    """every store to a field is announced in the same squashed change with the same value, and vice versa"""
    depth = 0
    pending = {}
    current = {}
    for e in t.events:
        if e.kind == "enter" and is_squash(e.term):
            depth += 1
        elif e.kind == "exit" and is_squash(e.term):
            depth -= 1
            if depth == 0 and t.outcome == "return":
                for n, (v, ev) in pending.items():
                    ctx.ob("store-is-announced", tag, False, "%s stored without announcing it" % show_name(n), ev.loc(), pl)
                pending = {}
        elif e.kind == "store":
            n = field_name(e)
            if n is None or (isinstance(n, str) and n not in m.fields):
                continue
            v = e.args[0] if e.args else None
            ctx.ob("stored-inside-squash", tag, depth >= 1, "%s stored outside a squashed change" % show_name(n), e.loc(), pl)
            pending[n] = (v, e)
            current[n] = v
        elif e.kind == "call" and e.name() == "add_squashed_change":
            rp = rel_path(e.arg(0, "path"), m.selft)
            v = e.arg(1, "data")
            ok = rp is not None and len(rp) >= 1
            ctx.ob("announced-at-own-path", tag, ok, "change announced at %s" % show(e.arg(0, "path")), e.loc(), pl)
            ctx.ob("announced-inside-squash", tag, depth >= 1, "announced outside a squashed change", e.loc(), pl)
            if not ok:
                continue
            n = rp[0][1] if rp[0][0] == "c" else rp[0]
            if n in pending and len(rp) == 1:
                ctx.ob("announced-value-is-stored-value", tag, same(v, pending[n][0]),
                       "stored %s but announced %s" % (show(pending[n][0]), show(v)), e.loc(), pl)
                del pending[n]
            elif len(rp) == 1:
                ctx.ob("announced-value-is-stored-value", tag, n in current and same(v, current[n]),
                       "announced %s for %s which was not stored" % (show(v), show_name(n)), e.loc(), pl)
    return pending


def show_name(n):
    return n if isinstance(n, str) else show(n)


def field_name(e):
    t = e.term
    if t[0] == "a":
        return t[2]
    if t[0] == "i":
        return t[2][1] if t[2][0] == "c" else t[2]
    return e.extra


def run(ctx):
    p = ctx.p
    base = p.cls("Model")
    seen = set()
    for c in [base] + sorted(p.subclasses(base, strict=True), key=lambda c: c.qual):
        for k in p.mro(c):
            if not isinstance(k, Class):
                continue
            for name, f in sorted(k.methods.items()):
                if name in PRIMS or f.is_classmethod or f.is_static or name.startswith("__"):
                    continue
                g = p.lookup(c, name)
                if internal(p, name):
                    continue
                touches = any(isinstance(x, ast.Attribute) and x.attr in ("set_endpoint_data", "notifier") + ANN
                              or (isinstance(x, (ast.Assign, ast.AugAssign)) and any(
                                  isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and isinstance(y.ctx, ast.Store)
                                  for y in ast.walk(x))) for x in ast.walk(g.node)) or name.startswith("set_")
                if not touches:
                    continue
                sig = (g.qual, getattr(p.lookup(c, "set_value_alarm_ts"), "qual", None) if name == "set_value" else None)
                if sig in seen:
                    continue
                seen.add(sig)
                method(ctx, c, name)
    for c in [base] + [x for x in p.subclasses(base, strict=True) if "set_endpoint_data" in x.methods]:
        primitive(ctx, c)
    for c in p.subclasses(base, strict=True):
        if "remove_endpoint" in c.methods:
            removal(ctx, c)
    paths(ctx)
    notifier(ctx)
    tree(ctx)
    frozen(ctx)
    outside(ctx)
    for r, n in (("store-is-announced", 4), ("setter-sets-its-field", 20), ("primitive-stores-and-announces-once", 4), ("direct-model-stores", 1),
                 ("flush-on-last-exit", 1), ("update-subscribers-get-current-data", 4), ("children-get-their-part", 4)):
        ctx.floor(r, n)


def internal(p, name):
    """a helper only called on self by other model methods: analysed where it is called"""
    if name.startswith("_"):
        return True
    if name.startswith("set_") or name == "apply_change":
        return False
    models = {c.qual for c in p.subclasses(p.cls("Model"))}
    refs = 0
    for f in p.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name:
                refs += 1
                if not (f.cls is not None and f.cls.qual in models and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]):
                    return False
    return refs > 0


def method(ctx, c, name):
    p = ctx.p
    m = Model(ctx, c)
    f, traces = m.run(name)
    tag = "%s.%s" % (f.cls.name, name)
    own = name[4:] if name.startswith("set_") and name[4:] in m.fields else None
    params = [x for x in f.params[1:]]
    for t in traces:
        pl = path_lines(t)
        left = pairing(ctx, m, tag, t, pl)
        if t.outcome != "return":
            continue
        # a table may announce only the columns that are new objects
        anns = [e for e in t.events if e.kind == "call" and e.name() == "add_squashed_change"]
        if left:
            for n, (v, ev) in left.items():
                ctx.ob("store-is-announced", tag, False, "%s stored without announcing it" % show_name(n), ev.loc(), pl)
        for e in t.events:
            if e.kind == "store" and field_name(e) in m.fields:
                ctx.ob("store-is-announced", tag, True)
        prims = [e for e in t.events if e.kind == "call" and e.name() == "set_endpoint_data"]
        if own:
            n_set = len([e for e in prims if e.arg(0, "name") == ("c", own)]) \
                + len([e for e in t.events if e.kind == "store" and field_name(e) == own])
            ctx.ob("setter-sets-its-field", tag, n_set == 1, "%s set %d times" % (own, n_set), f.module.rel, pl)
            extra = [e for e in prims if e.arg(0, "name") != ("c", own)]
            ctx.ob("setter-sets-only-its-field", tag, not extra or own == "value", "also sets %s" % [show(e.arg(0, "name")) for e in extra],
                   extra[0].loc() if extra else "", pl)
            for e in prims:
                if e.arg(0, "name") == ("c", own) and params:
                    v = e.arg(1, "value")
                    pt = ("p", params[0])
                    none = any(x.kind == "cond" and contains(x.term, pt) for x in t.events)
                    dep = none or any(contains(y, pt) for y in [v])
                    ctx.ob("setter-uses-its-argument", tag, dep, "%s set to %s, independent of the argument" % (own, show(v)), e.loc(), pl)
            if own != "value":
                ok = any(t.value[0] == "call" and last_name(t.value[1]) == "set_endpoint_data" for _ in [0]) or t.value == ("a", m.selft, own) \
                    or any(e.kind == "store" and field_name(e) == own and e.args[:1] == (t.value,) for e in t.events)
                ctx.ob("setter-returns-what-it-set", tag, ok, "returns %s" % show(t.value), f.module.rel, pl)
    if name == "set_value":
        set_value(ctx, c, m, f, traces, tag)
    if name == "set_value_alarm_ts":
        triple(ctx, c, m, f, traces, tag)


def set_value(ctx, c, m, f, traces, tag):
    """validated value always stored; alarm and time stamp as given, or ok/now, unless told to leave them"""
    pv, pset, pal, pts = [("p", x) for x in f.params[1:5]]
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        vals = [e.args[0] for e in t.events if e.kind == "store" and field_name(e) == "value"] \
            + [e.arg(1) for e in t.events if e.kind == "call" and e.name() == "set_endpoint_data" and e.arg(0) == ("c", "value")]
        ok = len(vals) == 1 and vals[0][0] == "call" and last_name(vals[0][1]) == "validate" and vals[0][1][1] == ("a", m.selft, "meta") and pv in vals[0][2]
        ctx.ob("set-value-validates", tag, ok, "value set to %s" % [show(v) for v in vals], f.module.rel, pl)
        asked = [e.extra for e in t.events if e.kind == "cond" and e.term == pset]
        ts = [e.args[0] for e in t.events if e.kind == "store" and field_name(e) == "timeStamp"]
        if asked:
            ctx.ob("set-value-stamps-unless-told-not-to", tag, bool(ts) == asked[-1], "set_alarm_ts=%s, time stamps set %d times" % (asked[-1], len(ts)), f.module.rel, pl)
        for x, src, nm in [(v, pts, "timeStamp") for v in ts] + [(e.args[0], pal, "alarm") for e in t.events if e.kind == "store" and field_name(e) == "alarm"]:
            none = [e.extra for e in t.events if e.kind == "cond" and e.term == ("op", "is", src, NONE)]
            if none and none[-1]:
                good = not contains(x, src)
                if nm == "alarm":
                    good = last_name(x) == "ok"
                else:
                    good = x[0] == "new" and x[1].endswith(".TimeStamp")
            else:
                good = contains(x, src)
            ctx.ob("set-value-passes-alarm-and-time", tag, good, "%s set to %s" % (nm, show(x)), f.module.rel, pl)


def triple(ctx, c, m, f, traces, tag):
    """set_value_alarm_ts: value and time stamp always, alarm unless it is the same one; a table may announce column by
    column but then every column that is not the same object"""
    pv, pal, pts = [("p", x) for x in f.params[1:4]]
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        st = {}
        for e in t.events:
            if e.kind == "store":
                st.setdefault(field_name(e), []).append(e.args[0])
        ctx.ob("value-alarm-time-all-stored", tag, st.get("value") == [pv] and st.get("timeStamp") == [pts],
               "stored %s" % {k: [show(x) for x in v] for k, v in st.items() if isinstance(k, str)}, f.module.rel, pl)
        eq = any(e.kind == "cond" and e.extra is True and e.term[:2] in (("op", "is"), ("op", "=="))
                 and {e.term[2], e.term[3]} == {pal, ("a", m.selft, "alarm")} for e in t.events)
        ctx.ob("value-alarm-time-all-stored", tag + "/alarm", st.get("alarm") == [pal] or (eq and "alarm" not in st),
               "alarm not stored although it may differ", f.module.rel, pl)
        anns = [(rel_path(e.arg(0, "path"), m.selft), e.arg(1, "data"), e) for e in t.events if e.kind == "call" and e.name() == "add_squashed_change"]
        anns = [(r, d, e) for r, d, e in anns if r and r[0] == ("c", "value")]
        if any(len(r) == 1 and d == pv for r, d, e in anns):
            ctx.ob("changed-columns-announced", tag, True)
            continue
        for i in range(2):
            k = ("elem", pv, i)
            col = {("val", pv, i), ("i", pv, k)}
            old = ("i", ("a", m.selft, "value"), k)
            unchanged = any(e.kind == "cond" and e.extra is True and e.term[:2] == ("op", "is")
                            and old in e.term[2:] and (set(e.term[2:]) & col) for e in t.events)
            ann = [e for r, d, e in anns if len(r) == 2 and r[1] == k and d in col]
            ctx.ob("changed-columns-announced", tag, unchanged or len(ann) == 1,
                   "column %d may have changed but is announced %d times" % (i, len(ann)), f.module.rel, pl)


def pairing_partial(m):
    return m


_pairing = pairing


def pairing(ctx, m, tag, t, pl):  # noqa: F811
    """as above, but column-wise announcements of `value` count for the table rule instead"""
    if tag.endswith("set_value_alarm_ts") or tag.endswith("set_value"):
        part = [e for e in t.events if e.kind == "call" and e.name() == "add_squashed_change"
                and rel_path(e.arg(0, "path"), m.selft) and len(rel_path(e.arg(0, "path"), m.selft)) == 2]
        conds = [e for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "is")
                 and any(x[0] == "i" and x[1] == ("a", m.selft, "value") for x in e.term[2:] if isinstance(x, tuple) and x)]
        if part or conds:
            ev = []
            for e in t.events:
                if e.kind == "store" and field_name(e) == "value":
                    continue
                if e in part:
                    continue
                if e.kind == "call" and e.name() == "add_squashed_change" and rel_path(e.arg(0, "path"), m.selft) == (("c", "value"),):
                    continue
                ev.append(e)

            class T:
                events = ev
                outcome = t.outcome
            return _pairing(ctx, m, tag, T, pl)
    return _pairing(ctx, m, tag, t, pl)


def primitive(ctx, c):
    m = Model(ctx, c)
    f, traces = m.run("set_endpoint_data", inline_primitive=True, counts=2 if c.name != "Model" else 1)
    if ctx.thorough:
        pass
    tag = c.name + ".set_endpoint_data"
    nm, pv = [("p", x) for x in f.params[1:3]]
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        _pairing(ctx, m, tag, t, pl)
        stores = [e for e in t.events if e.kind == "store"]
        stores = [e for e in stores if not (isinstance(field_name(e), str) and field_name(e) not in m.fields)]
        anns = [e for e in t.events if e.kind == "call" and e.name() == "add_squashed_change"]
        ok = len(stores) == 1 and len(anns) == 1
        ctx.ob("primitive-stores-and-announces-once", tag, ok, "%d stores, %d announcements" % (len(stores), len(anns)), f.module.rel, pl)
        if not ok:
            continue
        s, a = stores[0], anns[0]
        n = field_name(s)
        rp = rel_path(a.arg(0), m.selft)
        ctx.ob("primitive-announces-the-name-it-set", tag, rp is not None and len(rp) == 1 and contains(rp[0], nm) and (n == rp[0] or n == rp[0][1]),
               "stored %s, announced %s" % (show_name(n), show(a.arg(0))), a.loc(), pl)
        v = s.args[0]
        ctx.ob("primitive-stores-its-argument", tag, contains(v, pv) and a.arg(1) == v and t.value == v,
               "stored %s announced %s returned %s" % (show(v), show(a.arg(1)), show(t.value)), s.loc(), pl)
        # adoption: what becomes reachable notifies through us, what was replaced stops
        adopt = [e for e in t.events if e.kind == "call" and e.name() == "set_notifier_path"]
        is_model = [e.extra for e in t.events if e.kind == "cond" and contains_call(e.term, "matches_type")]
        mapping = any(e.kind == "cond" and e.extra is True and e.term[0] == "a" and e.term[2] == "is_mapping" for e in t.events)
        array = any(e.kind == "cond" and e.extra is True and e.term[0] == "a" and e.term[2] == "is_array" for e in t.events)
        if c.name == "Model" and (array or not (is_model and is_model[-1])):
            continue
        own = ("a", m.selft, "notifier")
        news = [e for e in adopt if e.arg(0) == own]
        olds = [e for e in adopt if e.arg(0) != own]
        if mapping:
            ok = len(news) == 1 and news[0].term[1] in (("val", pv, 0), ("i", pv, ("elem", pv, 0))) \
                and rel_path(news[0].arg(1), m.selft) == (rp[0], ("elem", pv, 0))
        else:
            ok = len(news) == 1 and (news[0].term[1] == v or contains(news[0].term[1], pv)) and rel_path(news[0].arg(1), m.selft) == (rp[0],)
        ctx.ob("new-model-adopted", tag, ok, "new child given %s" % [(show(e.term), [show(x) for x in e.args]) for e in news], s.loc(), pl)
        # was there an old one?
        had = None
        for e in t.events:
            if e.kind != "cond":
                continue
            x = e.term
            if contains_call(x, "getattr") or x[:2] == ("op", "in"):
                had = e.extra
        if had is not False:
            ctx.ob("old-model-released", tag, len(olds) == 1 and olds[0].arg(1) == ("list", ()),
                   "replaced child told %s" % [[show(x) for x in e.args] for e in olds], s.loc(), pl)
        first_old = [i for i, e in enumerate(t.events) if e in olds]
        first_new = [i for i, e in enumerate(t.events) if e in news]
        if first_old and first_new:
            ctx.ob("old-released-before-new-adopted", tag, max(first_old) < min(first_new), "the same model set again would be left detached", s.loc(), pl)
        if c.name != "Model":
            ctx.ob("field-list-updated", tag, fields_updated(t, m), "list of fields not updated", f.module.rel, pl)


def fields_updated(t, m):
    return any(e.kind == "call" and e.name() == "set_fields" for e in t.events)


def contains_call(t, n):
    return any(isinstance(x, tuple) and x and x[0] == "call" and last_name(x[1]) == n for x in walk_term(t))


def removal(ctx, c):
    m = Model(ctx, c)
    f, traces = m.run("remove_endpoint")
    tag = c.name + ".remove_endpoint"
    nm = ("p", f.params[1])
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        dels = [e for e in t.events if e.kind == "call" and e.name() == "add_squashed_delete"]
        ctx.ob("removal-announced-once", tag, len(dels) == 1 and rel_path(dels[0].arg(0), m.selft) == (nm,),
               "deletion announced as %s" % [show(e.arg(0)) for e in dels], f.module.rel, pl)
        ctx.ob("removed-field-is-gone", tag, any(e.kind in ("call", "delete") and e.name() == "delattr" and nm in e.args for e in t.events)
               and any(e.kind == "call" and e.name() == "pop" and e.arg(0) == nm for e in t.events) or
               any(e.kind == "del" for e in t.events), "field not removed", f.module.rel, pl)
        ctx.ob("old-model-released", tag, any(e.kind == "call" and e.name() == "set_notifier_path" and e.arg(1) == ("list", ()) for e in t.events),
               "removed child still notifies", f.module.rel, pl)
        ctx.ob("field-list-updated", tag, fields_updated(t, m), "list of fields not updated", f.module.rel, pl)
        d = 0
        for e in t.events:
            if e.kind == "enter":
                d += 1
            elif e.kind == "exit":
                d -= 1
            elif e.kind == "call" and e.name() == "add_squashed_delete":
                ctx.ob("announced-inside-squash", tag, d >= 1, "deletion announced outside a squashed change", e.loc(), pl)


def paths(ctx):
    """set_notifier_path hands notifier and extended path to every child model"""
    p = ctx.p
    c = p.cls("Model")
    m = Model(ctx, c)
    q = EQ(names={"set_notifier_path"}, call=lambda it, fn, a, k, st: last_name(fn) == "set_notifier_path",
           store=lambda it, b, n, v, st: b == m.selft, cond=lambda it, t, st: True, counts=lambda it, b, st: [1], max_recursion=1,
           never={"matches_type"})
    # only calls on children are of interest, do not follow them
    q.never_inline = lambda f: f.name in ("set_notifier_path", "matches_type")
    it = Interp(p, q)
    f = p.method(c, "set_notifier_path")
    traces = it.run(f, c)
    ctx.used(it, traces)
    pn, pp = [("p", x) for x in f.params[1:3]]
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        st = {field_name(e): e.args[0] for e in t.events if e.kind == "store"}
        ctx.ob("notifier-and-path-stored", "Model.set_notifier_path", st.get("notifier") == pn and st.get("path") == pp,
               "stored %s" % {k: show(v) for k, v in st.items() if isinstance(k, str)}, f.module.rel, pl)
        mapping = [e.extra for e in t.events if e.kind == "cond" and e.term[0] == "a" and e.term[2] == "is_mapping"]
        model = [e.extra for e in t.events if e.kind == "cond" and contains_call(e.term, "matches_type")]
        calls = [e for e in t.events if e.kind == "call"]
        if mapping and model and model[-1]:
            key = ("elem", ("a", m.selft, "call_types"), 0)
            if mapping[-1]:
                child = [x for x in calls if len(x.arg(1)[1]) == 3] if calls and calls[0].arg(1)[0] == "list" else []
                ok = len(calls) == 1 and len(child) == 1 and calls[0].arg(0) == pn and calls[0].arg(1)[1][0] in (("star", pp), ("star", ("a", m.selft, "path"))) \
                    and calls[0].arg(1)[1][1] == key
            else:
                ok = len(calls) == 1 and calls[0].arg(0) == pn and calls[0].arg(1)[0] == "list" \
                    and calls[0].arg(1)[1] in ((("star", pp), key), (("star", ("a", m.selft, "path")), key))
            ctx.ob("path-reaches-children", "Model.set_notifier_path", ok, "child told %s" % [[show(x) for x in e.args] for e in calls], f.module.rel, pl)


def queue_attr(p):
    """the attribute of Notifier that collects squashed changes: the one add_squashed_change appends to"""
    f = p.method(p.cls("Notifier"), "add_squashed_change")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Attribute):
            return n.func.value.attr
    return None


def notifier(ctx):
    p = ctx.p
    n = p.cls("Notifier")
    selft = ("o", "self", n.qual)
    for meth in ANN:
        q = EQ(names={"append"}, call=lambda it, fn, a, k, st: last_name(fn) in ("append", "extend", "insert"), cond=lambda it, t, st: True)
        it = Interp(p, q)
        f = p.method(n, meth)
        traces = it.run(f, n)
        ctx.used(it, traces)
        pp = ("p", f.params[1])
        tail = ("i", pp, ("op", "slice", ("c", 1), ("c", None), ("c", None)))
        want = ("list", (tail, ("p", f.params[2]))) if meth == ANN[0] else ("list", (tail,))
        for t in traces:
            if t.outcome != "return":
                continue
            calls = [e for e in t.events if e.kind == "call"]
            ok = len(calls) == 1 and calls[0].name() == "append" and calls[0].args == (want,) and calls[0].term[1][0] == "a" and calls[0].term[1][1] == selft
            ctx.ob("change-queued-once", "Notifier." + meth, ok, "queued %s" % [[show(a) for a in e.args] for e in calls], f.module.rel, path_lines(t))
    qa = queue_attr(p)
    for meth in ("__enter__", "__exit__"):
        f = p.method(n, meth)
        q = EQ(names={"acquire", "release"}, call=lambda it, fn, a, k, st: last_name(fn) in ("acquire", "release"), store=lambda it, b, nm, v, st: b == selft,
               never={"notify_changes", "_callback_responses"}, counts=lambda it, b, st: [1])
        it = Interp(p, q)
        traces = it.run(f, n)
        ctx.used(it, traces)
        for t in traces:
            held = meth == "__exit__"
            for e in t.events:
                if e.kind == "call":
                    held = e.name() == "acquire"
                elif e.kind == "store":
                    ctx.ob("changes-counted-under-the-lock", "Notifier." + meth, held, "%s changed without the lock" % field_name(e), e.loc(), path_lines(t))
    f = p.method(n, "__exit__")
    q = EQ(names={"notify_changes", "release"} | {qa},
           call=lambda it, fn, a, k, st: last_name(fn) in ("notify_changes",) or fn[0] in ("elem", "i", "p"),
           store=lambda it, b, nm, v, st: b == selft, cond=lambda it, t, st: True, never={"notify_changes"}, counts=lambda it, b, st: [2])
    it = Interp(p, q)
    traces = it.run(f, n)
    ctx.used(it, traces)
    for t in traces:
        pl = path_lines(t)
        calls = [e for e in t.events if e.kind == "call" and e.name() == "notify_changes"]
        last = None
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "==") and ("c", 0) in e.term[2:]:
                last = e.extra
            elif e.kind == "cond" and e.term[0] == "op" and e.term[1] == "-" and last is None:
                last = not e.extra
        if t.outcome != "return":
            continue
        ctx.ob("flush-on-last-exit", "Notifier.__exit__", last is not None and len(calls) == (1 if last else 0),
               "last exit: %s, tree notified %d times" % (last, len(calls)), f.module.rel, pl)
        for e in calls:
            ctx.ob("flush-sends-the-queue", "Notifier.__exit__", e.arg(0) == ("a", selft, qa), "tree given %s" % show(e.arg(0)), e.loc(), pl)
            st = [x.args[0] for x in t.events if x.kind == "store" and field_name(x) == qa]
            ctx.ob("flush-empties-the-queue", "Notifier.__exit__", len(st) == 1 and (st[0] == ("list", ()) or st[0][0] == "L"),
                   "queue left as %s" % [show(x) for x in st], e.loc(), pl)
            res = [x for x in t.events if x.kind == "call" and x.name() != "notify_changes"]
            ok = len(res) == 2
            ctx.ob("every-subscriber-called-once", "Notifier.__exit__", ok, "%d of 2 responses delivered" % len(res), e.loc(), pl)
            for x in res:
                el = x.term[1]
                ctx.ob("response-goes-to-its-callback", "Notifier.__exit__",
                       x.term == ("i", el, ("c", 0)) and x.args == (("i", el, ("c", 1)),), "called %s(%s)" % (show(x.term), [show(a) for a in x.args]), x.loc(), pl)


def tree(ctx):
    p = ctx.p
    n = p.cls("NotifierNode")
    selft = ("o", "self", n.qual)
    f = p.method(n, "notify_changes")
    ch = ("p", f.params[1])
    P = ("p", "samepath")
    two = ("T", (("T", (P, ("p", "d0"))), ("T", (P, ("p", "d1")))))
    for nch, nkids, conc in ((1, 2, None), (2, 1, None), (2, 1, two)):
        q = EQ(names={"update_response", "delta_response", "notify_changes", "data", "children"},
               call=lambda it, fn, a, k, st: last_name(fn) in ("update_response", "delta_response", "notify_changes", "freeze"),
               store=lambda it, b, nm, v, st: True, cond=lambda it, t, st: True,
               never={"notify_changes", "freeze", "update_response", "delta_response"},
               counts=lambda it, b, st: [nch] if b == ch else [nkids] if b == ("a", selft, "children") else [2])
        it = Interp(p, q)
        traces = it.run(f, n, {f.params[1]: conc} if conc else None)
        ctx.used(it, traces)
        for t in traces:
            if t.outcome != "return":
                continue
            if conc:
                # the children do not change while one set of changes is passed on
                dec = {}
                if any(dec.setdefault(e.term, e.extra) != e.extra for e in t.events if e.kind == "cond"):
                    continue
            tree_path(ctx, t, selft, conc or ch, nch, nkids, f)


def tree_path(ctx, t, selft, ch, nch, nkids, f):
    tag = "NotifierNode.notify_changes"
    pl = path_lines(t)
    conds = {e.term: e.extra for e in t.events if e.kind == "cond"}
    kids = ("a", selft, "children")
    exp = []          # (child matcher, path, data or None)
    data = ("a", selft, "data")
    ret = t.state.snap(t.value)
    for i in range(nch):
        c = ("elem", ch, i) if ch[0] == "p" else ch[1][i]
        path = ("i", c, ("c", 0)) if ch[0] == "p" else c[1][0]
        payload = ("i", c, ("c", 1)) if ch[0] == "p" else c[1][1]
        has = None if ch[0] == "p" else True
        for k, v in conds.items():
            if k[:2] == ("op", "==") and ("op", "len", c) in k[2:]:
                has = v if ("c", 2) in k[2:] else (not v if ("c", 1) in k[2:] else None)
            elif k[0] == "op" and k[1] in ("<",) and contains(k, c):
                # len(change) > 1, 1 < len(change), len(change) < 2
                if k[2] == ("c", 1):
                    has = v
                elif k[3] == ("c", 2):
                    has = not v
        below = conds.get(path)
        if below is None:
            ctx.ob("every-change-looked-at", tag, False, "change %d not examined" % i, f.module.rel, pl)
            return
        if below:
            name = ("i", path, ("c", 0))
            inside = None
            for k, v in conds.items():
                if k[:2] == ("op", "in") and k[2] == name and k[3] == kids:
                    inside = v
                if k[:2] == ("op", "is") and contains(k, kids) and contains(k, name) and NONE in k[2:]:
                    inside = not v
            if inside is None:
                ctx.ob("every-change-looked-at", tag, False, "change %d below us not looked up in the children" % i, f.module.rel, pl)
                return
            if inside:
                exp.append((i, name, ("i", path, ("op", "slice", ("c", 1), ("c", None), ("c", None))), payload if has else None, has))
        else:
            data = payload if has else NONE
            for j in range(nkids):
                exp.append((i, ("elem", kids, j), ("list", ()), data, has))
    # the node's own data
    st = [e.args[0] for e in t.events if e.kind == "store" and e.term == ("a", selft, "data")]
    if data != ("a", selft, "data"):
        ctx.ob("node-data-replaced", tag, bool(st) and st[-1] == data, "data set to %s" % [show(x) for x in st], f.module.rel, pl)
    else:
        ctx.ob("node-data-replaced", tag, not st, "data replaced by %s although the change was for a child" % [show(x) for x in st], f.module.rel, pl)
    # update subscribers
    for attr_, meth, rule in (("update_requests", "update_response", "update-subscribers-get-current-data"), ("delta_requests", "delta_response", "delta-subscribers-get-the-changes")):
        reqs = ("a", selft, attr_)
        on = conds.get(reqs)
        calls = [e for e in t.events if e.kind == "call" and e.name() == meth]
        got = [e.term[1] for e in calls]
        want = [("elem", reqs, j) for j in range(2)]
        if on is False:
            ctx.ob(rule, tag, not calls, "responses although nobody subscribed", f.module.rel, pl)
            continue
        ctx.ob(rule, tag, sorted(map(repr, got)) == sorted(map(repr, want)), "%d of 2 subscribers notified" % len(got), f.module.rel, pl)
        for e in calls:
            a = e.arg(0)
            if meth == "update_response":
                ok = a[0] == "call" and last_name(a[1]) == "freeze" and a[2] == (data,)
                ctx.ob(rule, tag, ok, "update carries %s" % show(a), e.loc(), pl)
            else:
                ok = a == ch or (a[0] == "list" and len(a[1]) == nch and all(
                    contains(a[1][j], ("elem", ch, j)) for j in range(nch)))
                ctx.ob(rule, tag, ok, "delta carries %s" % show(a), e.loc(), pl)
                fz = [x.arg(0) for x in t.events if x.kind == "call" and x.name() == "freeze"]
                ctx.ob(rule, tag, all(any(contains(x, ("elem", ch, j) if ch[0] == "p" else ch[1][j][1][1]) for x in fz) for j in range(nch)), "delta carries changes that go on changing", e.loc(), pl)
        # responses really returned
        if ret[0] == "list":
            inret = [x for x in ret[1] if x[0] == "call" and last_name(x[1]) == meth]
            ctx.ob("responses-returned", tag, len(inret) == len(calls), "%d of %d %s returned" % (len(inret), len(calls), meth), f.module.rel, pl)
    # children
    calls = [e for e in t.events if e.kind == "call" and e.name() == "notify_changes"]
    given = []
    for e in calls:
        a = e.arg(0)
        for x in (a[1] if a[0] == "list" else ()):
            given.append((e, x))
    ctx.ob("children-get-their-part", tag, len(given) == len(exp), "%d changes for children, %d passed on" % (len(exp), len(given)), f.module.rel, pl)
    ctx.ob("child-notified-once", tag, len({e.term for e in calls}) == len(calls), "a child is notified several times for one squashed change", f.module.rel, pl)
    for i, name, path, d, has in exp:
        ok = False
        for e, x in given:
            tgt = e.term[1]
            if not (tgt == ("i", kids, name) or (name[0] == "elem" and tgt == ("val", kids, name[2]))):
                continue
            rest = ("i", ("elem", ch, i) if ch[0] == "p" else ch[1][i], ("op", "slice", ("c", 1), NONE, NONE))
            if path != ("list", ()) and (x == ("op", "+", ("list", (path,)), rest) or x[0] == "list" and len(x[1]) == 2 and x[1][0] == path and x[1][1][0] in ("star", "*") and x[1][1][1] == rest):
                # the rest of the change as it is
                ok = True
            if x[0] != "list" or not x[1] or x[1][0] != path:
                continue
            if path == ("list", ()):
                v = x[1][1] if len(x[1]) > 1 else None
                good = v is None or (contains(v, d) and contains(v, name))
                if v is None and d != NONE:
                    # only as a deletion, which needs the child to be absent from the new data
                    good = any(contains(k, d) and contains(k, name) and (
                        (k[:2] == ("op", "is") and vv and NONE in k[2:]) or
                        (not vv and (k[:2] == ("op", "in") or contains_call(k, "hasattr")))) for k, vv in conds.items())
                ok = ok or good
            else:
                ok = ok or (len(x[1]) == (2 if has else 1) and (not has or x[1][1] == d))
        ctx.ob("children-get-their-part", tag, ok, "change %d: %s not passed to child %s, only %s" % (i, show(path), show(name), [show(x) for e, x in given]), f.module.rel, pl)
        if path != ("list", ()):
            ref = [e for e in t.events if e.kind == "store" and e.term[0] == "a" and e.term[2] == "data" and e.term[1] == ("i", kids, name)]
            ctx.ob("child-data-refreshed", tag, bool(ref) and contains(ref[-1].args[0], name) and
                   any(isinstance(x, tuple) and (x == data or x == ("a", selft, "data") or x in (("i", ("elem", ch, 0), ("c", 1)), ("p", "d0"))) for x in walk_term(ref[-1].args[0])),
                   "child keeps the data it had before the change", f.module.rel, pl)


def frozen(ctx):
    """freeze: a consistent copy containing every field"""
    p = ctx.p
    f = [x for x in p.by_name["freeze"] if x.cls is None and x.module.rel.endswith("core/notifier.py")][0]
    q = EQ(names={"freeze"}, call=lambda it, fn, a, k, st: last_name(fn) == "freeze", cond=lambda it, t, st: True, counts=lambda it, b, st: [2], max_recursion=1)
    q.never_inline = lambda g: g.name == "freeze"
    it = Interp(p, q)
    traces = it.run(f)
    ctx.used(it, traces)
    o = ("p", f.params[0])
    for t in traces:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        model = any(e.kind == "cond" and e.extra and contains_call(e.term, "hasattr") and contains(e.term, ("call",) + ()) is False and e.term[2][0] == o for e in t.events
                    if e.kind == "cond" and e.term[0] == "call" and len(e.term[2]) == 2)
        isd = any(e.kind == "cond" and e.extra and e.term[:2] == ("op", "isinstance") and e.term[2] == o and last_name(e.term[3]) == "dict" for e in t.events)
        calls = [e for e in t.events if e.kind == "call"]
        if model:
            ct = ("a", o, "call_types")
            for i in range(2):
                k = ("elem", ct, i)
                ok = any(contains(e.args[0], k) and contains(e.args[0], o) for e in calls)
                ctx.ob("freeze-covers-every-field", "freeze/model", ok, "field %d not frozen" % i, f.module.rel, pl)
            v = t.state.snap(t.value)
            ctx.ob("freeze-keeps-typeid", "freeze/model", contains(v, ("a", o, "typeid")), "typeid lost", f.module.rel, pl)
        elif isd:
            for i in range(2):
                ok = any(e.args[0] in (("val", o, i), ("i", o, ("elem", o, i))) for e in calls)
                ctx.ob("freeze-covers-every-field", "freeze/dict", ok, "item %d not frozen" % i, f.module.rel, pl)
        elif calls:
            ctx.ob("freeze-covers-every-field", "freeze/array", len(calls) == 2, "%d of 2 items frozen" % len(calls), f.module.rel, pl)
        else:
            ctx.ob("freeze-leaves-values-alone", "freeze/value", t.value == o, "plain value became %s" % show(t.value), f.module.rel, pl)


def outside(ctx):
    """nobody but the models assigns a model field"""
    p = ctx.p
    base = p.cls("Model")
    names = set()
    for c in p.subclasses(base, strict=True):
        names |= slots(p, c)
    models = {c.qual for c in p.subclasses(base, strict=True)} | {base.qual}
    for fq, f in sorted(p.funcs.items()):
        if f.cls is not None and f.cls.qual in models:
            continue
        for n in ast.walk(f.node):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in names:
                        b = x.value
                        if isinstance(b, ast.Name) and f.params and b.id == f.params[0] and f.cls is not None:
                            continue
                        ty = infer(p, f, b)
                        if ty is None or ty.qual in models:
                            ctx.ob("direct-model-stores", fq, False, "%s assigned directly, without announcing it" % ast.unparse(x), "%s:%d" % (f.module.rel, x.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value in names and not (
                        isinstance(n.args[0], ast.Name) and f.params and n.args[0].id == f.params[0]):
                ctx.ob("direct-model-stores", fq, False, "setattr of %s" % n.args[1].value, "%s:%d" % (f.module.rel, n.lineno))
        ctx.ob("direct-model-stores", fq, True)


def infer(p, f, b):
    """class of an expression by declarations only, None if unknown"""
    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and f.cls is not None and f.params and b.value.id == f.params[0]:
        t = p.attr_descr(f.cls).get(b.attr)
        return t if isinstance(t, Class) else None
    if isinstance(b, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in n.targets) and isinstance(n.value, ast.Call):
                fn = n.value.func
                nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
                cs = [c for c in p.classes.values() if c.name == nm]
                if len(cs) == 1:
                    return cs[0]
        for a in f.node.args.args:
            if a.arg == b.id:
                t = p.anno_type(f.module, a.annotation)
                return t if isinstance(t, Class) else None
    return None
