"""Layout, exports and fields of a managing block: column-by-column provenance of the layout table, order of storing and
following up on every path, and the life of an export: its subscription, first value, later changes, and setter, by running
the subscription callback (a closure) symbolically for a first and for a later delta."""
from sa.interp import contains, last_name, show, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import two, idx_of
from checks.c13 import calls, walk_term, pick, column, order_of, each, same_obj, OPAQUE, differs

UP = ("update_modified", "update_exportable", "update_block_endpoints")
SELF_NEVER = {"run_hooks", "create_part_contexts", "set_layout", "update_modified", "update_exportable", "update_block_endpoints", "_get_current_part_fields", "_make_export_field",
              "add_block_field", "filter_parts", "update_configure_params"}


def go(ctx, c, meth, never=(), names=(), conds=None, counts=two, follow=(), args=None, **kw):
    p = ctx.p
    f = p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=set(names) | {"layout", "exports", "saved_visibility", "part_exportable", "port_info", "_current_part_fields", "_subscriptions", "field_registry", "handle_request"},
           call=lambda it, fn, a, k, st: True, cond=lambda it, t, st: True, store=lambda it, b, n, v, st: True, with_=lambda it, t, st: True,
           never=(SELF_NEVER | set(never)) - {meth} - set(follow), never_mod=OPAQUE, counts=counts, max_iter=2, noraise=lambda it, fn, st: True, **kw)
    it = Interp(p, q)
    tr = it.run(f, c, args, conds=conds)
    ctx.used(it, tr)
    return f, S, tr, it


def run(ctx):
    p = ctx.p
    m = p.cls("ManagerController")
    each(ctx, m, "set_layout", layout)
    each(ctx, m, "set_exports", exports)
    each(ctx, m, "update_exportable", exportable)
    each(ctx, m, "update_block_endpoints", endpoints)
    each(ctx, m, "_get_current_part_fields", fields)
    each(ctx, m, "_make_export_field", export)
    each(ctx, m, "create_part_contexts", contexts)
    ch = p.cls("ChildPart")
    each(ctx, ch, "on_layout", child_layout)
    each(ctx, ch, "sever_sink_ports", sever)
    for r, n in (("layout-column-is-what-the-part-reports", 5), ("fields-follow-visibility", 2), ("exports-only-what-is-there", 2), ("old-field-is-removed", 1), ("export-follows-its-source", 2), ("export-writes-to-its-source", 2)):
        ctx.floor(r, n)


def sq(t, i):
    """is the event inside one squashed change"""
    d = 0
    for e in t.events[:i]:
        if e.kind == "enter" and "changes_squashed" in show(e.term):
            d += 1
        if e.kind == "exit" and "changes_squashed" in show(e.term):
            d -= 1
    return d > 0


def layout(ctx, c):
    p = ctx.p
    lay0 = ("a", ("o", "self", c.qual), "layout")

    def moved(it, fn, a, k, st):
        if last_name(fn) == "set_value" and fn[0] in ("a", "bm") and fn[1] == lay0:
            return it._forget(st.set_store((lay0, "value"), a[0] if a else NONE), ("a", lay0, "value"))
        return st
    f, S, tr, it = go(ctx, c, "set_layout", effect=moved)
    tag = c.name + ".set_layout"
    if not any(e.kind == "call" and last_name(e.term) == "LayoutTable" or calls(t, "filter_parts") for t in tr for e in t.events):
        ctx.ob("layout-is-set", tag, all(calls(t, "set_layout") for t in tr if t.outcome == "return"), "layout not passed on", f.loc())
        return
    value = ("p", f.params[1])
    own = c.name != "ManagerController"      # an override may complete what it is given
    lay = ("a", S, "layout")
    old = ("a", ("a", lay, "value"), "visible")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        rh = calls(t, "run_hooks")
        ok = len(rh) == 1
        if ok:
            hs = t.state.snap(rh[0][1].args[0])
            hs = list(hs[1]) if hs[0] in ("list", "T") else []
            ok = len(hs) == 2 and all(h[0] == "new" and h[1].endswith("LayoutHook") and dict(h[2]).get("ports") == ("a", S, "port_info") and (dict(h[2]).get("layout") == value or own and is_table(dict(h[2]).get("layout", NONE))) for h in hs)
            src = [y for h in hs for y in walk_term(h) if y[0] == "call" and last_name(y[1]) == "create_part_contexts"]
            ok = ok and bool(src) and all(dict(y[3]).get("only_visible", y[2][0] if y[2] else None) == ("c", False) for y in src)
        ctx.ob("every-part-is-asked", tag, ok, "%s" % [repr(e) for _, e in rh], f.loc(), pl)
        sv = [(i, e) for i, e in calls(t, "set_value") if e.term[1] == lay]
        if not ctx.ob("layout-is-set", tag, len(sv) == 1, "set %d times" % len(sv), f.loc(), pl):
            continue
        i, e = sv[0]
        tb = t.state.snap(e.args[0])
        cols = {k: t.state.snap(v) for k, v in tb[2]} if tb[0] == "new" else {}
        for k in ("name", "mri", "x", "y", "visible"):
            vs = list(cols[k][1]) if k in cols and cols[k][0] in ("list", "T") else []
            ok = len(vs) == 4 or len(vs) == 2
            rows = []
            for v in vs:
                if k == "name":
                    ok = ok and v[0] in ("elem", "key") and contains(v, rh[0][1].term if rh else NONE)
                    rows.append(idx_of(v))
                else:
                    ok = ok and v[0] == "a" and v[2] == k and contains(v, rh[0][1].term if rh else NONE)
            ok = ok and (k != "name" or set(rows) == {0, 1})
            ctx.ob("layout-column-is-what-the-part-reports", tag + "." + k, ok, "column %s is %s" % (k, [show(v) for v in vs]), f.loc(), pl)
            # row by row the same report
            if ok and k != "name" and "name" in cols:
                def own(v):
                    for y in walk_term(v):
                        if y[0] == "val":
                            return y[2]
                ctx.ob("layout-column-is-what-the-part-reports", tag + "." + k, [own(v) for v in vs] == [idx_of(v) for v in cols["name"][1]], "rows do not belong together", f.loc(), pl)
        changed, first = None, None
        for j, x in enumerate(t.events):
            if x.kind == "cond" and x.term[0] == "op" and x.term[1] in ("!=", "==") and old in x.term[2:4]:
                changed = (x.term[1] == "!=") == bool(x.extra)
                n += 1
            if x.kind == "cond" and x.term == ("op", "is", ("a", S, "saved_visibility"), NONE):
                first = bool(x.extra)
        ups = {u: [j for j, x in calls(t, u)] for u in UP}
        if first:
            st = {x.term[2]: (j, x.args[0]) for j, x in enumerate(t.events) if x.kind == "store" and x.term[0] == "a" and x.term[1] == S}
            ok = "saved_visibility" in st and "saved_exports" in st and st["saved_exports"][1] == ("a", ("a", S, "exports"), "value")
            ctx.ob("first-layout-counts-as-saved", tag, ok, "stored %s" % {k: show(v[1]) for k, v in st.items()}, f.loc(), pl)
        if first or changed:
            ctx.ob("fields-follow-visibility", tag, all(ups[u] and all(j > i and sq(t, j) for j in ups[u]) for u in UP), "not followed up: %s" % [u for u in UP if not ups[u] or any(j < i for j in ups[u])], f.loc(), pl)
        ctx.ob("layout-set-in-one-step", tag, sq(t, i), "not squashed", f.loc(), pl)
        ctx.ob("hooks-run-unsquashed", tag, not rh or not sq(t, rh[0][0]), "parts asked while changes are squashed (deadlock)", f.loc(), pl)
    ctx.ob("fields-follow-visibility", tag, n > 0, "old and new visibility not compared", f.loc())


def exports(ctx, c):
    f, S, tr, it = go(ctx, c, "set_exports")
    tag = c.name + ".set_exports"
    value = ("p", f.params[1])
    n = 0
    for t in tr:
        sv = [(i, e) for i, e in calls(t, "set_value") if e.term[1] == ("a", S, "exports")]
        pl = path_lines(t)
        tests = [(i, e) for i, e in enumerate(t.events) if e.kind == "cond" and any(y[0] == "call" and last_name(y[1]) in ("match", "fullmatch") for y in walk_term(e.term))]
        bad = [1 for i, e in tests if not ok_name(e)]
        if t.outcome != "return":
            ctx.ob("bad-export-name-changes-nothing", tag, not sv, "exports set all the same", f.loc(), pl)
            continue
        n += 1
        ctx.ob("export-names-are-checked", tag, not bad and len({repr(e.term) for i, e in tests}) == 2 and (not sv or all(i < sv[0][0] for i, _ in tests)), "names checked: %s" % [show(e.term) for _, e in tests], f.loc(), pl)
        ups = {u: [j for j, x in calls(t, u)] for u in ("update_modified", "update_block_endpoints")}
        ok = len(sv) == 1 and sv[0][1].args[:1] == (value,) and all(js and js[-1] > sv[0][0] for js in ups.values()) and sq(t, sv[0][0])
        ctx.ob("fields-follow-exports", tag, ok, "%s" % ups, f.loc(), pl)
    ctx.ob("fields-follow-exports", tag, n > 0, "never", f.loc())


def reqs(t):
    return [(i, e) for i, e in enumerate(t.events) if e.kind in ("call", "spawn") and last_name(e.term) == "handle_request"]


def is_table(x):
    return x[0] == "new" and x[1].endswith("LayoutTable")


def yielded(t):
    ys = [e.args[0] for e in t.events if e.kind == "call" and e.term == ("ext", "<yield>")]
    v = t.state.snap(t.value) if t.value is not None else NONE
    if v[0] in ("list", "T"):
        ys += list(v[1])
    return [t.state.snap(y) for y in ys]


def ok_name(e):
    x, pol = e.term, bool(e.extra)
    if x[0] == "op" and x[1] in ("is", "==") and NONE in x[2:4]:
        return not pol
    return pol


def exportable(ctx, c):
    f, S, tr, it = go(ctx, c, "update_exportable")
    tag = c.name + ".update_exportable"
    part, info = ("p", f.params[1]), ("p", f.params[2])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        given = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == part]
        st = {show(e.term[1]): (i, e) for i, e in calls(t, "__setitem__") if e.term[1] in (("a", S, "part_exportable"), ("a", S, "port_info"))}
        if given and given[0]:
            a = st.get(show(("a", S, "part_exportable")))
            b = st.get(show(("a", S, "port_info")))
            ok = a is not None and a[1].args == (part, ("a", info, "names")) and b is not None and b[1].args == (("a", part, "name"), ("a", info, "port_infos"))
            ctx.ob("report-of-exportable-fields-is-kept", tag, ok, "%s" % [repr(e) for _, e in st.values()], f.loc(), pl)
        first = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("op", "is", ("a", S, "saved_visibility"), NONE)]
        sc = calls(t, "set_choices")
        ub = calls(t, "update_block_endpoints")
        if not first:
            ctx.ob("choices-are-what-is-exportable", tag, False, "not known whether initialised", f.loc(), pl)
            continue
        if first[0]:
            continue
        n += 1
        ok = len(sc) == 1
        if ok:
            v = t.state.snap(sc[0][1].args[0])
            vs = list(v[1]) if v[0] in ("list", "T") else []
            ok = len(vs) == 4 and all(contains(x, ("a", S, "part_exportable")) and contains(x, ("a", S, "parts")) for x in vs) and len({show(x) + repr([y for y in walk_term(x) if y[0] in ("elem", "val")]) for x in vs}) == 4
            ok = ok or given and given[0] and len(vs) >= 2
        ctx.ob("choices-are-what-is-exportable", tag, ok, "choices %s" % [repr(e) for _, e in sc], f.loc(), pl)
        ch = [e for e in t.events if e.kind == "cond" and contains(t.state.snap(e.term), ("a", ("a", ("a", S, "exports"), "value"), "source"))]
        ok = bool(ch) and bool(ub) == bool(ch[-1].extra) or bool(ub) and not ch
        ctx.ob("fields-follow-what-is-exportable", tag, ok and (not ub or not sc or ub[0][0] > sc[0][0]), "fields %s although a current export %s" % ("updated" if ub else "not updated", "changed" if ch and ch[-1].extra else "did not change"), f.loc(), pl)
        if ch:
            x = t.state.snap(ch[-1].term)
            ok = any(y[0] == "call" and last_name(y[1]) == "symmetric_difference" or y[0] == "op" and y[1] == "^" for y in walk_term(x)) and "choices" in show_all(x)
            ctx.ob("added-and-removed-both-count", tag, ok, "looks at %s" % show(x), f.loc(), pl)
    ctx.ob("choices-are-what-is-exportable", tag, n > 0, "never", f.loc())


def show_all(x):
    return " ".join(str(y[2]) for y in walk_term(x) if y[0] == "a")


def endpoints(ctx, c):
    f, S, tr, it = go(ctx, c, "update_block_endpoints", names={"_children_writeable", "remove_endpoint"}, follow={"update_block_endpoints"})
    tag = c.name + ".update_block_endpoints"
    cur = ("a", S, "_current_part_fields")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        rm = calls(t, "remove_endpoint")
        pops = [(i, e) for i, e in calls(t, "pop", "__delitem__") if contains(e.term, ("a", S, "_children_writeable"))]
        ad = calls(t, "add_block_field")
        st = [(i, e) for i, e in enumerate(t.events) if e.kind == "store" and e.term == cur]
        nw = calls(t, "_get_current_part_fields")
        had = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == cur] + [not e.extra for e in t.events if e.kind == "cond" and e.term == ("op", "is", cur, NONE)]
        if all(had):
            n += 1
            ctx.ob("old-field-is-removed", tag, len({idx_of(e.args[0]) for _, e in rm if contains(e.args[0], cur)}) == 2 and all(e.args[0][2] == ("c", 0) for _, e in rm if e.args[0][0] == "i"), "removed %s" % [show(e.args[0]) for _, e in rm], f.loc(), pl)
            ctx.ob("old-field-is-no-longer-switched", tag, len({(idx_of(e.args[0])) for _, e in pops}) == 2 and all(e.args[0][0] == "i" and e.args[0][2] == ("c", 1) for _, e in pops), "forgotten %s" % [repr(e) for _, e in pops], f.loc(), pl)
        ok = len(nw) == 1 and len(st) == 1 and all(i < nw[0][0] for i, _ in rm + pops) and all(i > st[0][0] for i, _ in ad)
        ctx.ob("old-before-new", tag, ok, "order", f.loc(), pl)
        new = st[0][1].args[0] if st else NONE
        idx = sorted({str(idx_of(e.args[0])) for _, e in ad})
        ok = len(ad) == 2 and all(len(e.args) == 4 and all(a[0] == "i" and a[2] == ("c", j) and a[1] == e.args[0][1] for j, a in enumerate(e.args)) or any(a[0] == "star" for a in e.args) for _, e in ad) and len(idx) == 2
        ctx.ob("new-field-is-added", tag, ok, "added %s" % [repr(e) for _, e in ad], f.loc(), pl)
    ctx.ob("old-field-is-removed", tag, n > 0, "never", f.loc())


def fields(ctx, c):
    f, S, tr, it = go(ctx, c, "_get_current_part_fields")
    tag = c.name + "._get_current_part_fields"
    lay = ("a", ("a", S, "layout"), "value")
    exp = ("a", ("a", S, "exports"), "value")
    lo, eo = order_of(ctx.p, "LayoutTable"), order_of(ctx.p, "ExportTable")
    subs = ("a", S, "_subscriptions")
    n = m = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 80)
        hr = calls(t, "handle_request")
        un = []
        for i, e in hr:
            a = e.args[0]
            d = dict(a[2]) if a[0] == "new" else {}
            idt = d.get("id", NONE)
            cb = next((x.args[0] for j, x in calls(t, "set_callback") if same_obj(x.term[1], a) and j < i), NONE)
            who = next((y[2][0] for y in walk_term(e.term) if y[0] == "call" and last_name(y[1]) == "get_controller" and y[2]), NONE)
            sub = idt[1] if idt[0] == "a" else NONE
            ok = a[0] == "new" and a[1].endswith("Unsubscribe") and idt == ("a", sub, "id") and contains(sub, subs) and cb == ("a", sub, "callback") and pick(who) == (("a", sub, "path"), ("c", 0))
            ctx.ob("old-export-is-ended", tag, ok, "%s callback %s to %s" % (show(a), show(cb), show(who)), f.loc(), pl)
            un.append(idx_of(sub))
        rs = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == subs] + [i for i, e in calls(t, "clear") if e.term[1] == subs]
        mk = calls(t, "_make_export_field")
        ctx.ob("old-export-is-ended", tag, set(un) == {0, 1} and bool(rs) and (not hr or rs[-1] > hr[-1][0]) and all(i > rs[-1] for i, _ in mk), "ended %s" % un, f.loc(), pl)
        # which parts are visible on this path
        vis = {}
        for e in t.events:
            if e.kind == "cond":
                r, k = column(e.term, lay, lo)
                if k == "visible":
                    vis[r] = bool(e.extra)
        ctx.ob("fields-follow-visibility", tag, set(vis) == {0, 1}, "visibility of %s looked at" % sorted(vis), f.loc(), pl)
        # yielded
        ys = yielded(t)
        parts = ("a", S, "parts")
        hidden = {}
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] in ("in", "not in") and e.term[2][0] in ("elem", "key") and e.term[2][1] == parts:
                hidden[e.term[2][2]] = (e.term[1] == "in") == bool(e.extra)
        own = [y for y in ys if contains(y, ("a", S, "field_registry"))]
        for r in (0, 1):
            got = [y for y in own if any(z[0] == "val" and z[1] == parts and z[2] == r for z in walk_term(y))]
            if r in hidden:
                n += 1
                ctx.ob("fields-follow-visibility", tag, bool(got) == (not hidden[r]), "fields of a %s part %s" % ("hidden" if hidden[r] else "visible", "shown" if got else "not shown"), f.loc(), pl)
        # exports
        for r, (i, e) in enumerate(mk):
            m += 1
            cs = [x for x in t.events[:i] if x.kind == "cond"]
            mri, attr, name = (list(e.args) + [NONE] * 3)[:3]
            ok = any(x.extra and x.term[0] == "op" and x.term[1] == "in" and x.term[2] == attr and contains(x.term[3], ("a", S, "part_exportable")) for x in cs)
            ctx.ob("exports-only-what-is-there", tag, ok, "%s may not be exportable" % show(attr), f.loc(), pl)
            r0, k0 = column(mri, lay, lo)
            pn = ("i", attr[1], ("c", 0)) if attr[0] == "i" else NONE
            ok = k0 == "mri" and vis.get(r0) or k0 is None and any(x.extra and x.term == mri for x in cs) or any(
                x.term[0] == "op" and x.term[1] == "in" and x.term[2] == pn and x.term[3][0] in ("L", "D") for x in cs)
            ctx.ob("exports-only-what-is-there", tag, ok, "%s may not be visible" % show(mri), f.loc(), pl)
            ok = contains(attr, exp) or any(column(y, exp, eo)[1] == "source" for y in walk_term(attr))
            row = next((column(y, exp, eo)[0] for y in walk_term(attr) if column(y, exp, eo)[1] == "source"), None)
            blank = [bool(x.extra) for x in cs if column(x.term, exp, eo) == (row, "export")]
            ok = ok and (name == attr if blank and not blank[0] else column(name, exp, eo) == (row, "export") or name[0] == "op" and name[1] == "or")
            ctx.ob("export-has-its-name", tag, ok, "%s exported as %s" % (show(attr), show(name)), f.loc(), pl)
            y = [z for z in ys if z[0] in ("T", "list") and any(contains(q, e.term) and idx_ok(q, e) for q in z[1])]
            ok = len(y) == 1 and len(y[0][1]) == 4 and y[0][1][0] == name and is_ret(y[0][1][1], e, 0) and is_ret(y[0][1][2], e, 1) and y[0][1][3] == ("c", False)
            ctx.ob("export-becomes-a-field", tag, ok, "yields %s" % [show(z) for z in y], f.loc(), pl)
    ctx.ob("fields-follow-visibility", tag, n > 0, "never", f.loc())
    ctx.ob("exports-only-what-is-there", tag, m > 0, "nothing exported", f.loc())


def idx_ok(q, e):
    return any(y[0] == "call" and y[1] == e.term and y[2] == e.args for y in walk_term(q))


def is_ret(x, e, j):
    b, k = pick(x)
    return b is not None and b[0] == "call" and b[1] == e.term and b[2] == e.args and k == ("c", j)


def export(ctx, c):
    p = ctx.p
    f = p.method(c, "_make_export_field")
    tag = c.name + "._make_export_field"
    mri, attr, name = [("p", x) for x in f.params[1:4]]
    later = ("p", "later")
    first = ("p", "first")
    cbs = {}

    def seen(it, fn, a, k, st):
        if last_name(fn) == "set_callback" and fn[0] in ("a", "bm") and a:
            cbs[fn[1][3] if fn[1][0] == "new" and len(fn[1]) > 3 else fn[1]] = a[0]
        return True

    def answers(it, fn, a, k, st):
        """the subscription is answered by its callback"""
        if last_name(fn) == "handle_request" and a and a[0][0] == "new" and a[0][1].endswith("Subscribe"):
            cb = cbs.get(a[0][3] if len(a[0]) > 3 else a[0])
            if cb is not None:
                return cb, [("p", "response")], []
        return None
    S = ("o", "self", c.qual)
    q = EQ(names={"handle_request", "set_callback"}, call=seen, cond=lambda it, t, st: True, store=lambda it, b, n, v, st: True, with_=lambda it, t, st: True,
           never=SELF_NEVER - {"_make_export_field"}, never_mod=OPAQUE, counts=two, max_iter=2, noraise=lambda it, fn, st: True, async_call=answers)
    it = Interp(p, q)
    tr = it.run(f, c, None)
    ctx.used(it, tr)
    n = 0
    setters = set()
    for t in tr:
        pl = path_lines(t, 60)
        sub = next(iter(reqs(t)), None)
        if sub is None:
            ctx.ob("export-is-subscribed", tag, t.outcome != "return", "no subscription", f.loc(), pl)
            continue
        i, e = sub
        d = dict(e.args[0][2]) if e.args[0][0] == "new" else {}
        path = t.state.snap(d.get("path", NONE))
        who = next((y[2][0] for y in walk_term(e.term) if y[0] == "call" and last_name(y[1]) == "get_controller" and y[2]), NONE)
        ctx.ob("export-is-subscribed", tag, path[0] in ("list", "T") and tuple(path[1]) == (mri, attr) and d.get("delta") == ("c", True) and who == mri, "subscribes to %s" % show(e.args[0]), f.loc(), pl)
        kept = [j for j, x in calls(t, "append") if x.term[1] == ("a", S, "_subscriptions") and x.args and same_obj(x.args[0], e.args[0])]
        ctx.ob("export-can-be-ended", tag, bool(kept), "subscription not remembered", f.loc(), pl)
        delta = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "isinstance" and x.term[2] == ("p", "response")]
        if not delta or not delta[0] or t.outcome != "return" or any(x.kind == "spawn_raise" for x in t.events):
            continue
        n += 1
        v = t.state.snap(t.value)
        if not ctx.ob("export-follows-its-source", tag, v[0] == "T" and len(v[1]) == 2, "returns %s" % show(v), f.loc(), pl):
            continue
        exp, setter = v[1]
        ok = exp[0] == "call" and last_name(exp[1]) == "deserialize_object" and contains(exp, ("a", ("p", "response"), "changes"))
        ctx.ob("export-follows-its-source", tag, ok, "exports %s" % show(exp), f.loc(), pl)
        lb = [x for j, x in calls(t, "set_label") if x.term[1] == ("a", exp, "meta")]
        ctx.ob("export-has-its-name", tag, len(lb) == 1 and contains(lb[0].args[0], name), "label %s" % [repr(x) for x in lb], f.loc(), pl)
        is_attr = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "isinstance" and x.term[2] == exp]
        if is_attr and is_attr[0]:
            tg = [x for j, x in calls(t, "set_tags") if x.term[1] == ("a", exp, "meta")]
            ok = len(tg) == 1 and any(y[0] == "call" and last_name(y[1]) == "without_config_tags" for y in walk_term(tg[0].args[0])) and contains(tg[0].args[0], ("a", ("a", exp, "meta"), "tags"))
            ctx.ob("exported-value-is-not-saved-twice", tag, ok, "tags %s" % [repr(x) for x in tg], f.loc(), pl)
        setters.add((bool(is_attr and is_attr[0]), setter, t))
    ctx.ob("export-follows-its-source", tag, n > 0, "the first value is never taken", f.loc())
    # the setters: what calling them does
    for is_attr, setter, t in setters:
        arg = [("p", "v")]
        kw = [] if is_attr else [("**", ("p", "kw"))]
        q2 = EQ(names={"put", "post"}, call=lambda it, fn, a, k, st: True, cond=lambda it, t, st: True, never_mod=OPAQUE, counts=two, max_iter=2, noraise=lambda it, fn, st: True)
        it.q = q2
        try:
            res = it.apply(setter, arg if is_attr else [], kw, f.node, t.state)
        finally:
            it.q = q
        for kind, val, st in res:
            ev = [x for x in st.events[len(t.state.events):]] if hasattr(st, "events") else []
            ws = [x for x in ev if x.kind == "call" and x.name() in ("put", "post")]
            ok = len(ws) == 1 and ws[0].name() == ("put" if is_attr else "post") and tuple(st.snap(ws[0].args[0])[1]) == (mri, attr)
            if ok and is_attr:
                ok = ws[0].args[1] == ("p", "v")
            elif ok:
                kwv = st.snap(ws[0].arg(1, "params") or NONE)
                ok = contains(kwv, ("p", "kw")) and val is not None and val[0] == "call" and last_name(val[1]) == "post"
            ctx.ob("export-writes-to-its-source", tag + ("/put" if is_attr else "/post"), ok, "%s returns %s" % ([repr(x) for x in ws], val and show(val)), f.loc())
    later_updates(ctx, c, f, tag)


def later_updates(ctx, c, f, tag):
    """a second delta is applied to the export"""
    p = ctx.p
    S = ("o", "self", c.qual)
    cbs = {}
    state = {"n": 0}

    def seen(it, fn, a, k, st):
        if last_name(fn) == "set_callback" and fn[0] in ("a", "bm") and a:
            cbs[fn[1][3] if fn[1][0] == "new" and len(fn[1]) > 3 else fn[1]] = a[0]
        return True

    def answers(it, fn, a, k, st):
        if last_name(fn) == "handle_request" and a and a[0][0] == "new" and a[0][1].endswith("Subscribe"):
            cb = cbs.get(a[0][3] if len(a[0]) > 3 else a[0])
            return (cb, [("p", "response")], []) if cb is not None else None
        if last_name(fn) == "wait" and fn[0] in ("a", "bm"):
            cb = next(iter(cbs.values()), None)
            return (cb, [("p", "later")], []) if cb is not None else None
        return None
    q = EQ(names={"handle_request", "set_callback", "apply_change"}, call=seen, cond=lambda it, t, st: True, store=lambda it, b, n, v, st: True, with_=lambda it, t, st: True,
           never=SELF_NEVER - {"_make_export_field"}, never_mod=OPAQUE, counts=two, max_iter=2, noraise=lambda it, fn, st: True, async_call=answers)
    it = Interp(p, q)
    tr = it.run(f, c, None)
    ctx.used(it, tr)
    n = 0
    for t in tr:
        if t.outcome != "return" or any(x.kind == "spawn_raise" for x in t.events):
            continue
        isd = {x.term[2][1]: bool(x.extra) for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] == "isinstance" and x.term[2][0] == "p"}
        pl = path_lines(t, 60)
        src = ("a", ("p", "later"), "changes")
        touch = [(i, x) for i, x in enumerate(t.events) if x.kind == "call" and any(contains(a, src) for a in x.args)]
        ac = [(i, x) for i, x in touch if x.name() == "apply_change"]
        if not (isd.get("response") and isd.get("later")):
            ctx.ob("only-changes-are-applied", tag, not ac, "something other than a delta is applied", f.loc(), pl)
            continue
        v = t.state.snap(t.value)
        exp = v[1][0] if v[0] == "T" and v[1] else NONE
        for r in (0, 1):
            el = ("elem", src, r)
            path = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term == ("i", el, ("c", 0))]
            more = [bool(x.extra) for x in t.events if x.kind == "cond" and x.term == ("op", "<", ("c", 1), ("op", "len", el))]
            mine = [(i, x) for i, x in ac if any(contains(a, el) for a in x.args)]
            if not path or path[0]:
                n += 1
                ctx.ob("export-follows-its-source", tag, len(mine) == 1 and mine[0][1].term[1] == exp and sq(t, mine[0][0]), "applied %s" % [repr(x) for _, x in mine], f.loc(), pl)
            if not path:
                ctx.ob("replaced-source-is-followed", tag, False, "a change of the source as a whole (empty path) is applied as if it was a change of a part of it", f.loc(), pl)
            elif not path[0]:
                new = [x for i, x in touch if sq(t, i) and contains(x.term, exp) and x.name().startswith("set_") and any(contains(a, ("i", el, ("c", 1))) for a in x.args)]
                ctx.ob("replaced-source-is-followed", tag, not mine and bool(new) == (not more or more[0]), "replaced: %s, taken: %s" % (more, [repr(x) for x in new]), f.loc(), pl)
    ctx.ob("export-follows-its-source", tag, n > 0, "later changes never applied", f.loc())


def contexts(ctx, c):
    f, S, tr, it = go(ctx, c, "create_part_contexts")
    tag = c.name + ".create_part_contexts"
    ov = ("p", f.params[1]) if len(f.params) > 1 else None
    lay = ("a", ("a", S, "layout"), "value")
    lo = order_of(ctx.p, "LayoutTable")
    if ov is None or not any(contains(e.term, lay) for t in tr for e in t.events):
        ctx.ob("hidden-part-gets-no-context", tag, any(calls(t, "create_part_contexts") for t in tr), "does not ask its base", f.loc())
        return
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 40)
        only = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ov]
        pops = calls(t, "pop", "__delitem__")
        nf = calls(t, "set_notify_dispatch_request")
        vis = {column(e.term, lay, lo)[0]: bool(e.extra) for e in t.events if e.kind == "cond" and column(e.term, lay, lo)[1] == "visible"}
        if not only or not only[0]:
            ctx.ob("hidden-part-gets-no-context", tag, not pops, "removed although all parts were asked for", f.loc(), pl)
            continue
        gone = {row_of(e.args[0], lay, lo) for _, e in pops}
        told = {row_of(e.args[0] if e.args else NONE, lay, lo) for _, e in nf if row_of(e.term, lay, lo) in (None, row_of(e.args[0] if e.args else NONE, lay, lo))}
        ctx.ob("hidden-part-gets-no-context", tag, set(vis) == {0, 1} and gone == {r for r, v in vis.items() if not v}, "visible %s removed %s" % (vis, gone), f.loc(), pl)
        ctx.ob("requests-of-a-part-are-noted", tag, told == {r for r, v in vis.items() if v}, "visible %s noted %s" % (vis, told), f.loc(), pl)


def row_of(x, lay, lo):
    for y in walk_term(x):
        r, k = column(y, lay, lo)
        if k == "name":
            return r
    return None


def child_layout(ctx, c):
    if c.name != "ChildPart":
        base = ctx.p.method(ctx.p.cls("ChildPart"), "on_layout")
        f, S, tr, it = go(ctx, c, "on_layout", never={base.qual})
        for t in tr:
            up = [e for _, e in calls(t, "on_layout")]
            v = t.value if t.value is not None else NONE
            if t.outcome == "return":
                ok = len(up) == 1 and tuple(up[0].args[-3:]) == tuple(("p", x) for x in f.params[1:4]) and v[0] == "call" and last_name(v[1]) == "on_layout"
                ctx.ob("layout-row-of-a-part-is-taken", c.name + ".on_layout", ok, "asks its base %s, returns %s" % ([repr(e) for e in up], show(v)), f.loc(), path_lines(t))
        return
    f, S, tr, it = go(ctx, c, "on_layout", never={"sever_sink_ports", "calculate_part_visibility"}, names={"part_visibility", "visible", "x", "y"})
    tag = c.name + ".on_layout"
    lay = ("p", f.params[3])
    ports = ("p", f.params[2])
    lo = order_of(ctx.p, "LayoutTable")
    me = ("a", S, "name")
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        mine, cell = {}, {}
        for e in t.events:
            if e.kind != "cond":
                continue
            x, pol = e.term, bool(e.extra)
            if x[0] == "op" and x[1] in ("==", "!=") and me in x[2:4]:
                o = x[2] if x[3] == me else x[3]
                r, k = column(o, lay, lo)
                if k == "name":
                    mine[r] = (x[1] == "==") == pol
            r, k = column(x, lay, lo)
            if k == "visible":
                cell[r] = pol
        if not ctx.ob("layout-row-of-a-part-is-taken", tag, set(mine) == {0, 1}, "rows looked at %s" % sorted(mine), f.loc(), pl):
            continue
        if all(mine.values()) or any(e.kind == "cond" and e.extra and e.term[0] == "op" and e.term[1] == "is" and column(e.term[2], lay, lo)[1] == "visible" for e in t.events):
            continue       # a part has one row, and its visibility there is known
        n += 1
        want = {"x": ("a", S, "x"), "y": ("a", S, "y"), "visible": ("a", S, "visible")}
        for r in (0, 1):
            if mine[r]:
                for k in want:
                    want[k] = (r, k)
        v = t.state.snap(t.value)
        vs = list(v[1]) if v[0] in ("list", "T") else []
        d = dict(vs[0][2]) if len(vs) == 1 and vs[0][0] == "new" else {}
        ok = d.get("mri") == ("a", S, "mri")
        bad = []
        for k, w in want.items():
            g = d.get(k, NONE)
            if w[0] in (0, 1):
                if column(g, lay, lo) != w:
                    bad.append(k)
            elif k != "visible" and g != w:
                bad.append(k)
        ctx.ob("layout-row-of-a-part-is-taken", tag, ok and not bad, "reports %s, wrong %s" % (show(v), bad), f.loc(), pl)
        # cables
        sv = calls(t, "sever_sink_ports")
        for r in (0, 1):
            if mine[r]:
                was = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == ("a", S, "visible")]
                need = bool(was) and was[0] and cell.get(r) is False
                if was and was[0] and r not in cell:
                    need = None
                got = [e for _, e in sv if len(e.args) == 2]
                ctx.ob("hidden-part-is-disconnected", tag, need is not None and bool(was) and bool(got) == need and all(e.args[1] == ports for e in got), "hidden: %s, cut: %d" % (need, len(got)), f.loc(), pl)
            else:
                name = lambda y: column(y, lay, lo) == (r, "name")
                was = [bool(e.extra) for e in t.events if e.kind == "cond" and any(name(y) for y in walk_term(e.term)) and contains(e.term, ("a", S, "part_visibility"))]
                need = bool(was) and was[0] and cell.get(r) is False
                got = [e for _, e in sv if len(e.args) == 3 and name(e.args[2])]
                ctx.ob("hidden-part-is-disconnected", tag, bool(was) and bool(got) == need, "hidden: %s, cut: %d" % (need, len(got)), f.loc(), pl)
                st = [e.args for _, e in calls(t, "__setitem__") if e.term[1] == ("a", S, "part_visibility") and name(e.args[0])]
                ctx.ob("visibility-of-others-is-kept", tag, len(st) == 1 and column(st[0][1], lay, lo) == (r, "visible"), "%s" % [show(a[1]) for a in st], f.loc(), pl)
    ctx.ob("layout-row-of-a-part-is-taken", tag, n > 0, "never", f.loc())


def sever(ctx, c):
    f, S, tr, it = go(ctx, c, "sever_sink_ports", names={"port", "disconnected_value", "connected_value", "writeable"})
    tag = c.name + ".sever_sink_ports"
    ports, to = ("p", f.params[2]), ("p", f.params[3])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 80)
        pv = calls(t, "put_attribute_values")
        if not pv:
            ctx.ob("hidden-part-is-disconnected", tag, any(not e.extra for e in t.events if e.kind == "cond"), "nothing put", f.loc(), pl)
            continue
        n += 1
        d = t.state.snap(pv[-1][1].args[0])
        es = list(d[1]) if d[0] == "dict" else None
        w = [(e.term, bool(e.extra)) for e in t.events if e.kind == "cond" and e.term[0] == "a" and e.term[2] == "writeable"]
        ok = es is not None
        for k, v in es or ():
            ok = ok and v[0] == "a" and v[2] == "disconnected_value" and (k == ("a", v[1], "name") or k[0] in ("elem", "key"))
            ok = ok and any(pol and contains(x, k) for x, pol in w)
        ctx.ob("disconnected-is-the-value-of-that-port", tag, ok, "puts %s" % show(d), f.loc(), pl)
        given = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term == to]
        cut = [x for x, pol in w if pol]
        if es is not None:
            ctx.ob("hidden-part-is-disconnected", tag, len(es) == len(cut), "%d of %d sink ports cut" % (len(es), len(cut)), f.loc(), pl)
        if not given or given[0]:
            for x, pol in w:
                j = next(i for i, e in enumerate(t.events) if e.kind == "cond" and e.term == x)
                last = [e for e in t.events[:j] if e.kind == "cond" and e.term != x]
                eq = [e for e in last if e.extra and e.term[0] == "op" and e.term[1] == "==" and any(y[0] == "a" and y[2] == "port" for y in walk_term(e.term))]
                ctx.ob("only-cables-to-the-hidden-part-are-cut", tag, bool(eq), "cut without looking where it goes", f.loc(), pl)
    ctx.ob("hidden-part-is-disconnected", tag, n > 0, "never", f.loc())
