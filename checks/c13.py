"""Designs: what is saved is compared with what is loaded, column by column and key by key, through the terms that reach
the file and those that reach the tables, children and hooks; marking clean and the modified flag are decided on every
path from the tests taken on it; the child parts' stored structure, order of restoring and subscriptions likewise."""
from sa.interp import contains, last_name, show, NONE
from sa.interp import walk_term as _walk
from sa.q import EQ, Interp, path_lines
from sa.project import Class
from checks.util import two, idx_of

B = "malcolm.modules.builtin."
OPAQUE = ("malcolm.core",)


def go(ctx, c, meth, never=(), names=(), conds=None, args=None, counts=two, max_iter=2, follow=(), noraise=None, cond=True, force=()):
    p = ctx.p
    f = p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=set(names) | {"layout", "exports", "saved_structure", "modified_messages", "config_subscriptions", "saved_visibility", "saved_exports", "part_modified"},
           call=lambda it, fn, a, k, st: True, cond=(lambda it, t, st: True) if cond else None, store=lambda it, b, n, v, st: True, with_=lambda it, t, st: True,
           never=({"run_hooks", "_validated_config_filename", "_mark_clean", "create_part_contexts", "set_layout", "update_modified", "update_exportable", "update_block_endpoints",
                   "_set_layout_names", "send_modified_info_if_not_equal", "report", "_make_export_field", "_get_current_part_fields", "get_config_tag", "on_save"} | set(never)) - {meth} - set(follow),
           never_mod=OPAQUE, counts=counts, max_iter=max_iter, noraise=noraise or (lambda it, fn, st: True), force=set(force))
    it = Interp(p, q)
    tr = it.run(f, c, args, conds=conds)
    ctx.used(it, tr)
    return f, S, tr, it


def walk_term(x):
    return (y for y in _walk(x) if y and isinstance(y[0], str))


def calls(t, *names):
    return [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() in names]


def pick(x):
    """(base, key) of a lookup of a constant key, in any spelling"""
    if x[0] == "i":
        return x[1], x[2]
    if x[0] == "call" and last_name(x[1]) in ("get", "pop", "__getitem__") and x[1][0] == "a" and x[2]:
        return x[1][1], x[2][0]
    return None, None


def keys(x, root):
    """path of constant keys from the root to the term"""
    out = []
    while x != root:
        b, k = pick(x)
        if b is None:
            return None
        out.append(k[1] if k[0] == "c" else k)
        x = b
    return list(reversed(out))


def column(x, table, order):
    """(row, column name) of a cell of a table, in any spelling"""
    if x[0] == "i" and x[1][0] == "elem" and x[2][0] == "c" and isinstance(x[2][1], int):
        src = x[1][1]
        if src[0] == "call" and last_name(src[1]) == "rows" and src[1][1] == table and x[2][1] < len(order):
            return x[1][2], order[x[2][1]]
    if x[0] in ("elem", "i") and x[1][0] == "a" and x[1][1] == table:
        return (x[2][1] if isinstance(x[2], tuple) else x[2]), x[1][2]
    return None, None


def order_of(p, name):
    f = p.lookup(p.cls(name), "__init__")
    return f.params[1:]


def entries(d):
    return list(d[1]) if d is not None and d[0] == "dict" else []


def get(d, k):
    for a, v in entries(d):
        if a == k:
            return v
    return None


def by_name(p, *names):
    for n in names:
        if n in p.by_name:
            return n
    return names[0]


def each(ctx, top, meth, g, *a):
    p = ctx.p
    done = set()
    for c in [top] + sorted(p.subclasses(top, strict=True), key=lambda k: k.qual):
        h = p.lookup(c, meth)
        if h is None or not isinstance(h.cls, Class) or h.qual in done:
            continue
        done.add(h.qual)
        g(ctx, c, *a)


def run(ctx):
    p = ctx.p
    m = p.cls("ManagerController")
    ch = p.cls("ChildPart")
    schema = {}
    each(ctx, m, "do_save", save, schema)
    each(ctx, m, "do_load", load, schema)
    each(ctx, m, "_mark_clean", clean)
    each(ctx, m, "update_modified", modified)
    filename(ctx, m)
    each(ctx, ch, "on_save", child_save)
    each(ctx, ch, "on_load", child_load)
    each(ctx, ch, "update_part_modified", child_update)
    each(ctx, ch, "send_modified_info_if_not_equal", child_modified)
    each(ctx, ch, "update_part_exportable", child_fields)
    for r, n in (("saved-table-is-the-current-one", 2), ("loaded-column-is-the-saved-one", 4), ("modified-iff-different", 4), ("restored-in-order", 1), ("every-config-field-is-watched", 1),
                 ("modified-message-iff-different", 2), ("saves-exactly-the-config-fields", 1)):
        ctx.floor(r, n)


# ------------------------------------------------------------------ manager
def save(ctx, c, schema):
    p = ctx.p
    f, S, tr, it = go(ctx, c, "do_save")
    tag = c.name + ".do_save"
    design = ("p", f.params[1])
    lay, exp = ("a", ("a", S, "layout"), "value"), ("a", ("a", S, "exports"), "value")
    lo, eo = order_of(p, "LayoutTable"), order_of(p, "ExportTable")
    n = 0
    for t in tr:
        opens = [(i, e) for i, e in calls(t, "open") if any(x == ("c", w) for x in list(e.args) + [v for _, v in e.kw] for w in ("w", "wt", "w+"))]
        pl = path_lines(t, 60)
        if t.outcome != "return":
            ctx.ob("refused-save-writes-nothing", tag, not opens and not calls(t, "_mark_clean"), "the file was opened", f.loc(), pl)
            continue
        n += 1
        if not ctx.ob("design-is-written", tag, len(opens) == 1, "%d files written" % len(opens), f.loc(), pl):
            continue
        i, o = opens[0]
        ft = next((x for e in t.events for x in walk_term(e.term) if x[0] == "call" and x[1] == o.term and x[2] == o.args), None)
        w = [(j, e) for j, e in enumerate(t.events) if e.kind == "call" and j > i and (e.name() == "write" and e.term[1] == ft or ft in e.args)]
        if not ctx.ob("design-is-written", tag, len(w) == 1 and all(e.kind != "exit" for e in t.events[i + 1:w[0][0]] if e.term == ft), "%d writes" % len(w), f.loc(), pl):
            continue
        enc = next((x for a in w[0][1].args for x in walk_term(a) if x[0] == "call" and last_name(x[1]) in ("json_encode", "dumps")), None)
        s = enc[2][0] if enc is not None and enc[2] else next((a for a in w[0][1].args if a[0] == "dict"), None)
        s = t.state.snap(s) if s is not None else None
        if not ctx.ob("design-is-written", tag, s is not None and s[0] == "dict", "what is written is not the structure: %s" % [show(a) for a in w[0][1].args], f.loc(), pl):
            continue
        # which name
        chosen = next((a for j, e in calls(t, "_validated_config_filename") for a in e.args), None)
        use = [e.extra for e in t.events if e.kind == "cond" and e.term == design]
        want = design if use and use[0] else ("a", ("a", S, "design"), "value")
        ctx.ob("saved-under-its-name", tag, chosen == want or (chosen is not None and chosen[0] == "op" and chosen[1] == "or"), "file name made from %s" % (chosen and show(chosen)), f.loc(), pl)
        ctx.ob("saved-under-its-name", tag, contains(o.args[0] if o.args else NONE, chosen or NONE) and any(x[0] == "call" and last_name(x[1]) == "_validated_config_filename" for x in walk_term(o.args[0])), "writes to %s" % show(o.args[0]), f.loc(), pl)
        ctx.ob("unnamed-or-template-refused", tag, any(e.kind == "cond" and e.extra and e.term == chosen for e in t.events[:i]), "the name may be empty", f.loc(), pl)
        ctx.ob("unnamed-or-template-refused", tag, any(e.kind == "cond" and e.extra is False and e.term[0] == "call" and last_name(e.term[1]) == "startswith" and e.term[1][1] == chosen for e in t.events[:i]),
               "a template may be overwritten", f.loc(), pl)
        # what
        flat = {}

        def walk(d, path):
            for k, v in entries(d):
                if k[0] == "c":
                    flat[path + (k[1],)] = v
                    walk(v, path + (k[1],))
        walk(s, ())
        got = {}
        for path, v in flat.items():
            es = entries(v)
            if es and all(k[0] != "c" for k, _ in es):
                got[path] = es
        lays = {pa: es for pa, es in got.items() if any(contains(x, lay) for k, x in es)}
        ok = len(lays) == 1
        if ok:
            (pa, es), = lays.items()
            rows = [column(k, lay, lo) for k, _ in es]
            ok = sorted(r[0] for r in rows) == [0, 1] and all(r[1] == "name" for r in rows)
            cols = [{k: column(v, lay, lo) for k, v in entries(x)} for _, x in es]
            ok = ok and all(v[0] == r[0] for r, cs in zip(rows, cols) for v in cs.values()) and all({v[1] for v in cs.values()} >= {"x", "y", "visible"} for cs in cols)
            if ok:
                schema["layout"] = pa
                schema["cols"] = {v[1]: k[1] for k, v in cols[0].items()}
        ctx.ob("saved-table-is-the-current-one", tag + "/layout", ok, "layout saved as %s" % {str(k): [(show(a), show(b)) for a, b in v] for k, v in lays.items()}, f.loc(), pl)
        exps = {pa: es for pa, es in got.items() if any(contains(x, exp) for k, x in es)}
        ok = len(exps) == 1
        if ok:
            (pa, es), = exps.items()
            rows = [(column(k, exp, eo), column(v, exp, eo)) for k, v in es]
            ok = sorted(a[0] for a, b in rows) == [0, 1] and all(a == (b[0], "source") and b[1] == "export" for a, b in rows)
            schema["exports"] = pa
        ctx.ob("saved-table-is-the-current-one", tag + "/exports", ok, "exports saved as %s" % {str(k): [(show(a), show(b)) for a, b in v] for k, v in exps.items()}, f.loc(), pl)
        ours = ("a", S, "our_config_attributes")
        at = [(path[:-1] if path else (), k, v) for d, path in [(s, ())] for k, v in []]
        own = []

        def own_of(d, path):
            for k, v in entries(d):
                if k[0] != "c" and contains(k, ours):
                    own.append((path, k, v))
                elif k[0] == "c":
                    own_of(v, path + (k[1],))
        own_of(s, ())
        ok = sorted(str(idx_of(k)) for _, k, _ in own) == ["0", "1"] and all(v[0] == "a" and v[2] == "value" and contains(v, ours) and idx_of(v[1]) == idx_of(k) and k[0] in ("elem", "key") for _, k, v in own)
        if ok:
            schema["own"] = own[0][0]
        ctx.ob("saves-own-config-values", tag, ok, "own values saved as %s" % [(show(k), show(v)) for _, k, v in own], f.loc(), pl)
        kids = [(path, v) for path, v in flat.items() if v[0] == "call" and last_name(v[1]) == "run_hooks"]
        ok = len(kids) == 1
        if ok:
            schema["children"] = kids[0][0]
            ok = hooks_all(t, kids[0][1][2][0], "SaveHook")
        ctx.ob("saves-every-part", tag, ok, "children saved as %s" % [show(v) for _, v in kids], f.loc(), pl)
        # and then
        ends = [j for j, e in enumerate(t.events) if e.kind == "exit" and e.term == ft] or [j for j, e in calls(t, "close") if e.term[1] == ft]
        mc = calls(t, "_mark_clean")
        ctx.ob("clean-only-after-saved", tag, len(mc) == 1 and bool(ends) and mc[0][0] > ends[-1] and mc[0][1].args[:1] == (chosen,) and (mc[0][1].arg(1, "init") in (None, ("c", False))),
               "marked clean %s" % [repr(e) for _, e in mc], f.loc(), pl)
    ctx.ob("design-is-written", tag, n > 0, "never", f.loc())


def hooks_all(t, x, name):
    x = t.state.snap(x)
    hs = list(x[1]) if x[0] in ("list", "T") else []
    if len(hs) != 2 or not all(h[0] == "new" and h[1].split(".")[-1] == name for h in hs):
        return False
    ps = [dict(h[2]).get("part") for h in hs]
    cs = [dict(h[2]).get("context") for h in hs]
    src = [y for q in ps for y in walk_term(q) if y[0] == "call" and last_name(y[1]) == "create_part_contexts"]
    return len(src) >= 2 and {idx_of(q) for q in ps} == {0, 1} and all(idx_of(a) == idx_of(b) and contains(b, src[0]) for a, b in zip(ps, cs)) \
        and all(dict(y[3]).get("only_visible", y[2][0] if y[2] else None) == ("c", False) for y in src)


def load(ctx, c, schema):
    p = ctx.p
    f, S, tr, it = go(ctx, c, "do_load")
    tag = c.name + ".do_load"
    design, init = ("p", f.params[1]), ("p", f.params[2])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        sl = calls(t, "set_layout")
        mc = calls(t, "_mark_clean")
        rh = calls(t, "run_hooks")
        ex = [(i, e) for i, e in calls(t, "set_value") if e.term[1] == ("a", S, "exports")] + calls(t, "set_exports")
        pv = calls(t, "put_attribute_values")
        ctx.ob("clean-only-after-loaded", tag, len(mc) == 1 and mc[0][1].args[:1] == (design,) and mc[0][1].arg(1, "init") == init and all(i < mc[0][0] for i, _ in sl + rh + ex + pv), "%s" % [repr(e) for _, e in mc], f.loc(), pl)
        if not ctx.ob("restores-everything", tag, len(sl) == 1 and len(ex) == 1 and len(rh) == 1, "layout %d, exports %d, hooks %d" % (len(sl), len(ex), len(rh)), f.loc(), pl):
            continue
        ctx.ob("children-after-layout", tag, sl[0][0] < rh[0][0], "children loaded before they are laid out", f.loc(), pl)
        x = t.state.snap(rh[0][1].args[0])
        ctx.ob("loads-every-part", tag, hooks_all(t, x, "LoadHook") and all(dict(h[2]).get("init") == init for h in x[1]), "hooks %s" % show(x), f.loc(), pl)
        op = [(i, e) for i, e in calls(t, "open")]
        if not op:
            # no design: everything empty
            given = [e for e in t.events if e.kind == "cond" and e.term == design]
            ctx.ob("named-design-is-read", tag, bool(given) and not given[0].extra, "nothing is read", f.loc(), pl)
            continue
        n += 1
        ctx.ob("loaded-from-its-name", tag, len(op) == 1 and any(y[0] == "call" and last_name(y[1]) == "_validated_config_filename" and y[2] == (design,) for y in walk_term(op[0][1].args[0])), "reads %s" % show(op[0][1].args[0]), f.loc(), pl)
        dec = next((y for i, e in enumerate(t.events) for y in list(walk_term(e.term)) + [z for a in e.args for z in walk_term(a)] if y[0] == "call" and last_name(y[1]) in ("json_decode", "loads", "load")), None)
        if not ctx.ob("named-design-is-read", tag, dec is not None and contains(dec, op[0][1].args[0]), "what is read is not used", f.loc(), pl):
            continue
        table = t.state.snap(sl[0][1].args[0])
        cols = {k: t.state.snap(v) for k, v in table[2]} if table[0] == "new" else {}
        ok = table[0] == "new" and table[1].endswith("LayoutTable") and all(k in cols and cols[k][0] in ("list", "T") for k in ("name", "x", "y", "visible"))
        if ctx.ob("loaded-column-is-the-saved-one", tag + "/layout", ok, "layout %s" % show(table), f.loc(), pl):
            for k in ("name", "x", "y", "visible"):
                vs = list(cols[k][1])
                good = len(vs) == 2
                for r, v in enumerate(vs):
                    if k == "name":
                        good = good and v[0] in ("elem", "key") and v[2] == r and keys(v[1], dec) == list(schema.get("layout", ()))
                    else:
                        b, kk = pick(v)
                        good = good and b is not None and b[0] == "val" and b[2] == r and keys(b[1], dec) == list(schema.get("layout", ())) and kk == ("c", schema.get("cols", {}).get(k))
                ctx.ob("loaded-column-is-the-saved-one", tag + "/layout." + k, good, "column %s is loaded from %s, saved under %s" % (k, [show(v) for v in vs], schema.get("cols", {}).get(k)), f.loc(), pl)
        table = t.state.snap(ex[0][1].args[0])
        cols = {k: t.state.snap(v) for k, v in table[2]} if table[0] == "new" else {}
        for k, kind in (("source", ("elem", "key")), ("export", ("val",))):
            vs = list(cols[k][1]) if k in cols and cols[k][0] in ("list", "T") else []
            ctx.ob("loaded-column-is-the-saved-one", tag + "/exports." + k, whole(vs, k == "export", dec, schema) or len(vs) == 2 and all(v[0] in kind and v[2] == r and keys(v[1], dec) == list(schema.get("exports", ())) for r, v in enumerate(vs)),
                   "column %s is loaded from %s" % (k, [show(v) for v in vs]), f.loc(), pl)
        # own values: exactly those of our config attributes
        ours = ("a", S, "our_config_attributes")
        want = {}
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "in" and e.term[3] == ours:
                want[e.term[2]] = e.extra
        put = {}
        for i, e in pv:
            for k, v in entries(t.state.snap(e.args[0])):
                put[k] = v
        ok = bool(want) and {k for k, v in want.items() if v} == set(put) and all(v[0] in ("val", "i", "call") and contains(v, dec) and (v[0] != "val" or v[2] == k[2] and v[1] == k[1]) for k, v in put.items())
        ok = ok and all(keys(k[1], dec) == list(schema.get("own", ())) for k in want if k[0] in ("elem", "key"))
        ctx.ob("restores-own-config-values", tag, ok, "puts %s" % {show(k): show(v) for k, v in put.items()}, f.loc(), pl)
        for h in t.state.snap(rh[0][1].args[0])[1]:
            d = dict(h[2]) if h[0] == "new" else {}
            b, kk = pick(d.get("structure", NONE))
            ctx.ob("child-loads-its-own-structure", tag, b is not None and keys(b, dec) == list(schema.get("children", ())) and kk == ("a", d.get("part"), "name"), "part is given %s" % show(d.get("structure", NONE)), f.loc(), pl)
    ctx.ob("named-design-is-read", tag, n > 0, "never", f.loc())


def whole(vs, values, dec, schema):
    """all the keys (or values) of the saved table at once"""
    if len(vs) != 1 or vs[0][0] != "star":
        return False
    x = vs[0][1]
    m = None
    if x[0] in ("call", "mcall") and x[1][0] == "a" and x[1][2] in ("keys", "values"):
        x, m = x[1][1], x[1][2]
    return (m == "values") == values and keys(x, dec) == list(schema.get("exports", ()))


def clean(ctx, c):
    f, S, tr, it = go(ctx, c, "_mark_clean")
    tag = c.name + "._mark_clean"
    design, init = ("p", f.params[1]), ("p", f.params[2])
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        up = calls(t, "update_modified")
        end = up[-1][0] if up else -1
        last = {}
        for e in t.events[:end + 1]:
            if e.kind == "store" and e.term[0] == "a" and e.term[1] == S:
                last[e.term[2]] = e.args[0]
        ctx.ob("clean-means-like-now", tag, len(up) >= 1 and last.get("saved_visibility") == ("a", ("a", ("a", S, "layout"), "value"), "visible") and last.get("saved_exports") == ("a", ("a", S, "exports"), "value"),
               "compares against %s" % {k: show(v) for k, v in last.items()}, f.loc(), pl)
        clr = "part_modified" in last and t.state.snap(last["part_modified"]) in (("dict", ()), ("D", ())) or any(e.kind == "call" and e.name() == "clear" and e.term[1] == ("a", S, "part_modified") for e in t.events[:end + 1])
        at_init = [e.extra for e in t.events if e.kind == "cond" and e.term == init]
        ctx.ob("forgets-changes-except-at-init", tag, bool(at_init) and clr == (not at_init[0]), "changes %s although init is %s" % ("forgotten" if clr else "kept", at_init), f.loc(), pl)
        ds = [(i, e) for i, e in calls(t, "set_value") if e.term[1] == ("a", S, "design")]
        nm = calls(t, "_set_layout_names")
        ctx.ob("shows-the-design", tag, len(ds) == 1 and ds[0][1].args[:1] == (design,) and bool(nm) and nm[0][0] < ds[0][0] and nm[0][1].args[:1] == (design,), "design set %s" % [repr(e) for _, e in ds + nm], f.loc(), pl)
        ub = calls(t, "update_block_endpoints")
        ctx.ob("fields-follow-the-design", tag, bool(ub) and all(i < ub[-1][0] for i, e in ds[:0]), "fields not updated", f.loc(), pl)


def modified(ctx, c):
    f, S, tr, it = go(ctx, c, "update_modified", counts=two)
    tag = c.name + ".update_modified"
    part, info = ("p", f.params[1]), ("p", f.params[2])
    lay = ("a", ("a", S, "layout"), "value")
    exp = ("a", ("a", S, "exports"), "value")
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        sets = [(i, e) for i, e in calls(t, "set_value") if e.term[1] == ("a", S, "modified")]
        if not ctx.ob("modified-iff-different", tag, len(sets) == 1, "set %d times" % len(sets), f.loc(), pl):
            continue
        i, e = sets[0]
        cs = [x for x in t.events[:i] if x.kind == "cond"]
        dirty, not_us, seen = False, False, set()
        for x in cs:
            d = differs(x, ("a", lay, "visible"), ("a", S, "saved_visibility"))
            if d is not None:
                seen.add("layout")
                dirty, not_us = dirty or d, not_us or d
            d = differs(x, exp, ("a", S, "saved_exports"))
            if d is not None:
                seen.add("exports")
                dirty, not_us = dirty or d, not_us or d
        # per part: looked at when visible and reported; its messages counted by us or not
        ctxm = ("a", S, "context_modified")
        for x in cs:
            if x.term[0] == "op" and x.term[1] in ("in", "not in") and contains(x.term, ctxm):
                dirty = True
                if (x.term[1] == "in") != bool(x.extra):
                    not_us = True
        vis = [x for x in cs if column(x.term, lay, order_of(ctx.p, "LayoutTable"))[1] == "visible"]
        ctx.ob("only-visible-parts-count", tag, len({show(x.term) + str(x.term[-1]) for x in vis}) == 2, "visibility of the parts not looked at", f.loc(), pl)
        for x in cs:
            if x.term[0] == "op" and x.term[1] in ("in", "not in") and contains(x.term, ctxm):
                r = [y for y in walk_term(x.term) if column(y, lay, order_of(ctx.p, "LayoutTable"))[1] == "name"]
                row = column(r[0], lay, order_of(ctx.p, "LayoutTable"))[0] if r else None
                ctx.ob("only-visible-parts-count", tag, any(v.extra and column(v.term, lay, order_of(ctx.p, "LayoutTable"))[0] == row for v in vis), "a hidden part counts", f.loc(), pl)
        val = e.args[0] if e.args else None
        al = e.arg(1, "alarm")
        ctx.ob("modified-iff-different", tag, seen == {"layout", "exports"}, "only compares %s" % sorted(seen), f.loc(), pl)
        ctx.ob("modified-iff-different", tag, truth(val, dirty, t) == dirty, "shows %s although %s" % (show(val), "changed" if dirty else "unchanged"), f.loc(), pl)
        if dirty and al is not None:
            a = dict(al[2]) if al[0] == "new" else {}
            sev = show(a.get("severity", NONE))
            ctx.ob("modified-alarm-unless-by-us", tag, ("MINOR" in sev) == not_us and (not_us or "NO_ALARM" in sev), "severity %s although modified by %s" % (sev, "others" if not_us else "us"), f.loc(), pl)
        elif dirty:
            ctx.ob("modified-alarm-unless-by-us", tag, False, "no alarm", f.loc(), pl)
        else:
            ctx.ob("modified-alarm-unless-by-us", tag, al in (None, NONE), "alarm although unmodified", f.loc(), pl)
        given = [x.extra for x in cs if x.term == part]
        st = [x for x in t.events if x.kind == "call" and x.name() == "__setitem__" and x.term[1] == ("a", S, "part_modified")]
        if given and given[0]:
            ctx.ob("report-of-a-part-is-kept", tag, len(st) == 1 and st[0].args == (part, info), "%s" % [repr(x) for x in st], f.loc(), pl)
            loop = [j for j, x in enumerate(t.events) if x.kind == "cond" and x in vis]
            ctx.ob("report-of-a-part-is-kept", tag, not loop or t.events.index(st[0]) < loop[0] if st else False, "kept too late", f.loc(), pl)
        sq = [x for x in t.events if x.kind == "enter" and "changes_squashed" in show(x.term)]
        ctx.ob("modified-worked-out-in-one-step", tag, bool(sq), "not squashed", f.loc(), pl)


def differs(x, a, b):
    """what the test says about a != b: True, False, or None if it is about something else"""
    if x.term[0] == "op" and x.term[1] in ("!=", "==") and set(x.term[2:4]) == {a, b}:
        return (x.term[1] == "!=") == bool(x.extra)
    return None


def truth(v, dirty, t):
    if v is None:
        return None
    if v[0] == "c":
        return bool(v[1])
    v = t.state.snap(v)
    if v[0] in ("list", "T"):
        return bool(v[1])
    if v[0] == "call" and last_name(v[1]) == "bool" and v[2]:
        return truth(v[2][0], dirty, t)
    return None


def filename(ctx, m):
    """saving, loading and listing agree on where a design lives"""
    f, S, tr, it = go(ctx, m, "_validated_config_filename", names={"template_designs", "_make_config_dir"}, never={"_make_config_dir"})
    name = ("p", f.params[1])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        n += 1
        tmpl = [e.extra for e in t.events if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "startswith" and e.term[1][1] == name]
        v = t.value
        ok = bool(tmpl) and contains(v, name) and contains(v, ("a", S, "template_designs")) == tmpl[0] and any(y[0] == "call" and last_name(y[1]) == "_make_config_dir" for y in walk_term(v)) == (not tmpl[0])
        ctx.ob("file-belongs-to-the-name", "%s._validated_config_filename" % m.name, ok, "file %s" % show(v), f.loc(), path_lines(t))
    ctx.ob("file-belongs-to-the-name", "%s._validated_config_filename" % m.name, n > 0, "no path", f.loc())


# ------------------------------------------------------------------- child
def tagged(t, attr, upto=None):
    """was the attribute found to be config tagged on this path"""
    for e in t.events[:upto]:
        if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "get_config_tag" and contains(e.term, attr):
            return bool(e.extra)
        if e.kind == "cond" and e.term[0] == "op" and e.term[1] in ("is", "is not", "==", "!=") and NONE in e.term[2:] and any(y[0] == "call" and last_name(y[1]) == "get_config_tag" for y in walk_term(e.term)) and contains(e.term, attr):
            return (e.term[1] in ("is not", "!=")) == bool(e.extra)
    return None


def attr_of(x, child=None):
    """name term of child.<name>"""
    if x[0] == "call" and last_name(x[1]) in ("getattr", "__getattr__", "__getitem__") and len(x[2]) >= 1:
        return x[2][-1] if last_name(x[1]) != "getattr" else x[2][1]
    if x[0] == "i":
        return x[2]
    if x[0] in ("ga", "dyn"):
        return x[2]
    return None


def child_save(ctx, c):
    f, S, tr, it = go(ctx, c, "on_save", names={"_unmanaged_attr", "no_save_attribute_names"}, never={"_unmanaged_attr"})
    tag = c.name + ".on_save"
    if not any(calls(t, "get_config_tag") for t in tr):
        # an override that adds to what its base saves
        ok = all(t.outcome != "return" or calls(t, "on_save") for t in tr)
        ctx.ob("saves-exactly-the-config-fields", tag, ok, "does not save the child", f.loc())
        return
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        v = t.state.snap(t.value)
        saved = {}
        for k, x in entries(v):
            saved[k] = x
        ctx.ob("saves-exactly-the-config-fields", tag, v[0] == "dict", "returns %s" % show(v), f.loc(), pl)
        st = [e for e in t.events if e.kind == "store" and e.term == ("a", S, "saved_structure")]
        ctx.ob("remembers-what-it-saved", tag, bool(st) and t.state.snap(st[-1].args[0]) == v, "remembers %s" % [show(e.args[0]) for e in st], f.loc(), pl)
        # every field of the child looked at
        fields = {}
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "_unmanaged_attr":
                fields.setdefault(e.term[2][0], {})["own"] = bool(e.extra)
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" and e.term[3][0] == "cls" and e.term[3][1].endswith(".Attribute"):
                n = attr_of(e.term[2])
                fields.setdefault(n, {})["attr"] = bool(e.extra)
                fields[n]["term"] = e.term[2]
            if e.kind == "cond" and any(y[0] == "call" and last_name(y[1]) == "get_config_tag" for y in walk_term(e.term)):
                for n, d in fields.items():
                    if "term" in d and contains(e.term, d["term"]):
                        d["tag"] = tagged(t, d["term"])
        ctx.ob("saves-exactly-the-config-fields", tag, len(fields) == 2, "fields looked at: %s" % [show(k) for k in fields], f.loc(), pl)
        for n, d in fields.items():
            want = d.get("own") is not False and d.get("attr") is not False and d.get("tag") is not False
            full = "own" in d and "attr" in d and "tag" in d
            if want and not full:
                ctx.ob("saves-exactly-the-config-fields", tag, False, "%s of field not tested" % sorted({"own", "attr", "tag"} - set(d)), f.loc(), pl)
                continue
            ctx.ob("saves-exactly-the-config-fields", tag, (n in saved) == want, "%s although %s" % ("saved" if n in saved else "not saved", {k: v for k, v in d.items() if k != "term"}), f.loc(), pl)
            if n in saved:
                ctx.ob("saves-the-current-value", tag, saved[n] == ("a", d["term"], "value"), "saves %s" % show(saved[n]), f.loc(), pl)


def child_load(ctx, c):
    f, S, tr, it = go(ctx, c, "on_load", names={"get_config_tag"})
    tag = c.name + ".on_load"
    if not any(calls(t, "get_config_tag") for t in tr):
        return
    struct, init = ("p", f.params[2]), ("p", f.params[3])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 80)
        puts = calls(t, "put_attribute_values") + calls(t, "put_value")
        st = [i for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, "saved_structure")]
        ctx.ob("remembers-what-it-loads-first", tag, len(st) == 1 and t.events[st[0]].args[0] == struct and all(i > st[0] for i, _ in puts), "stored %s" % [show(t.events[i].args[0]) for i in st], f.loc(), pl)
        for i, e in puts:
            d = entries(t.state.snap(e.args[0]))
            for k, v in d:
                n += 1
                ok = k[0] in ("elem", "key") and k[1] == struct and v == ("val", struct, k[2])
                ctx.ob("restores-the-saved-value", tag, ok, "%s set to %s" % (show(k), show(v)), f.loc(), pl)
                cf = [x for x in t.events[:i] if x.kind == "cond" and any(y[0] == "call" and last_name(y[1]) == "get_config_tag" for y in walk_term(x.term)) and contains(x.term, k)]
                ctx.ob("restores-only-config-fields", tag, bool(cf) and bool(cf[0].extra), "%s restored although not config tagged" % show(k), f.loc(), pl)
                sk = [x for x in t.events[:i] if x.kind == "cond" and x.term == ("op", "==", k, ("c", "design"))]
                it_ = [x.extra for x in t.events[:i] if x.kind == "cond" and x.term == init]
                ctx.ob("design-not-restored-at-init", tag, not (it_ and it_[0] and (not sk or sk[0].extra)), "design restored at init", f.loc(), pl)
        # what differs is restored, what does not is left alone
        loops = [x for x in t.events if x.kind == "cond" and x.term[0] == "op" and x.term[1] in ("!=", "==") and any(y[0] == "val" and y[1] == struct for y in x.term[2:4]) and any(y[0] == "a" and y[2] == "value" for y in x.term[2:4])]
        done = {k for i, e in puts for k, v in entries(t.state.snap(e.args[0]))}
        for x in loops:
            v = next(y for y in x.term[2:4] if y[0] == "val")
            d = (x.term[1] == "!=") == bool(x.extra)
            ctx.ob("restores-iff-different", tag, (("elem", struct, v[2]) in done) == d, "%s although %s" % ("restored" if not d else "left", "the same" if not d else "different"), f.loc(), pl)
    ctx.ob("restores-the-saved-value", tag, n > 0, "never", f.loc())
    # in the order of the iterations: the loop over them goes through sorted()
    ok = False
    for t in tr:
        for i, e in calls(t, "sorted"):
            ok = True
    import ast
    srt = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "sorted" for y in ast.walk(x.iter))
           and any(isinstance(y, ast.Attribute) and y.attr in ("put_attribute_values", "put_value") for z in x.body for y in ast.walk(z))]
    srt = srt and not any(isinstance(k, ast.keyword) and k.arg == "reverse" for x in srt for k in ast.walk(x.iter))
    ctx.ob("restored-in-order", tag, bool(srt), "iterations not restored in ascending order", f.loc())
    ctx.ob("restored-in-order", tag, any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "int" for y in ast.walk(f.node)), "iterations compared as text", f.loc())


def child_update(ctx, c):
    f, S, tr, it = go(ctx, c, "update_part_modified")
    tag = c.name + ".update_part_modified"
    r = ("p", f.params[1])
    n = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        up = [bool(e.extra) for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" and e.term[2] == r and e.term[3][0] == "cls" and e.term[3][1].endswith(".Update")]
        s = calls(t, "send_modified_info_if_not_equal")
        ctx.ob("every-update-is-compared", tag, len(s) == (1 if up and up[0] else 0), "%d comparisons" % len(s), f.loc(), pl)
        for i, e in s:
            n += 1
            sub = ("i", ("a", S, "config_subscriptions"), ("a", r, "id"))
            nm = e.args[0]
            ok = nm[0] == "i" and nm[1] == ("a", sub, "path") and nm[2] in (("c", -2), ("c", 1)) and e.args[1] == ("a", r, "value")
            ctx.ob("compares-the-field-that-changed", tag, ok, "compares %s" % [show(a) for a in e.args], f.loc(), pl)
    ctx.ob("every-update-is-compared", tag, n > 0, "never", f.loc())


def child_modified(ctx, c):
    f, S, tr, it = go(ctx, c, "send_modified_info_if_not_equal")
    tag = c.name + ".send_modified_info_if_not_equal"
    name, new = ("p", f.params[1]), ("p", f.params[2])
    kinds = set()
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        eq = None
        for e in t.events:
            if e.kind == "cond" and e.term[0] == "op" and e.term[1] in ("==", "!=") and new in e.term[2:4]:
                o = e.term[2] if e.term[3] == new else e.term[3]
                b, k = pick(o)
                if b == ("a", S, "saved_structure") and k == name:
                    eq = (e.term[1] == "==") == bool(e.extra)
        if not ctx.ob("modified-message-iff-different", tag, eq is not None, "not compared with what was saved", f.loc(), pl):
            continue
        mm = ("a", S, "modified_messages")
        sets = [(i, e) for i, e in calls(t, "__setitem__") if e.term[1] == mm]
        pops = [(i, e) for i, e in calls(t, "pop", "__delitem__") if e.term[1] == mm]
        rep = calls(t, "report")
        kinds.add((eq, bool(rep)))
        ctx.ob("modified-message-iff-different", tag, not (eq and sets) and not (not eq and pops), "message %s although %s" % ("set" if sets else "removed", "the same" if eq else "different"), f.loc(), pl)
        for i, e in sets + pops:
            ctx.ob("modified-message-iff-different", tag, e.args[0] == name, "message of %s" % show(e.args[0]), f.loc(), pl)
        if rep:
            a = t.state.snap(rep[0][1].args[0])
            ctx.ob("reports-after-noting", tag, len(rep) == 1 and bool(sets or pops) and all(i < rep[0][0] for i, _ in sets + pops) and a[0] == "new" and a[1].endswith("PartModifiedInfo") and contains(a, mm), "%s" % [repr(e) for _, e in rep], f.loc(), pl)
        else:
            # nothing to tell only if the message is what it was
            same = [e for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] in ("!=", "==", "is", "is not") and contains(e.term, mm)]
            ok = not sets and not pops and any((e.term[1] in ("!=", "is not")) != bool(e.extra) for e in same)
            ctx.ob("reports-every-change", tag, ok, "a change is not reported", f.loc(), pl)
    ctx.ob("modified-message-iff-different", tag, {(True, True), (False, True)} <= kinds, "cases reached: %s" % sorted(kinds), f.loc())


def child_fields(ctx, c):
    f, S, tr, it = go(ctx, c, "update_part_exportable", names={"_unmanaged_attr"}, never={"_unmanaged_attr", "port_tag_details", "block_view", "handle_request"})
    tag = c.name + ".update_part_exportable"
    cs = ("a", S, "config_subscriptions")
    r = ("p", f.params[1])
    seen = 0
    for t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 100)
        rep = calls(t, "report")
        hr = calls(t, "handle_request")
        is_ = {e.term[3][1].split(".")[-1]: bool(e.extra) for e in t.events if e.kind == "cond" and e.term[0] == "op" and e.term[1] == "isinstance" and e.term[2] == r and e.term[3][0] == "cls"}
        if not any(is_.values()):
            ctx.ob("fields-reported", tag, not rep and not hr, "an unexpected response is acted on", f.loc(), pl)
            continue
        ctx.ob("fields-reported", tag, len(rep) == 1 and rep[-1][0] > max([i for i, _ in hr] + [-1]), "%d reports" % len(rep), f.loc(), pl)
        waits = calls(t, "wait")
        for i, e in hr:
            a = t.state.snap(e.args[0])
            w = [j for j, x in waits if x.term[1][0] == "call" and x.term[1][1] == e.term and len(x.term[1][2]) == len(e.args) and all(same_obj(a1, b1) for a1, b1 in zip(x.term[1][2], e.args))]
            ctx.ob("waits-for-every-request", tag, bool(w) and rep and w[-1] < rep[-1][0], "request %s not waited for before reporting" % show(a), f.loc(), pl)
            kind = a[1].split(".")[-1] if a[0] == "new" else show(a)
            d = dict(a[2]) if a[0] == "new" else {}
            cb = next((x.args[0] for j, x in calls(t, "set_callback") if j < i and same_obj(x.term[1], e.args[0])), None)
            if kind == "Subscribe":
                seen += 1
                p = d.get("path")
                p = t.state.snap(p) if p is not None else NONE
                ok = p[0] == "list" and len(p[1]) == 3 and p[1][0] == ("a", S, "mri") and p[1][2] == ("c", "value")
                ctx.ob("every-config-field-is-watched", tag, ok, "subscribes to %s" % show(p), f.loc(), pl)
                field = p[1][1] if ok else NONE
                ctx.ob("every-config-field-is-watched", tag, cb is not None and last_name(cb) == "update_part_modified", "callback %s" % (cb and show(cb)), f.loc(), pl)
                reg = [x for j, x in calls(t, "__setitem__") if x.term[1] == cs and j < i]
                ctx.ob("subscription-known-before-its-answer", tag, any(same_obj(x.args[1], e.args[0]) and x.args[0] == d.get("id") for x in reg), "registered %s" % [repr(x) for x in reg], f.loc(), pl)
                tg = [x for x in t.events[:i] if x.kind == "cond" and any(y[0] == "call" and last_name(y[1]) == "get_config_tag" for y in walk_term(x.term)) and contains(x.term, field)]
                ctx.ob("only-config-fields-are-watched", tag, bool(tg) and bool(tg[-1].extra), "%s not config tagged" % show(field), f.loc(), pl)
                un = [x for x in t.events[:i] if x.kind == "cond" and x.term[0] == "call" and last_name(x.term[1]) == "_unmanaged_attr" and x.term[2] == (field,)]
                ctx.ob("only-config-fields-are-watched", tag, bool(un) and bool(un[-1].extra), "%s may be in no_save" % show(field), f.loc(), pl)
                idt = d.get("id", NONE)
                none = [j for j, x in enumerate(t.events[:i]) if x.kind == "cond" and x.extra is False and x.term == cs]
                ok = idt[0] != "c" or bool(none) and len([j for j, x in calls(t, "__setitem__") if x.term[1] == cs and none[-1] < j < i]) == 1
                ctx.ob("ids-are-new", tag, ok, "id %s although there are subscriptions" % show(idt), f.loc(), pl)
            elif kind == "Unsubscribe":
                idt = d.get("id", NONE)
                ok = idt[0] == "a" and idt[2] == "id" and contains(idt, cs) and cb == ("a", idt[1], "callback")
                ctx.ob("stale-field-is-unwatched", tag, ok, "unsubscribes %s callback %s" % (show(idt), cb and show(cb)), f.loc(), pl)
                gone = [x for j, x in calls(t, "pop", "__delitem__") if x.term[1] == cs and x.args[:1] == (idt,)]
                ctx.ob("stale-field-is-forgotten", tag, bool(gone), "still remembered, so the field is never watched again", f.loc(), pl)
        for x in t.events:
            if x.kind == "cond" and x.extra and x.term[0] == "op" and x.term[1] == "isinstance" and x.term[3][0] == "cls" and x.term[3][1].endswith(".Attribute"):
                n = attr_of(x.term[2])
                ctx.ob("every-config-field-is-watched", tag, any(y.kind == "cond" and y.term[0] == "call" and last_name(y.term[1]) in ("_unmanaged_attr", "get_config_tag") and contains(y.term, n) for y in t.events),
                       "%s is passed over" % (n and show(n)), f.loc(), pl)
        # every attribute that is config tagged and not managed gets a subscription
        for j, x in enumerate(t.events):
            if x.kind == "cond" and x.extra and x.term[0] == "call" and last_name(x.term[1]) == "get_config_tag":
                n = next((attr_of(y) for y in walk_term(x.term) if attr_of(y) is not None and y[0] == "call"), None)
                un = [y.extra for y in t.events if y.kind == "cond" and y.term[0] == "call" and last_name(y.term[1]) == "_unmanaged_attr" and n in y.term[2]]
                if un and not un[0]:
                    continue
                ok = any(t.state.snap(e.args[0])[0] == "new" and t.state.snap(e.args[0])[1].endswith("Subscribe") and contains(t.state.snap(e.args[0]), n) for i, e in hr) if n else False
                ctx.ob("every-config-field-is-watched", tag, ok, "%s is not watched" % (n and show(n)), f.loc(), pl)
    ctx.ob("every-config-field-is-watched", tag, seen > 0, "nothing subscribed to", f.loc())


def same_obj(a, b):
    """the same object: made by the same evaluation"""
    if a[0] == b[0] == "new" and len(a) > 3 and len(b) > 3:
        return a[1] == b[1] and a[3] == b[3]
    return a == b
