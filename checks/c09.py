"""State machine of stateful blocks: the transition tables are evaluated from the constructors of the state sets and compared
with the specified machine; every path of the transition function changes state, alarm and writeable flags together, only
when the table allows it; the states in which each field may be written are evaluated from the controllers' constructors."""
import ast
from sa.interp import contains, last_name, show, walk_term, NONE
from sa.project import Class
from sa.q import EQ, Interp, path_lines
from checks.util import calls, explicit_raise, idx_of, is_exc, two

OPAQUE = ("malcolm.core.models", "malcolm.core.notifier")

STATEFUL = {"Resetting": "Ready", "Ready": "", "Fault": "Resetting", "Disabling": "Disabled", "Disabled": "Resetting"}
MANAGER = dict(STATEFUL, Ready="Saving Loading", Saving="Ready", Loading="Ready")
RUNNABLE = dict(MANAGER, Ready="Saving Loading Configuring Aborting", Configuring="Armed Aborting", Armed="Running Seeking Resetting Aborting",
                Running="PostRun Seeking Aborting", PostRun="Finished Armed Seeking Aborting", Finished="Seeking Resetting Configuring Aborting",
                Seeking="Armed Paused Finished Aborting", Paused="Seeking Running Aborting", Aborting="Aborted", Aborted="Resetting")
TABLES = {"StatefulStates": STATEFUL, "ManagerStates": MANAGER, "RunnableStates": RUNNABLE}
# state a field may be written in, unless it is all but Disabling and Disabled
WRITE = {"StatefulController": {"reset": "Disabled Fault"}}
WRITE["ManagerController"] = dict(WRITE["StatefulController"], layout="Ready", design="Ready", exports="Ready", save="Ready")
WRITE["RunnableController"] = dict(WRITE["ManagerController"], reset="Disabled Fault Aborted Armed Finished", configure="Ready Finished", run="Armed", resume="Paused",
                                   abort="Ready Configuring Armed Running PostRun Paused Seeking Finished", pause="Armed Paused Running Finished", completedSteps="Paused Armed")
ALWAYS = {"StatefulController": {"disable"}, "ManagerController": {"disable"}, "RunnableController": {"disable", "validate"}}
NEVER_W = {"health", "state", "mri", "modified", "configuredSteps", "totalSteps"}


def expected(spec):
    t = {s: set(v.split()) for s, v in spec.items()}
    for s in t:
        if s == "Disabled":
            continue
        if s != "Fault":
            t[s].add("Fault")
        if s != "Disabling":
            t[s].add("Disabling")
    return t


def table(ctx, c):
    """the transitions a state set's constructor allows"""
    p = ctx.p
    f = p.method(c, "__init__")
    S = ("o", "self", c.qual)
    q = EQ(names={"set_allowed"}, call=lambda it, fn, a, k, st: last_name(fn) == "set_allowed", never={"set_allowed"}, counts=lambda it, b, st: [1])
    it = Interp(p, q)
    tr = [t for t in it.run(f, c) if t.outcome == "return"]
    ctx.used(it, tr)
    ctx.ob("state-machine-is-fixed", c.name, len(tr) == 1, "%d ways to build the state machine" % len(tr), c.loc())
    allowed, poss = {}, []
    for e in tr[0].events if tr else []:
        src = []
        snap = list(poss)

        def names(a):
            if a[0] == "c":
                return [a[1]]
            if a[0] == "star":
                a = a[1]
            x = tr[0].state.snap(a)
            if x[0] in ("T", "list"):
                return [n for y in x[1] for n in names(y)]
            if contains(a, ("a", S, "possible_states")):
                return snap
            return ["?" + show(a)]
        args = [names(a) for a in e.args]
        src = args[0]
        dst = [d for a in args[1:] for d in a]
        for s in src:
            allowed.setdefault(s, set()).update(dst)
            for d in dst + [s]:
                if d not in poss:
                    poss.append(d)
    return allowed, poss


def run(ctx):
    p = ctx.p
    machines = {}
    for name, spec in sorted(TABLES.items()):
        c = p.cls(name)
        got, poss = table(ctx, c)
        want = expected(spec)
        machines[name] = got
        for s in sorted(set(got) | set(want)):
            ctx.ob("transitions-are-the-specified-ones", "%s from %s" % (name, s), got.get(s) == want.get(s),
                   "to %s instead of %s" % (sorted(got.get(s, ())), sorted(want.get(s, ()))), c.loc())
        ctx.ob("every-state-can-be-left", name, set(poss) == set(got), "%s" % (set(poss) ^ set(got)), c.loc())
    stateset(ctx)
    transition(ctx)
    sole_writer(ctx)
    writeable(ctx)
    fields(ctx)


def stateset(ctx):
    p = ctx.p
    c = p.cls("StateSet")
    S = ("o", "self", c.qual)
    f = p.method(c, "transition_allowed")
    n = 0
    q = EQ(names={"_allowed"}, cond=lambda it, t, st: True)
    for t in Interp(p, q).run(f, c):
        if t.outcome == "return":
            n += 1
            v = t.value
            a, b = ("p", f.params[1]), ("p", f.params[2])
            tab = ("a", S, "_allowed")
            ok = v[:2] == ("op", "in") and v[2] == b and contains(v[3], tab) and contains(v[3], a) and not contains(v[3], b)
            ctx.ob("allowed-means-in-the-table", "StateSet.transition_allowed", ok, "answers %s" % show(v), f.loc(), path_lines(t))
    ctx.ob("allowed-means-in-the-table", "StateSet.transition_allowed", n > 0, "never answers", f.loc())
    f = p.method(c, "set_allowed")
    q = EQ(names={"_allowed", "possible_states"}, call=lambda it, fn, a, k, st: last_name(fn) in ("setdefault", "update", "append", "add"), cond=lambda it, t, st: True)
    it = Interp(p, q)
    A, B, C = ("c", "a"), ("c", "b"), ("c", "x")
    for t in it.run(f, c, {f.params[1]: A, f.node.args.vararg.arg if f.node.args.vararg else "allowed_states": ("T", (B, C))}):
        if t.outcome != "return":
            continue
        pl = path_lines(t)
        tab = ("a", S, "_allowed")
        up = [e for e in t.events if e.kind == "call" and e.name() in ("update", "add") and contains(e.term, tab) and contains(e.term, A)]
        got = set()
        for e in up:
            x = t.state.snap(e.args[0])
            got |= set(x[1]) if x[0] in ("T", "list") else {x}
        ctx.ob("transition-is-added-from-its-own-state", "StateSet.set_allowed", got == {B, C}, "adds %s" % [repr(e) for e in up], f.loc(), pl)


def transition(ctx):
    p = ctx.p
    c = p.cls("StatefulController")
    S = ("o", "self", c.qual)
    f = p.method(c, "transition")
    state, msg = ("p", f.params[1]), ("p", f.params[2])
    rec = ("set_value", "set_alarm", "set_writeable", "update_health", "transition_allowed")
    ST = ("a", S, "state")
    variants = []
    for k in [c] + p.subclasses(c, strict=True):
        g = p.lookup(k, "transition")
        if g is not None and g.qual not in [v.qual for v in variants]:
            variants.append(g)
    ctx.ob("one-transition-function", "StatefulController", len(variants) == 1, "overridden in %s" % [v.qual for v in variants[1:]], f.loc())
    q = EQ(names={"state", "_children_writeable"} | set(rec), call=lambda it, fn, a, k, st: last_name(fn) in rec, cond=lambda it, t, st: True, with_=lambda it, t, st: True,
           never=set(rec), counts=two, never_mod=OPAQUE)
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    seen = set()
    for t in tr:
        pl = path_lines(t)
        alw = [(i, e) for i, e in enumerate(t.events) if e.kind == "cond" and e.term[0] == "call" and last_name(e.term[1]) == "transition_allowed"]
        eff = [(i, e) for i, e in enumerate(t.events) if e.kind == "call" and e.name() in ("set_value", "set_alarm", "set_writeable", "update_health")]
        if t.outcome == "raise":
            if explicit_raise(t) or (alw and not alw[-1][1].extra):
                ctx.ob("refused-transition-changes-nothing", "transition", not eff, "changes %s before refusing" % [repr(e) for _, e in eff][:2], f.loc(), pl)
                if alw and not alw[-1][1].extra:
                    seen.add("refused")
            continue
        ctx.ob("state-only-changes-along-the-table", "transition", bool(alw) and alw[-1][1].extra and all(i > alw[0][0] for i, _ in eff), "state set without asking the table", f.loc(), pl)
        if not alw or not alw[-1][1].extra:
            continue
        q_ = alw[0][1].term
        kw = dict(q_[3])
        a0 = kw.get("initial_state", q_[2][0] if q_[2] else NONE)
        a1 = kw.get("target_state", q_[2][-1] if q_[2] else NONE)
        ctx.ob("state-only-changes-along-the-table", "transition", a0 == ("a", ST, "value") and a1 == state and contains(q_[1], ("a", S, "state_set")), "asks %s" % show(q_), f.loc(), pl)
        sv = [(i, e) for i, e in eff if e.name() == "set_value" and e.term[1] == ST]
        if not sv:
            ctx.ob("state-is-the-requested-one", "transition", False, "state not set", f.loc(), pl)
            continue
        ctx.ob("state-is-the-requested-one", "transition", len(sv) == 1 and sv[0][1].args[0] == state, "sets %s" % [repr(e) for _, e in sv], f.loc(), pl)
        # alarm matches
        known = {}
        for e in t.events:
            if e.kind == "cond" and e.term[:2] == ("op", "==") and state in e.term[2:]:
                other = [x for x in e.term[2:] if x != state][0]
                known[other[1] if other[0] == "c" else show(other)] = e.extra
        kind = "Disabled" if known.get("Disabled") else "Fault" if known.get("Fault") else "other"
        if kind == "other" and (known.get("Disabled") is None or known.get("Fault") is None):
            kind = "unknown"
        seen.add(kind)
        al = [e.arg(0) for _, e in eff if e.name() == "set_alarm" and e.term[1] == ST] + [dict(sv[0][1].kw).get("alarm")] * (len(sv) == 1 and bool(dict(sv[0][1].kw).get("alarm")))
        uh = [e for _, e in eff if e.name() == "update_health"]
        want = {"Disabled": ("invalid", None), "Fault": ("major", msg), "other": None, "unknown": "?"}[kind]
        ok = bool(al)
        if ok and want != "?":
            x = al[-1]
            if want is None:
                ok = x[0] == "new" and x[1].endswith(".Alarm") and severity(x) in (None, 0) or x[0] == "call" and last_name(x[1]) in ("ok",)
            else:
                ok = x[0] == "call" and last_name(x[1]) == want[0] and (want[1] is None or x[2] == (want[1],))
        ctx.ob("alarm-matches-the-state", "transition to " + kind, ok and want != "?", "alarm %s" % [show(a) for a in al], f.loc(), pl)
        if al:
            ctx.ob("health-matches-the-state", "transition to " + kind, len(uh) == 1 and contains(uh[0].args[1], al[-1]) and uh[0].args[0] == S, "health %s" % [repr(e) for e in uh], f.loc(), pl)
        # writeable flags of exactly that state
        wr = [e for _, e in eff if e.name() == "set_writeable"]
        ok = len(wr) == 2 and len({repr(idx_of(e.term)) for e in wr}) == 2
        for e in wr:
            src = [x for x in walk_term(e.args[0]) if isinstance(x, tuple) and x[:1] == ("i",) and x[1][0] == "a" and x[1][2] == "_children_writeable"]
            key = [x for x in walk_term(e.term) if isinstance(x, tuple) and x[:1] == ("i",) and x[1][0] == "a" and x[1][2] == "_children_writeable"]
            ok = ok and bool(src) and bool(key) and src[0][2] == state and key[0] == src[0] and idx_of(e.term) == idx_of(e.args[0]) and e.args[0][0] != "op"
        ctx.ob("writeable-flags-follow-the-state", "transition", ok, "sets %s" % [repr(e) for e in wr], f.loc(), pl)
        # all of it in one squashed change
        opened = [i for i, e in enumerate(t.events) if e.kind == "enter" and "changes_squashed" in show(e.term)]
        closed = [i for i, e in enumerate(t.events) if e.kind == "exit" and "changes_squashed" in show(e.term)]
        ok = len(opened) == 1 and len(closed) == 1 and all(opened[0] < i < closed[0] for i, _ in eff + alw)
        ctx.ob("state-alarm-and-flags-change-together", "transition", ok, "not one squashed change", f.loc(), pl)
    for k in ("Disabled", "Fault", "other", "refused"):
        ctx.ob("every-kind-of-transition-seen", k, k in seen or ("unknown" in seen and k != "refused"), "no path", f.loc())


def severity(x):
    d = dict(x[2])
    s = d.get("severity")
    if s is None:
        return None
    if s[0] == "c":
        return s[1]
    return 0 if "NO_ALARM" in show(s) else show(s)


def sole_writer(ctx):
    """no code but the transition function sets the state attribute of a stateful controller"""
    p = ctx.p
    c = p.cls("StatefulController")
    fam = [c] + p.subclasses(c, strict=True)
    n = 0
    trans = p.method(c, "transition")
    reach = {trans.name}
    work = [trans]
    while work:
        g = work.pop()
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr not in reach and x.func.attr in c.methods:
                reach.add(x.func.attr)
                work.append(c.methods[x.func.attr])
    # helpers of transition that nothing else calls
    for k in fam:
        for g in k.methods.values():
            if g.name in reach:
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("set_") and \
                        isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "state" and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == "self":
                    n += 1
                    ctx.ob("only-transition-sets-the-state", k.name + "." + g.name, False, "sets the state directly", "%s:%d" % (g.module.rel, x.lineno))
    ctx.ob("only-transition-sets-the-state", "StatefulController and %d subclasses" % (len(fam) - 1), n == 0, "", c.loc())
    ctx.note("%d stateful controller classes" % len(fam))


def writeable(ctx):
    p = ctx.p
    rec = ("set_writeable_in", "transition", "add_method_model", "add_attribute_model", "get_field")
    sc = p.cls("StatefulController")
    done = set()
    for c in [sc] + sorted(p.subclasses(sc, strict=True), key=lambda k: k.qual):
        f = p.lookup(c, "__init__")
        if f is None or f.qual in done:
            continue
        done.add(f.qual)
        base = next((k.name for k in p.mro(c) if isinstance(k, Class) and k.name in WRITE), None)
        q = EQ(names=set(rec), call=lambda it, fn, a, k, st: last_name(fn) in rec, never=set(rec) | {"create_attribute_model", "set_logger"}, noraise=lambda *a: True, never_mod=OPAQUE, max_iter=1)
        it = Interp(p, q)
        tr = it.run(f, c)
        ctx.used(it, tr)
        S = ("o", "self", c.qual)
        for t in tr:
            if t.outcome != "return":
                continue
            pl = path_lines(t)
            regs = {}   # model term -> field name
            wf = {}
            tab = {}
            for e in t.events:
                if e.kind != "call":
                    continue
                if e.name() == "add_attribute_model":
                    nm = e.arg(0, "name")
                    if nm[0] == "c":
                        regs[e.arg(1, "attr")] = nm[1]
                        wf[nm[1]] = e.arg(2, "writeable_func") not in (None, NONE)
                elif e.name() == "add_method_model":
                    fn = e.arg(0, "func")
                    nm = e.arg(1, "name")
                    nm = nm[1] if nm not in (None, NONE) and nm[0] == "c" else last_name(fn)
                    wf[nm] = True
            for e in t.events:
                if e.kind == "call" and e.name() == "set_writeable_in":
                    m = e.args[0]
                    if m[0] == "call" and last_name(m[1]) == "add_method_model":
                        kw = dict(m[3])
                        nm = kw.get("name", m[2][1] if len(m[2]) > 1 else NONE)
                        nm = nm[1] if nm != NONE else last_name(m[2][0])
                    elif m[0] == "call" and last_name(m[1]) == "get_field":
                        nm = m[2][0][1]
                    elif m in regs:
                        nm = regs[m]
                    else:
                        nm = None
                    sts = set()
                    for a in e.args[1:]:
                        x = t.state.snap(a[1]) if a[0] == "star" else a
                        if x[0] in ("T", "list"):
                            sts |= {y[1] for y in x[1] if y[0] == "c"}
                        elif x[0] == "c":
                            sts.add(x[1])
                        else:
                            sts.add("?" + show(x))
                    tab[nm] = sts
            spec = WRITE[base]
            for nm, sts in sorted(spec.items()):
                ctx.ob("field-writeable-exactly-in-its-states", "%s.%s" % (c.name, nm), tab.get(nm) == set(sts.split()), "writeable in %s, not %s" % (sorted(tab.get(nm, ())), sts), c.loc(), pl)
                ctx.ob("field-writeable-exactly-in-its-states", "%s.%s" % (c.name, nm), wf.get(nm) is True, "has no setter", c.loc(), pl)
            for nm in sorted(ALWAYS[base]):
                ctx.ob("field-writeable-exactly-in-its-states", "%s.%s" % (c.name, nm), wf.get(nm) is True and nm not in tab, "writeable in %s" % tab.get(nm), c.loc(), pl)
            for nm in sorted(NEVER_W & set(wf)):
                ctx.ob("read-only-field-has-no-setter", "%s.%s" % (c.name, nm), wf[nm] is False and nm not in tab, "can be written", c.loc(), pl)
            tran = [e for e in t.events if e.kind == "call" and e.name() == "transition"]
            ctx.ob("starts-disabled", c.name, bool(tran) and tran[-1].args[0] == ("c", "Disabled"), "starts with %s" % [repr(e) for e in tran], c.loc(), pl)


def fields(ctx):
    """set_writeable_in / add_block_field fill the table for every state"""
    p = ctx.p
    c = p.cls("StatefulController")
    S = ("o", "self", c.qual)
    CW = ("a", S, "_children_writeable")
    PS = ("a", ("a", S, "state_set"), "possible_states")
    f = p.method(c, "set_writeable_in")
    field = ("p", f.params[1])
    q = EQ(names={"_children_writeable", "possible_states"}, call=lambda it, fn, a, k, st: last_name(fn) in ("__setitem__", "setdefault", "set_writeable"), cond=lambda it, t, st: True, counts=two, never={"set_writeable"}, never_mod=OPAQUE)
    it = Interp(p, q)
    tr = it.run(f, c)
    ctx.used(it, tr)
    n = 0
    given = ("p", "*" + f.node.args.vararg.arg) if f.node.args.vararg else None
    for t in tr:
        if t.outcome != "return":
            continue
        n += 1
        filled(ctx, t, f, "set_writeable_in", CW, PS, field, lambda st: decided(t, st, given))
    ctx.ob("every-state-decides-a-field", "set_writeable_in", n > 0, "never", f.loc())
    f = p.method(c, "add_block_field")
    child, wf = ("p", f.params[2]), ("p", f.params[3])
    n = 0
    q = EQ(names={"_children_writeable", "possible_states", "set_writeable"}, call=lambda it, fn, a, k, st: last_name(fn) in ("__setitem__", "setdefault", "set_writeable"), cond=lambda it, t, st: True,
           counts=two, never={"set_writeable"}, never_mod=OPAQUE)
    it = Interp(p, q)
    tr = []
    for given in (True, False):
        r = it.run(f, c, conds={wf: given, ("op", "is", wf, NONE): not given})
        ctx.used(it, r)
        tr += [(given, t) for t in r]
    for given, t in tr:
        if t.outcome != "return":
            continue
        pl = path_lines(t, 60)
        has = [given]
        sets = [e for e in calls(t, "__setitem__") if contains(e.term, CW)]
        sw = [e for e in calls(t, "set_writeable") if e.term[1] == ("a", child, "meta")]
        if not has or not has[0]:
            ctx.ob("field-without-setter-stays-read-only", "add_block_field", not sets and not sw, "writeable without a setter", f.loc(), pl)
            continue
        known = [e for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[2] == child and contains(e.term[3], CW)]
        if any(e.extra for e in known):
            ctx.ob("explicit-states-are-kept", "add_block_field", not sets, "overwrites the states a field was given", f.loc(), pl)
        elif known:
            n += 1
            filled(ctx, t, f, "add_block_field", CW, PS, child, lambda st: not_disabled(t, st))
        # what the field is now
        cur = ("a", ("a", S, "state"), "value")
        ok = bool(sw) and contains(sw[-1].args[0], CW) and contains(sw[-1].args[0], cur) and contains(sw[-1].args[0], child)
        ctx.ob("new-field-follows-the-current-state", "add_block_field", ok, "writeable flag set to %s" % [show(e.args[0]) for e in sw], f.loc(), pl)
    ctx.ob("every-state-decides-a-field", "add_block_field", n > 0, "never", f.loc())


def filled(ctx, t, f, tag, CW, PS, field, want):
    rows, last = {}, None
    for e in calls(t, "__setitem__"):
        if e.term[1] == CW:
            last = e.args[0]    # a row just made for that state
        elif e.term[1][0] == "D" and last is not None:
            rows.setdefault(e.term[1], last)
    sets = [e for e in calls(t, "__setitem__") if (contains(e.term, CW) or e.term[1] in rows) and e.args[0] == field]
    keys = set()
    pl = path_lines(t, 60)
    for e in sets:
        row = e.term[1]
        key = rows[row] if row in rows else row[2] if row[0] == "i" else row[2][0] if row[0] == "call" and last_name(row[1]) in ("setdefault", "get") else None
        if key is None or not contains(key, PS):
            ctx.ob("every-state-decides-a-field", tag, False, "sets %s" % repr(e), f.loc(), pl)
            continue
        keys.add(repr(idx_of(key)))
        v = e.args[1]
        w = want(key)
        got = v[1] if v[0] == "c" else None
        if got is None:
            for x in t.events:
                if x.kind == "cond" and x.term == v:
                    got = x.extra
        if got is None:
            # the membership itself is stored
            ok = v[:2] == ("op", "in") and v[2] == key if w is None or w == ("in",) else v == w
            ok = ok or (isinstance(w, tuple) and v == w)
            if isinstance(w, bool) and v[:2] == ("op", "in"):
                lst = t.state.snap(v[3])
                inside = lst[0] in ("list", "T") and any(y == key for y in lst[1])
                ok = inside == w
            ctx.ob("state-decides-as-asked", tag, ok, "%s -> %s" % (show(key), show(v)), f.loc(), pl)
        else:
            ctx.ob("state-decides-as-asked", tag, w is None or got == w, "%s -> %s" % (show(key), got), f.loc(), pl)
    ctx.ob("every-state-decides-a-field", tag, len(keys) == 2, "fills %d of 2 states" % len(keys), f.loc(), pl)


def decided(t, key, given):
    for e in t.events:
        if e.kind == "cond" and e.term[:2] == ("op", "in") and e.term[2] == key and e.term[3] == given:
            return e.extra
    return ("op", "in", key, given)


def not_disabled(t, key):
    """whether this path knows that the state is one of the two disabled ones"""
    v = {}
    for e in t.events:
        if e.kind == "cond" and e.term[:2] == ("op", "==") and key in e.term[2:]:
            o = ([x for x in e.term[2:] if x != key] or [key])[0]
            if o[0] == "c":
                v[o[1]] = e.extra
    if any(v.get(s) for s in ("Disabling", "Disabled")):
        return False
    if all(v.get(s) is False for s in ("Disabling", "Disabled")):
        return True
    return False
