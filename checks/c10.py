"""Outcome of stateful operations: on every path of every entry point of the stateful, manager and runnable controllers the
block ends in the operation's end state on success, in Fault with the original error re-raised on failure, and never in
Fault because of an abort; and every override of a stage still runs that stage's hook on all parts."""
import ast
from sa.interp import contains, last_name, show, NONE
from sa.project import Class
from sa.q import EQ, Interp, path_lines, distinct_classes
from checks.util import calls, explicit_raise, idx_of, two
from checks.scan import drive, trans, sval, aborted, hooks, hname, self_of, failed_at, OPAQUE

ENTRY = {
    "StatefulController": {"init": ("Resetting", {"Ready"}, "do_init"), "reset": ("Resetting", {"Ready"}, "do_reset"), "disable": ("Disabling", {"Disabled"}, "do_disable")},
    "ManagerController": {"save": ("Saving", {"Ready"}, "do_save"), "set_design": ("Loading", {"Ready"}, "do_load")},
    "RunnableController": {"configure": ("Configuring", {"Armed"}, "do_configure"), "abort": ("Aborting", {"Aborted"}, "do_abort"),
                           "pause": ("Seeking", {"Armed", "Paused"}, "do_pause"), "run": ("Running", {"Armed", "Finished"}, "do_run")},
}
STAGE = {"do_init": "InitHook", "do_disable": "DisableHook", "do_reset": "ResetHook"}


def run(ctx):
    p = ctx.p
    base = p.cls("StatefulController")
    fam = [base] + sorted(p.subclasses(base, strict=True), key=lambda k: k.qual)
    n = 0
    for cname, entries in ENTRY.items():
        top = p.cls(cname)
        for meth, (start, ends, body) in sorted(entries.items()):
            done = set()
            for c in [top] + p.subclasses(top, strict=True):
                # one run per distinct implementation of the entry point and of what it relies on
                sig = tuple(getattr(p.lookup(c, m), "qual", None) for m in (meth, "try_stateful_function", "try_aborting_function", "go_to_error_state", "abortable_transition"))
                if sig in done:
                    continue
                done.add(sig)
                n += 1
                entry(ctx, c, meth, start, ends, body)
    ctx.floor("failure-ends-in-fault-and-is-raised", 5)
    errors(ctx, fam)
    stages(ctx, fam)
    halt(ctx)


def entry(ctx, c, meth, start, ends, body):
    p = ctx.p
    never = {body}
    noraise = None
    f, S, tr, it = drive(ctx, c, meth, never=never, names={body}, call=lambda it, fn, a, k, st: last_name(fn) in ("transition", body, "put", "get", "go_to_error_state"), max_iter=2,
                         noraise=(lambda it, fn, st: last_name(fn) in ("put", "get", "sleep", "stop", "ignore_stops_before_now")) if meth in ("run", "pause", "abort") else None)
    tag = "%s.%s" % (c.name, meth)
    ok_n = fault_n = 0
    ready_q = always_set(ctx, c, "abort_queue")
    for t in tr:
        pl = path_lines(t)
        ts = trans(t)
        bd = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == body]
        real = [x for x in ts if sval(x[1]) != "Fault"]
        if t.outcome == "return":
            if not ts and not bd:
                continue        # nothing to do
            ok_n += 1
            good = bool(real) and sval(real[0][1]) == start
            ctx.ob("starts-in-its-own-state", tag, good and (not bd or real[0][0] < bd[0]), "goes %s" % [sval(x[1]) for x in ts], f.loc(), pl)
            ok = bool(ts) and sval(ts[-1][1]) in ends and not ts[-1][2] and (not bd or ts[-1][0] > bd[-1])
            ctx.ob("success-ends-in-the-end-state", tag, ok, "goes %s" % [sval(x[1]) for x in ts], f.loc(), pl)
            ctx.ob("success-means-it-was-done", tag, bool(bd) and not failed_at(t, bd[-1]), "reports success without doing it", f.loc(), pl)
            ctx.ob("success-is-not-a-fault", tag, all(sval(x[1]) != "Fault" for x in ts), "ends in Fault although it succeeded", f.loc(), pl)
            continue
        # raised
        if ready_q and any(e.kind == "cond" and e.term == ("a", S, "abort_queue") and not e.extra for e in t.events):
            continue            # there is always such a queue
        if not ts:
            continue            # refused before it began
        known_fault = [e.extra for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "==") and ("c", "Fault") in e.term[2:] and contains(e.term, ("a", ("a", S, "state"), "value"))]
        swallowed = any(x[2] and sval(x[1]) == "Fault" for x in ts)
        if aborted(t.value) or any(e.kind == "cond" and e.extra and "AbortedError" in show(e.term) and "isinstance" in show(e.term) for e in t.events):
            ctx.ob("abort-is-not-a-fault", tag, all(sval(x[1]) != "Fault" for x in ts), "an abort ends in Fault", f.loc(), pl)
        elif not swallowed:
            fault_n += 1
            ok = sval(ts[-1][1]) == "Fault" or (known_fault and known_fault[-1])
            ctx.ob("failure-ends-in-fault-and-is-raised", tag, bool(ok), "fails leaving %s" % sval(ts[-1][1]), f.loc(), pl)
    ctx.ob("success-ends-in-the-end-state", tag, ok_n > 0, "never succeeds", f.loc())
    ctx.ob("failure-ends-in-fault-and-is-raised", tag, fault_n > 0, "failures are swallowed", f.loc())


def always_set(ctx, c, name):
    """is the attribute given a value when the object is made, and never taken away"""
    p = ctx.p
    made = None
    for k in p.mro(c):
        if not isinstance(k, Class):
            continue
        for m, f in k.methods.items():
            for n in ast.walk(f.node):
                tg, v = None, None
                if isinstance(n, ast.Assign):
                    tg, v = n.targets, n.value
                elif isinstance(n, ast.AnnAssign):
                    tg, v = [n.target], n.value
                for x in tg or []:
                    if isinstance(x, ast.Attribute) and x.attr == name:
                        none = v is None or isinstance(v, ast.Constant) and v.value is None
                        if none:
                            return False
                        if m == "__init__":
                            made = True
    return bool(made)


def errors(ctx, fam):
    p = ctx.p
    done = set()
    for c in fam:
        g = p.lookup(c, "go_to_error_state")
        if g.qual in done:
            continue
        done.add(g.qual)
        f, S, tr, it = drive(ctx, c, "go_to_error_state", call=lambda it, fn, a, k, st: last_name(fn) in ("transition", "put"))
        exc = ("p", f.params[1])
        for t in tr:
            if t.outcome != "return":
                continue
            ts = trans(t)
            pl = path_lines(t)
            kf = [e.extra for e in t.events if e.kind == "cond" and e.term[:2] == ("op", "==") and ("c", "Fault") in e.term[2:]]
            if kf and kf[-1]:
                ctx.ob("fault-state-is-kept", c.name, not ts, "leaves Fault", f.loc(), pl)
            else:
                ok = len(ts) == 1 and sval(ts[0][1]) == "Fault"
                e = [e for e in t.events if e.kind == "call" and e.name() == "transition"]
                ok = ok and contains(e[0].arg(1, "message"), exc)
                ctx.ob("fault-tells-the-error", c.name, ok, "goes %s" % [repr(x) for x in e], f.loc(), pl)


def stages(ctx, fam):
    """every implementation of a stage runs the stage's hook once on all parts with their contexts"""
    p = ctx.p
    n = 0
    for stage, hook in sorted(STAGE.items()):
        done = set()
        for c in fam:
            g = p.lookup(c, stage)
            if g is None or g.qual in done:
                continue
            done.add(g.qual)
            n += 1
            others = {m for k in p.mro(c) if isinstance(k, Class) for m in k.methods} - {stage}
            helpers = set()
            for k in p.mro(c):
                if isinstance(k, Class):
                    for m, h in k.methods.items():
                        if any(isinstance(x, ast.Attribute) and x.attr == "run_hooks" for x in ast.walk(h.node)) and not m.startswith("do_"):
                            helpers.add(m)
            f, S, tr, it = drive(ctx, c, stage, never=others - helpers, counts=two, max_iter=1, cond=lambda it, t, st: False, call=lambda it, fn, a, k, st: last_name(fn) == "run_hooks",
                                 store=lambda *a: False)
            tag = "%s.%s" % (c.name, stage)
            for t in tr:
                if t.outcome != "return":
                    continue
                hs = [(i, h) for i, h in hooks(t) if any(hname(x) == hook for x in h)]
                ok = len(hs) == 1 and len(hs[0][1]) == 2
                if ok:
                    for h in hs[0][1]:
                        d = dict(h[2])
                        part, cx = d.get("part") or d.get("child"), d.get("context")
                        ok = ok and part is not None and cx is not None and contains(part, ("a", S, "create_part_contexts")) | ("create_part_contexts" in show(part)) and "create_part_contexts" in show(cx) \
                            and idx_of(part) == idx_of(cx)
                    ok = ok and len({repr(idx_of(dict(h[2]).get("part") or dict(h[2]).get("child"))) for h in hs[0][1]}) == 2
                ctx.ob("stage-runs-its-hook-on-every-part", tag, ok, "runs %s" % [hname(x) for _, h in hooks(t) for x in h], f.loc(), path_lines(t))
    ctx.floor("stage-runs-its-hook-on-every-part", 5)


def halt(ctx):
    p = ctx.p
    c = p.cls("StatefulController")
    f, S, tr, it = drive(ctx, c, "halt", never={"disable"}, counts=two, call=lambda it, fn, a, k, st: last_name(fn) in ("run_hooks", "disable"))
    for t in tr:
        if t.outcome == "return":
            hs = hooks(t)
            dis = [i for i, e in enumerate(t.events) if e.kind == "call" and e.name() == "disable"]
            ok = len(hs) == 1 and len(hs[0][1]) == 2 and all(hname(h) == "HaltHook" for h in hs[0][1]) and len(dis) == 1 and dis[0] > hs[0][0]
            ctx.ob("halt-hook-then-disable", "StatefulController.halt", ok, "%s" % path_lines(t), f.loc(), path_lines(t))
    # process start and stop run init and halt
    f = p.method(c, "__init__")
    q = EQ(names={"register_hooked"}, call=lambda it, fn, a, k, st: last_name(fn) == "register_hooked", never={"register_hooked", "transition", "set_writeable_in", "set_logger", "create_attribute_model"}, never_mod=("malcolm.core.models", "malcolm.core.notifier"), noraise=lambda *a: True)
    it = Interp(p, q)
    for t in it.run(f, c):
        if t.outcome == "return":
            reg = {}
            for e in calls(t, "register_hooked"):
                hk = e.args[0]
                for x in (hk[1] if hk[0] == "T" else [hk]):
                    if x[0] == "cls":
                        reg[x[1].split(".")[-1]] = last_name(e.args[1])
            ok = reg.get("ProcessStartHook") == "init" and reg.get("ProcessStopHook") == "halt"
            ctx.ob("process-start-and-stop-reach-the-block", "StatefulController", ok, "registers %s" % reg, f.loc(), path_lines(t))
