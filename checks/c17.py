"""Metadata: on every path through each validate, what is returned is of the declared kind for whatever was given (proved from the
tests passed on the way and the casts applied), and everything that was given is looked at; lookup tables of choices, types and
columns are rebuilt from exactly what was declared; metadata made from a Python type describes that type."""
import ast
from sa.interp import contains, last_name, show, NONE
from sa.q import EQ, Interp, path_lines
from checks.util import two
from checks.c13 import calls, walk_term
from checks.c15 import eqs, is_call

T = lambda *a: True
NAMES = {"choices_lookup", "_np_type", "elements", "table_cls", "validate", "enum_cls", "call_types", "call_type", "from_annotype", "required", "_annotype_lookup"}


def drive(ctx, c, meth, never=(), args=None, counts=two, names=(), **kw):
    f = ctx.p.method(c, meth)
    S = ("o", "self", c.qual)
    q = EQ(names=NAMES | set(names), call=T, cond=T, store=T, with_=T, counts=counts, max_iter=2, noraise=T, never=set(never), **kw)
    it = Interp(ctx.p, q)
    tr = it.run(f, c, args)
    ctx.used(it, tr)
    return f, S, tr


def deep(t, x, n=0):
    """the term with the contents of lists and mappings in place of them"""
    if not isinstance(x, tuple) or n > 12:
        return x
    if x and x[0] in ("L", "D"):
        y = t.state.snap(x)
        return x if y == x else deep(t, y, n + 1)
    return tuple(deep(t, y, n + 1) for y in x)


def is_bool(x, v):
    return (is_call(x, "bool") and x[2] == (v,)) or x == ("op", "bool", v)


def facts(t):
    """{condition: outcome} with conjunctions taken apart"""
    out = {}

    def add(x, v):
        x = deep(t, x)
        if x[0] == "op" and x[1] == "not":
            return add(x[2], not v)
        if x[0] == "op" and x[1] in ("&", "and") and v or x[0] == "op" and x[1] in ("|", "or") and not v:
            for y in x[2:]:
                add(y, v)
        if x[0] == "op" and x[1] == "isinstance" and x[3][0] == "T" and not v:
            for y in x[3][1]:
                add(("op", "isinstance", x[2], y), False)
        out.setdefault(x, v)
    for e in t.events:
        if e.kind == "cond":
            add(e.term, bool(e.extra))
    return out


def possible(t, fs):
    """paths on which a list, tuple or dict is said to be something else, or one type another, are not taken"""
    same = {}
    for x, v in fs.items():
        if not v or x[0] != "op":
            continue
        if x[1] == "==" and (x[2][0] == "elem" or x[3][0] == "elem"):
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if b[0] == "elem" and same.setdefault((a, b[1]), b) != b:
                    return False
        if x[1] == "is" and x[2][0] == "a" and x[2][2] == "__class__" and x[2][1][0] in ("list", "dict", "T", "c", "L", "D"):
            return False
        if x[1] == "==" and x[2][0] == "ext" and x[3][0] == "ext" and x[2] != x[3]:
            return False
        if x[1] == "==" and NONE in x[2:] and any(y[0] in ("ext", "cls") or y[0] == "a" and y[2] == "_np_type" for y in x[2:]):
            return False
        if x == ("c", False) or x[1] in ("&", "and") and ("c", False) in x[2:]:
            return False
    return True


def isin(fs, v, name):
    """is v known (not) to be an instance of the class"""
    for x, k in fs.items():
        if x[0] == "op" and x[1] == "isinstance" and x[2] == v and x[3][0] != "T" and str(x[3][1]).rsplit(".", 1)[-1] == name:
            return k
    return None


def is_none(fs, v):
    return fs.get(("op", "is", v, NONE))


def kws(x):
    """keyword arguments something was made with"""
    return dict(x[3]) if x[0] == "call" else dict(x[2]) if x[0] == "new" else {}


def ext(x, name):
    return x[0] in ("ext", "cls", "g") and str(x[1]).rsplit(".", 1)[-1] == name


def run(ctx):
    scalars(ctx)
    choices(ctx)
    arrays(ctx)
    table(ctx)
    mapping(ctx)
    endpoint(ctx)
    derived(ctx)
    method(ctx)
    for r, n in (("value-fits-its-metadata", 25), ("choices-are-those-declared", 3), ("parameters-fit-their-metadata", 4), ("columns-fit-their-metadata", 4), ("metadata-describes-the-type", 15)):
        ctx.floor(r, n)


def returns(tr):
    for t in tr:
        if t.outcome == "return":
            fs = facts(t)
            if possible(t, fs):
                yield t, t.state.snap(t.value), fs, path_lines(t)


def scalars(ctx):
    R = "value-fits-its-metadata"
    c = ctx.p.cls("BooleanMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    for t, r, fs, pl in returns(tr):
        word = [k for x, k in fs.items() if x[0] == "op" and x[1] == "in" and x[2] == v]
        truth = [k for x, k in fs.items() if x == v or is_bool(x, v)]
        if r[0] == "op" and r[1] in ("and", "or", "not") or r[0] == "op" and r[1] in ("in", "is", "=="):
            ok = True if not (r[1] == "or") else False
            ok = ok and any(x[0] == "op" and x[1] == "in" for x in walk_term(r)) and (any(is_bool(x, v) for x in walk_term(r)))
        elif r == ("c", False):
            ok = any(word) or truth == [False]
        elif r == ("c", True):
            ok = word == [False] and truth == [True]
        else:
            ok = is_bool(r, v) and word == [False]
        ctx.ob(R, "BooleanMeta.validate", ok, "for %s returns %s" % (["%s: %s" % (show(x), k) for x, k in fs.items()], show(r)), f.loc(), pl)
    m = f.module
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Set, ast.List, ast.Tuple)) and any(getattr(x, "id", "") == "FALSE_STRINGS" for x in n.targets):
            got = {e.value for e in n.value.elts if isinstance(e, ast.Constant)}
            ctx.ob(R, "FALSE_STRINGS", got == {"0", "False", "false", "FALSE", "No", "no", "NO"}, "strings taken for False: %s" % sorted(map(str, got)), "%s:%d" % (m.rel, n.lineno), [])
    c = ctx.p.cls("NumberMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    np_type = ("a", S, "_np_type")
    for t, r, fs, pl in returns(tr):
        none = is_none(fs, v)
        ok = r[0] == "call" and r[1] == np_type and len(r[2]) == 1 and (r[2][0] == ("c", 0) and none is True or r[2][0] == v and none is False or none is None and any(x == v for x in walk_term(r[2][0])) and r[2][0][0] == "op")
        one = none is True or any(any(y == v or y == r for y in walk_term(x)) and not (x[0] == "op" and x[1] == "is") for x in fs)
        ctx.ob(R, "NumberMeta.validate", ok and one, "returns %s, %s" % (show(r), "known to be a single number" if one else "which may be an array"), f.loc(), pl)
    f, S, tr = drive(ctx, c, "set_dtype", never={"set_endpoint_data"})
    d = ("p", f.params[1])
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        st = [t.state.snap(e.args[0]) for e in t.events if e.kind == "store" and e.term == np_type]
        told = [e for i, e in calls(t, "set_endpoint_data")]
        known = any(k and x[0] == "op" and x[1] == "in" and x[2] == d for x, k in fs.items())
        good = len(st) == 1 and (st[0][0] in ("call", "a", "op", "i")) and contains(st[0], d)
        ctx.ob(R, "NumberMeta.set_dtype", known and good and len(told) == 1 and told[0].args[:2] == (("c", "dtype"), d), "stores %s, announces %s, known type: %s" % ([show(x) for x in st], [repr(e) for e in told], known), f.loc(), pl)
    ctx.ob(R, "NumberMeta.set_dtype", n > 0, "never succeeds", f.loc())
    c = ctx.p.cls("StringMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    for t, r, fs, pl in returns(tr):
        if r == v:
            ok = isin(fs, v, "str") is True
        elif r == ("c", ""):
            ok = is_none(fs, v) is True
        else:
            ok = (is_call(r, "str") and r[2] == (v,) or r[:2] == ("op", "fstr") and v in r[2:]) and (is_none(fs, v) is False or isin(fs, v, "str") is True)
        ctx.ob(R, "StringMeta.validate", ok, "returns %s" % show(r), f.loc(), pl)


def choices(ctx):
    R = "value-fits-its-metadata"
    c = ctx.p.cls("ChoiceMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    lut = ("a", S, "choices_lookup")
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        ctx.ob(R, "ChoiceMeta.validate", r == ("i", lut, v), "returns %s" % show(r), f.loc(), pl)
    ctx.ob(R, "ChoiceMeta.validate", n > 0 and any(t.outcome == "raise" for t in tr), "nothing is %s" % ("refused" if n else "accepted"), f.loc())
    R = "choices-are-those-declared"
    f, S, tr = drive(ctx, c, "set_choices", never={"set_endpoint_data", "matches_type"})
    ch = ("p", f.params[1])
    n = 0
    for t, r, fs, pl in returns(tr):
        st = [t.state.snap(e.args[0]) for e in t.events if e.kind == "store" and e.term == lut]
        if len(st) != 1 or st[0][0] != "dict":
            ctx.ob(R, "ChoiceMeta.set_choices", False, "lookup of choices becomes %s" % [show(x) for x in st], f.loc(), pl)
            continue
        n += 1
        d = dict(st[0][1])
        els = [("elem", ch, i) for i in range(2)]
        foreign = [x for x in d.values() if x not in els and not (x == ("i", ch, ("c", 0))) and not (x == ("c", "") and d.get(NONE) == x)]
        want = {}
        for i, e in enumerate(els):
            want[e] = e
            want[("c", i)] = e
            if isin(fs, e, "Enum"):
                want[("a", e, "value")] = e
        missing = [k for k, x in want.items() if d.get(k) != x]
        first = d.get(NONE)
        ok = not foreign and not missing and (first in (els[0], ("i", ch, ("c", 0))) or first == ("c", "") and fs.get(ch) is False)
        ctx.ob(R, "ChoiceMeta.set_choices", ok, "looks up %s" % {show(k): show(x) for k, x in d.items()}, f.loc(), pl)
        told = [t.state.snap(("T", tuple(e.args))) for i, e in calls(t, "set_endpoint_data")]
        ok = len(told) == 1 and told[0][1][0] == ("c", "choices") and [x for x in walk_term(told[0]) if x in els] == els
        ctx.ob(R, "ChoiceMeta.set_choices", ok, "announces %s" % [show(x) for x in told], f.loc(), pl)
        en = [t.state.snap(e.args[0]) for e in t.events if e.kind == "store" and e.term == ("a", S, "enum_cls")]
        strs = all(isin(fs, e, "str") is True for e in els)
        enums = all(isin(fs, e, "Enum") is True for e in els)
        ok = bool(en) and not (strs and not enums and not ext(en[-1], "str"))
        ctx.ob(R, "ChoiceMeta.set_choices", ok, "choices all strings %s, class of a choice %s" % (strs, [show(x) for x in en]), f.loc(), pl)
    ctx.ob(R, "ChoiceMeta.set_choices", n > 0, "lookup of choices not found", f.loc())


def arr_of(x, dt):
    """Array[dt]"""
    return x[0] in ("i", "op", "call") and any(ext(y, "Array") for y in walk_term(x)) and contains(x, dt)


def makes(r):
    """(element class term, content) of to_array(Array[x], y) or Array[x](y)"""
    if is_call(r, "to_array") and len(r[2]) == 2:
        return r[2][0], r[2][1]
    if r[0] == "call" and any(ext(y, "Array") for y in walk_term(r[1])):
        return r[1], (r[2][0] if r[2] else NONE)
    return None, None


def arrays(ctx):
    R = "value-fits-its-metadata"
    for name in ("NumberArrayMeta", "BooleanArrayMeta"):
        c = ctx.p.cls(name)
        f, S, tr = drive(ctx, c, "validate", names={"to_np_array"})
        v = ("p", f.params[1])
        base = ("a", S, "_np_type") if name[0] == "N" else ("ext", "builtins.bool")
        for t, r, fs, pl in returns(tr):
            dts = [base]
            for x, k in fs.items():
                if k and x[0] == "op" and x[1] == "==" and base in x[2:]:
                    dts.append(x[3] if x[2] == base else x[2])
                    if any(ext(y, "float64") for y in x[2:]):
                        dts.append(("ext", "builtins.float"))
                    if any(ext(y, "int64") for y in x[2:]):
                        dts.append(("ext", "builtins.int"))
            if r == v:
                ok = any(k and x[0] == "op" and x[1] == "is" and ("a", v, "__class__") in x[2:] and any(ext(y, "Array") for y in x[2:]) for x, k in fs.items()) or isin(fs, v, "Array") is True
                ok = ok and any(k and x[0] == "op" and x[1] == "==" and any(contains(y, ("a", v, "seq")) and contains_s(y, "dtype") for y in x[2:]) and any(d in x[2:] for d in dts) for x, k in fs.items())
            else:
                cl, y = makes(r)
                ok = cl is not None and any(arr_of(cl, d) for d in dts)
                if ok and is_call(y, "array", lambda a: contains(a, v)):
                    kw = dict(y[3]) if y[3] else {}
                    dt = kw.get("dtype") or (y[2][1] if len(y[2]) > 1 else None)
                    src = y[2][0]
                    ok = dt in dts and (src == v and isin(fs, v, "str") is not True and isin(fs, v, "Sequence") is not False or src[0] == "list" and src[1] == (v,) and (isin(fs, v, "str") is True or isin(fs, v, "Sequence") is False))
                elif ok:
                    ok = y == v and (is_none(fs, v) is True or isin(fs, v, "ndarray") is True) or y == NONE and is_none(fs, v) is True
            ctx.ob(R, name + ".validate", ok, "returns %s" % show(r), f.loc(), pl)
    c = ctx.p.cls("ChoiceArrayMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    lut, en = ("a", S, "choices_lookup"), ("a", S, "enum_cls")
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        one = isin(fs, v, "str") is True
        els = [v] if one else [("elem", v, i) for i in range(2)]
        look = [("i", lut, e) for e in els]
        if is_none(fs, v) is True:
            cl, y = makes(r)
            ok = cl is not None and contains(cl, en) and y in (NONE, ("list", ()))
        elif r == v:
            ok = fs.get(("op", "is", ("a", v, "typ"), en)) is True or fs.get(("op", "==", ("a", v, "typ"), en)) is True
            ok = ok and all(fs.get(("op", "==", e, l)) is True or fs.get(("op", "is", e, l)) is True for e, l in zip(els, look))
        else:
            cl, y = makes(r)
            ok = cl is not None and contains(cl, en) and y[0] in ("list", "T") and list(y[1]) == look
        ctx.ob(R, "ChoiceArrayMeta.validate", ok, "returns %s" % show(r), f.loc(), pl)
    ctx.ob(R, "ChoiceArrayMeta.validate", n > 0 and any(t.outcome == "raise" for t in tr), "nothing is refused", f.loc())
    c = ctx.p.cls("StringArrayMeta")
    f, S, tr = drive(ctx, c, "validate")
    v = ("p", f.params[1])
    for t, r, fs, pl in returns(tr):
        cl, y = makes(r)
        ok = cl is not None and arr_of(cl, ("ext", "builtins.str")) and y == v
        seen = [x[2] for x, k in fs.items() if k and x[0] == "op" and x[1] == "isinstance" and ext(x[3], "str")]
        seen = [x for x in seen if x[0] == "elem" and (x[1] == r or x[1][0] == "a" and x[1][1] == r)]
        ctx.ob(R, "StringArrayMeta.validate", ok and len(seen) == 2, "returns %s having looked at %d of 2 elements" % (show(r), len(seen)), f.loc(), pl)


def contains_s(x, s):
    return s in str(x)


def differs(fs, a, b):
    """was it established that everything in a is also in b"""
    has = lambda x, g: any(g(y) for y in walk_term(x))
    for x, k in fs.items():
        if x[0] != "op":
            continue
        if x[1] == "-" and not k and has(x[2], a) and has(x[3], b) and not has(x[2], b):
            return True
        if x[1] == "-" and not k and has(x[2], a) and has(x[3], b) and not has(x[3], a):
            return True
        if x[1] in ("==", "<=", "issubset") and k and any(has(x[i], a) and has(x[5 - i], b) for i in (2, 3)):
            return True
        if x[1] in ("^",) and not k and any(has(x[i], a) and has(x[5 - i], b) for i in (2, 3)):
            return True
        if x[1] in (">",) and k is False:
            return True
        if is_call(x, "issubset") and k and has(x, a) and has(x, b):
            return True
        if is_call(x, "difference") and not k and has(x, a) and has(x, b):
            return True
    for x, k in fs.items():
        if x[0] == "op" and x[1] == "in" and k and a(x[2]) and has(x[3], b):
            return True
        if is_call(x, "issubset") and k and has(x, a) and has(x, b) or is_call(x, "difference") and not k and has(x, a) and has(x, b):
            return True
    return False


def table(ctx):
    R = "columns-fit-their-metadata"
    c = ctx.p.cls("TableMeta")
    f, S, tr = drive(ctx, c, "validate", never={"__getitem__"})
    v = ("p", f.params[1])
    els = ("a", S, "elements")
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        ok = r[0] == "call" and r[1] == ("a", S, "table_cls")
        kw = {}
        for k, x in (r[3] if ok else ()):
            x = t.state.snap(x)
            if k == "**" and x[0] == "dict":
                kw.update(dict(x[1]))
            elif k == "**" or k is None:
                kw.update(dict(x[1]) if x[0] == "dict" else {})
            else:
                kw[("c", k)] = x
        ok = ok and set(kw) == {("elem", els, 0), ("elem", els, 1)} and not r[2]
        none, tab, dic = is_none(fs, v), isin(fs, v, "Table"), isin(fs, v, "dict")
        for k, x in kw.items():
            good = is_call(x, "validate") and len(x[2]) == 1 and x[1][1] in (("val",) + k[1:], ("i", els, k))
            if good and none is True:
                good = x[2][0] == NONE
            elif good:
                key = x[2][0][2] if x[2][0][0] == "i" and x[2][0][1] == v else None
                good = key == k or key is not None and key[0] == "elem" and any(fs.get(q) is True for q in (("op", "==", k, key), ("op", "==", key, k)))
            ok = ok and good
        kind = none is True or tab is True or dic is True
        ctx.ob(R, "TableMeta.validate", ok and kind, "returns %s for a value %s" % (show(r), "known to be a table" if kind else "of unknown kind"), f.loc(), pl)
        if none is not True:
            dif = differs(fs, lambda x: x == v, lambda x: x == els)
            ctx.ob(R, "TableMeta.validate", dif, "columns that were not declared are not refused", f.loc(), pl)
        lens = [e for i, e in calls(t, "validate_column_lengths") if t.state.snap(e.term[1]) == r]
        ctx.ob(R, "TableMeta.validate", bool(lens), "lengths of columns not compared", f.loc(), pl)
    ctx.ob(R, "TableMeta.validate", n > 0, "nothing is accepted", f.loc())
    c = ctx.p.cls("Table")
    f, S, tr = drive(ctx, c, "validate_column_lengths")
    n = 0
    for t in tr:
        fs = facts(t)
        if t.outcome == "return":
            n += 1
            w = [x for x, k in fs.items() if any(y[:2] == ("op", "len") or is_call(y, "len") for y in walk_term(x))]
            cols = {y for x in w for y in walk_term(deep(t, x)) if y[0] == "elem" and contains(y, ("a", S, "call_types"))}
            ctx.ob(R, "Table.validate_column_lengths", len(cols) == 2, "passes having compared %d of 2 columns" % len(cols), f.loc(), path_lines(t))
    ctx.ob(R, "Table.validate_column_lengths", n > 0 and any(t.outcome == "raise" for t in tr), "no difference is refused", f.loc())
    c = ctx.p.cls("TableMeta")
    f, S, tr = drive(ctx, c, "set_elements", never={"set_endpoint_data", "deserialize_object", "set_table_cls"})
    e_ = ("p", f.params[1])
    for t, r, fs, pl in returns(tr):
        told = [t.state.snap(e.args[1]) for i, e in calls(t, "set_endpoint_data") if e.args[:1] == (("c", "elements"),)]
        ok = len(told) == 1 and told[0][0] == "dict"
        d = dict(told[0][1]) if ok else {}
        for i in range(2):
            k = ("elem", e_, i)
            skip = any(x[0] == "op" and x[1] == "==" and k in x[2:] and ("c", "typeid") in x[2:] and y for x, y in fs.items())
            x = d.get(k)
            ok = ok and (x is None if skip else x is not None and is_call(x, "deserialize_object", lambda y: y in (("val", e_, i), ("i", e_, k))))
        again = calls(t, "set_table_cls")
        ctx.ob(R, "TableMeta.set_elements", ok and bool(again), "elements %s, table class %s" % ([show(x) for x in told], "checked" if again else "not checked"), f.loc(), pl)


def mapping(ctx):
    R = "parameters-fit-their-metadata"
    c = ctx.p.cls("MapMeta")
    f, S, tr = drive(ctx, c, "validate")
    pd, add = ("p", f.params[1]), ("p", f.params[2])
    els, req = ("a", S, "elements"), ("a", S, "required")
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        none = is_none(fs, pd)
        ok = r[0] == "dict"
        d = dict(r[1]) if ok else {}
        for i in range(2):
            k = ("elem", els, i)
            inside = [y for x, y in fs.items() if x[0] == "op" and x[1] == "in" and x[2] == k and (contains(x[3], pd) or x[3] == ("dict", ()))]
            inside = inside[0] if inside else None
            x = d.pop(k, None)
            val = lambda a: x is not None and is_call(x, "validate") and x[1][1] in (("val", els, i), ("i", els, k)) and x[2] == (a,)
            if inside is True:
                good = val(("i", pd, k))
            elif inside is False and fs.get(add) is True:
                good = val(NONE)
            elif inside is False:
                good = x is None and fs.get(add) is False
            else:
                good = False
            ok = ok and good
        ctx.ob(R, "MapMeta.validate", ok and not d, "returns %s" % show(r), f.loc(), pl)
        if none is not True:
            ctx.ob(R, "MapMeta.validate", differs(fs, lambda x: x == pd, lambda x: x == els), "parameters that were not declared are not refused", f.loc(), pl)
        got = differs(fs, lambda x: x == req, lambda x: x[0] == "elem" and x[1] == els or x in (pd, ("list", ()), ("T", ()), ("dict", ())))
        ctx.ob(R, "MapMeta.validate", got, "required parameters that are missing are not refused", f.loc(), pl)
    ctx.ob(R, "MapMeta.validate", n > 0, "nothing is accepted", f.loc())
    c = ctx.p.cls("MethodMeta")
    f, S, tr = drive(ctx, c, "set_defaults", never={"set_endpoint_data"}, names={"takes", "defaults"})
    dp = ("p", f.params[1])
    for t, r, fs, pl in returns(tr):
        told = [t.state.snap(e.args[1]) for i, e in calls(t, "set_endpoint_data") if e.args[:1] == (("c", "defaults"),)]
        vals = {x for y in told for x in walk_term(y) if is_call(x, "validate")}
        ok = len(told) == 1
        for i in range(2):
            k = ("elem", dp, i)
            skip = any(x[0] == "op" and x[1] == "==" and k in x[2:] and ("c", "typeid") in x[2:] and y for x, y in fs.items())
            mine = [x for x in vals if x[2] and x[2][0] in (("val", dp, i), ("i", dp, k))]
            ok = ok and (not mine if skip else len(mine) == 1 and mine[0][1][1] == ("i", ("a", ("a", S, "takes"), "elements"), k))
            bare = [x for y in told for x in walk_term(y) if x == ("val", dp, i)]
            ok = ok and len(bare) <= len(mine)
        ctx.ob(R, "MethodMeta.set_defaults", ok, "defaults %s" % [show(x) for x in told], f.loc(), pl)


def endpoint(ctx):
    """what is set below a model is of the type declared for it"""
    R = "field-has-its-declared-type"
    c = ctx.p.cls("Model")
    f, S, tr = drive(ctx, c, "set_endpoint_data", never={"set_notifier_path", "matches_type", "add_squashed_change", "changes_squashed"}, names={"check_type", "setattr"}, counts=lambda *a: [1])
    nm, v = ("p", f.params[1]), ("p", f.params[2])
    ct = ("i", ("a", S, "call_types"), nm)
    n = 0
    for t in tr:
        fs = facts(t)
        st = [(i, e) for i, e in enumerate(t.events) if e.kind == "store" and e.term == ("a", S, nm) or e.kind == "call" and last_name(e.term) == "setattr" or e.kind == "call" and e.name() == "add_squashed_change"]
        if not st or t.outcome != "return":
            continue
        n += 1
        fl = lambda a: next((k for x, k in fs.items() if x == ("a", ct, a)), None)
        typed = {x[2] for x, k in fs.items() if k and x[0] == "op" and x[1] == "isinstance"}
        anyt = any(k and x[0] == "op" and x[1] == "==" and any(ext(y, "Any") for y in x[2:]) for x, k in fs.items())
        if fl("is_array"):
            stored = [t.state.snap(e.args[-1]) for i, e in st]
            ok = all(x[0] == "call" and x[1] == ct and v in x[2] for x in stored)
            lst = [k for x, k in fs.items() if x[0] == "op" and x[1] == "isinstance" and contains_s(x[2], "'seq'") and x[2][0] == "a" and ext(x[3], "list")]
            els = [x for x in typed if x[0] == "elem" and any(contains(x, y) for y in stored)]
            ok = ok and (bool(lst) and not any(lst) or len(els) == 1)
        elif fl("is_mapping"):
            got = [("elem", v, i) in typed and ("val", v, i) in typed for i in range(1)]
            ok = all(got) or anyt
        else:
            ok = v in typed or anyt
        ctx.ob(R, "Model.set_endpoint_data", ok, "set with types known of %s" % [show(x) for x in typed], f.loc(), path_lines(t))
    ctx.ob(R, "Model.set_endpoint_data", n > 0, "never set", f.loc())
    # what skips set_value has been validated before
    c = ctx.p.cls("AttributeModel")
    f, S, tr = drive(ctx, c, "set_meta", never={"set_endpoint_data", "deserialize_object"}, names={"attribute_class"})
    for t, r, fs, pl in returns(tr):
        told = [e for i, e in calls(t, "set_endpoint_data") if e.args[:1] == (("c", "meta"),)]
        ok = len(told) == 1 and any(k and x[0] == "op" and x[1] == "isinstance" and x[2] == S and contains_s(x[3], "attribute_class") for x, k in fs.items())
        ctx.ob(R, "AttributeModel.set_meta", ok, "metadata of another kind of attribute is not refused", f.loc(), pl)


# class -> (annotypes, array?)
CONV = {"BooleanMeta": ({"bool"}, False), "ChoiceMeta": ({"Enum"}, False), "StringMeta": ({"str"}, False), "TableMeta": ({"Table"}, False), "NumberMeta": (None, False),
        "BooleanArrayMeta": ({"bool"}, True), "ChoiceArrayMeta": ({"Enum"}, True), "StringArrayMeta": ({"str"}, True), "NumberArrayMeta": (None, True)}
ATTR = {"BooleanMeta": "NTScalar", "ChoiceMeta": "NTScalar", "StringMeta": "NTScalar", "NumberMeta": "NTScalar", "TableMeta": "NTTable", "BooleanArrayMeta": "NTScalarArray", "ChoiceArrayMeta": None,
        "StringArrayMeta": "NTScalarArray", "NumberArrayMeta": None}


def derived(ctx):
    R = "metadata-describes-the-type"
    for cn, (types, arr) in CONV.items():
        c = ctx.p.cls(cn)
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "register_annotype_converter":
                a = d.args[0] if d.args else None
                got = {getattr(x, "id", getattr(x, "attr", "?")) for x in (a.elts if isinstance(a, (ast.List, ast.Tuple)) else [a])}
                kw = {k.arg: getattr(k.value, "value", None) for k in d.keywords}
                is_arr = bool(kw.get("is_array", d.args[1].value if len(d.args) > 1 and isinstance(d.args[1], ast.Constant) else False))
                ok = is_arr == arr and (types is None or got == types)
                ctx.ob(R, cn, ok, "registered for %s%s" % ("arrays of " if is_arr else "", sorted(got)), "%s:%d" % (c.module.rel, d.lineno), [])
        ctx.ob(R, cn, any(getattr(getattr(d, "func", None), "attr", "") == "register_annotype_converter" for d in c.node.decorator_list) , "not registered", "%s:%d" % (c.module.rel, c.node.lineno), [])
    c = ctx.p.cls("VMeta")
    f, S, tr = drive(ctx, c, "lookup_annotype_converter", counts=lambda *a: [2])
    an = ("p", f.params[1])
    n = 0
    for t, r, fs, pl in returns(tr):
        n += 1
        key = r[2] if r[0] == "i" else NONE
        flag = lambda x, a: contains(x, ("a", an, a))
        ok = key[0] == "T" and len(key[1]) == 3 and contains(key[1][0], ("a", an, "typ")) and flag(key[1][1], "is_array") and flag(key[1][2], "is_mapping")
        ctx.ob(R, "VMeta.lookup_annotype_converter", ok, "looks up %s" % show(r), f.loc(), pl)
    f, S, tr = drive(ctx, c, "from_annotype", never={"default_widget", "set_tags"})
    an, wr = ("p", f.params[1]), ("p", f.params[2])
    for t, r, fs, pl in returns(tr):
        kw = kws(r)
        ctx.ob(R, "VMeta.from_annotype", kw.get("writeable") == wr and kw.get("description") == ("a", an, "description"), "makes %s" % show(r), f.loc(), pl)
    for cn, key, want in (("NumberMeta", "dtype", "typ"), ("ChoiceMeta", "choices", "typ")):
        f, S, tr = drive(ctx, ctx.p.cls(cn), "from_annotype", never={"default_widget", "set_tags"})
        an, wr = ("p", f.params[1]), ("p", f.params[2])
        n = 0
        for t in tr:
            for e in t.events:
                if e.kind == "call" and e.kwd(key) is not None:
                    n += 1
                    x = t.state.snap(e.kwd(key))
                    ctx.ob(R, cn + ".from_annotype", contains(x, ("a", an, want)), "%s is %s" % (key, show(x)), f.loc(), path_lines(t))
        ctx.ob(R, cn + ".from_annotype", n > 0, "%s not given" % key, f.loc())
    f, S, tr = drive(ctx, ctx.p.cls("TableMeta"), "from_table", never={"default_widget", "set_tags", "lookup_annotype_converter", "set_table_cls"}, names={"from_annotype"})
    tc, wr = ("p", f.params[1]), ("p", "writeable")
    col = ("a", tc, "call_types")
    for t, r, fs, pl in returns(tr):
        kw = kws(r)
        el = t.state.snap(kw.get("elements", NONE))
        ok = el[0] == "dict" and len(el[1]) == 2
        for k, x in (el[1] if ok else ()):
            a = dict(x[3]) if x[0] == "call" else {}
            w = a.get("writeable") or (x[2][1] if x[0] == "call" and len(x[2]) > 1 else NONE)
            v = ("val",) + k[1:]
            ok = ok and k[0] == "elem" and k[1] == col and is_call(x, "from_annotype") and x[2][0] in (v, ("i", col, k)) and (w == ("op", "in", k, wr) or w == ("c", fs.get(("op", "in", k, wr))))
            m = x[1][1]
            ok = ok and is_call(m, "lookup_annotype_converter") and m[2][0] == x[2][0]
        ctx.ob(R, "TableMeta.from_table", ok, "columns %s" % show(el), f.loc(), pl)
        ctx.ob(R, "TableMeta.from_table", any(e.args == (tc,) for i, e in calls(t, "set_table_cls")), "class of the table is not kept", f.loc(), pl)


def method(ctx):
    R = "metadata-describes-the-method"
    f, S, tr = drive(ctx, ctx.p.cls("MethodMeta"), "from_callable", never={"default_widget", "set_tags", "lookup_annotype_converter", "set_takes", "set_defaults", "set_returns", "matches_type"},
                     names={"from_annotype", "call_types", "return_type", "default"}, counts=lambda it, base, st: [1])
    fn = ("p", f.params[1])
    n = 0
    for t, r, fs, pl in returns(tr):
        tk = [t.state.snap(e.args[0]) for i, e in calls(t, "set_takes")]
        df = [t.state.snap(e.args[0]) for i, e in calls(t, "set_defaults")]
        if len(tk) != 1 or len(df) != 1 or tk[0][0] not in ("call", "new"):
            ctx.ob(R, "MethodMeta.from_callable", False, "takes %s, defaults %s" % ([show(x) for x in tk], [show(x) for x in df]), f.loc(), pl)
            continue
        mm = [e for i, e in calls(t, "MapMeta") if e.kwd("elements") is not None or e.args]
        if not mm:
            continue
        e = mm[0]
        el = t.state.snap(e.kwd("elements") or e.args[0])
        rq = t.state.snap(e.kwd("required") or (e.args[1] if len(e.args) > 1 else NONE))
        ks = {y for x in fs for y in walk_term(x) if y[0] == "elem" and contains(y, fn)} | {k for k, _ in (el[1] if el[0] == "dict" else ())}
        ks = {k for k in ks if not contains_s(k, "return_type")}
        for k in ks:
            n += 1
            v = ("val",) + k[1:]
            out = [y for x, y in fs.items() if x[0] == "op" and x[1] == "in" and x[2] == k]
            skip = any(out)
            ctx.ob(R, "MethodMeta.from_callable", bool(out), "not asked whether a parameter is to be left out", f.loc(), pl)
            made = dict(el[1]).get(k) if el[0] == "dict" else None
            if skip:
                ctx.ob(R, "MethodMeta.from_callable", made is None, "parameter left out is taken", f.loc(), pl)
                continue
            ok = made is not None and is_call(made, "from_annotype") and made[2][0] == v and (dict(made[3]).get("writeable") == ("c", True) or len(made[2]) > 1 and made[2][1] == ("c", True))
            ok = ok and is_call(made[1][1], "lookup_annotype_converter") and made[1][1][2][0] == v
            ctx.ob(R, "MethodMeta.from_callable", ok, "parameter described by %s" % (show(made) if made else None), f.loc(), pl)
            default = ("a", v, "default")
            nd = next((y for x, y in fs.items() if x[0] == "op" and x[1] in ("is", "==") and x[2] == default and any(ext(z, "NO_DEFAULT") for z in x[3:])), None)
            dn = is_none(fs, default)
            req = rq[0] in ("list", "T") and k in rq[1]
            dv = dict(df[0][1]).get(k) if df[0][0] == "dict" else None
            ok = req == (nd is True) and (dv == default) == (nd is False and dn is False) and (dv is None or dv == default) and nd is not None
            ctx.ob(R, "MethodMeta.from_callable", ok, "no default: %s, default None: %s; required: %s, default given: %s" % (nd, dn, req, show(dv) if dv else None), f.loc(), pl)
    ctx.ob(R, "MethodMeta.from_callable", n > 0, "no parameter seen", f.loc())
