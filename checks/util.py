"""small helpers shared by the checks"""
from sa.interp import contains, last_name, walk_term, NONE  # noqa: F401


def is_exc(v, name):
    return v is not None and v[0] == "exc" and isinstance(v[1], str) and v[1].split(".")[-1] == name


def explicit_raise(t):
    """the path ends in a raise statement (as opposed to a failing call)"""
    return t.outcome == "raise" and t.value[2] is not None


def calls(t, *names):
    return [e for e in t.events if e.kind == "call" and e.name() in names]


def stores(t):
    return [e for e in t.events if e.kind == "store"]


def events(t, kind):
    return [e for e in t.events if e.kind == kind]


def idx_of(x):
    """index of the collection element a term refers to (key, value or pair of it)"""
    while isinstance(x, tuple) and x and x[0] in ("elem", "val", "key", "i", "a", "idx"):
        if x[0] in ("elem", "val", "key", "idx"):
            return x[2] if len(x) > 2 else 0
        x = x[1]
    return x


def elem_of(x, base):
    """does the term refer to (something below) an element of the collection"""
    return contains(x, base) and any(isinstance(y, tuple) and y and y[0] in ("elem", "val", "key", "i") for y in walk_term(x))


def two(it, base, st):
    """every collection of unknown size has two elements (a part of it: one)"""
    if base[0] == "i" and base[2][:2] == ("op", "slice") and base[2][2:] != (NONE, NONE, NONE):
        return [1]
    return [2]
