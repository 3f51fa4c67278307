"""Normal forms for tables read from files (pandas).

A table has rows 0 .. n-1 and named columns; `row` k of it and `column` c of it
meet in one cell, whichever way the program walks there.
"""
from __future__ import annotations

from . import normal as N
from . import shapes
from . import simplify as S
from .terms import NONE, ONE, TRUE, ZERO, T, const, cval, is_const, mk

READERS = {"pandas.read_csv", "pandas.read_table"}
TABLES: set = set()               # further symbols that stand for tables
SAME_ROWS = {"sort_values", "drop", "rename", "copy", "reset_index", "assign"}


def istable(t):
    """A table whose rows are numbered from zero."""
    while True:
        if t in TABLES:
            return True
        if t.op == "call":
            return t.args[0] in READERS
        if t.op in ("setattr", "store") or t.op == "mcall" and t.args[1] in SAME_ROWS:
            if t.op == "mcall" and t.args[1] == "drop" and not dropcols(t):
                return False
            t = t.args[0]
            continue
        return False


def kws(t):
    return {x.args[0]: x.args[1] for x in t.args[2:] if isinstance(x, T) and x.op == "kw"}


def dropcols(t):
    k = kws(t)
    return "columns" in k or is_const(k.get("axis", NONE), 1) or is_const(k.get("axis", NONE), "columns")


def column_name(c):
    return c.op == "const" and isinstance(cval(c), str) or c.op == "sym" and c not in N.LISTS or \
        c.op == "bv" or c.op == "idx" and c.args[0] in N.LISTS or c.op == "idx" and c.args[0].op == "map"


def several(c):
    return c.op == "idx" and c.args[1].op == "slice" and several(c.args[0]) or c in N.LISTS or c.op in ("list", "map", "listof", "cat")


def iscol(t):
    return t.op == "idx" and istable(t.args[0]) and column_name(t.args[1])


def boolean(m):
    """A condition on the cells of a table, row by row."""
    if m.op in ("and", "or", "not"):
        return any(boolean(x) for x in m.args)
    return m.op in ("eq", "ne", "lt", "le", "in") and any(x.op == "idx" and iscol(x) for x in m.args)


def selected(t):
    """(table, rows) when t is some of the rows of a table."""
    if t.op == "attr" and t.args[1] == "loc":
        t = t.args[0]
    if t.op == "idx" and boolean(t.args[1]):
        d = t.args[0]
        if d.op == "attr" and d.args[1] == "loc":
            d = d.args[0]
        if istable(d):
            return d, t.args[1]
    return None


def picked(t):
    """Some of the cells of one column."""
    return t.op == "idx" and iscol(t.args[0]) and boolean(t.args[1])


def row_of(t):
    """(table, k) when t is one row."""
    if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] in ("iloc", "loc") and istable(t.args[0].args[0]) \
            and t.args[1].op not in ("slice", "tuple", "list") and not several(t.args[1]):
        return t.args[0].args[0], t.args[1]
    return None


def cell(df, k, c):
    df = reach(df, c)
    if df.op == "store" and df.args[1] is c:
        return N.top("idx", (df.args[2], k)) if shapes.ndim(df.args[2]) == 1 else df.args[2]
    return mk("idx", mk("idx", df, c), k)


def reach(df, c):
    """The table a column is taken from: past changes that do not touch it."""
    while True:
        if df.op == "store" and differ(df.args[1], c):
            df = df.args[0]
        elif df.op == "mcall" and df.args[1] == "copy":
            df = df.args[0]
        elif df.op == "mcall" and df.args[1] == "drop" and dropcols(df):
            cols = kws(df).get("columns", df.args[2] if len(df.args) > 2 else NONE)
            if cols.op in ("list", "tuple") and all(differ(x, c) for x in cols.args):
                df = df.args[0]
            else:
                return df
        else:
            return df


def differ(a, b):
    return a.op == "const" and b.op == "const" and a is not b


def nrows(df):
    while not (df.op == "call" or df in TABLES):
        df = df.args[0]
    return mk("len", df)


_idx0 = N.RULES["idx"]
_len0 = N.RULES["len"]


def records(x):
    """The rows of a table as a list of dictionaries."""
    if x.op != "mcall" or x.args[1] != "to_dict" or not istable(x.args[0]):
        return False
    return [y.args[1] if y.op == "kw" else y for y in x.args[2:]] == [const("records")]


def idx(s, i):
    if records(s):
        return N.top("idx", (mk("attr", s.args[0], "iloc"), i))
    if (s.op == "attr" and s.args[1] == "T" or s.op == "tr" and s.args[0].op == "attr" and s.args[0].args[1] == "values") and i.op not in ("tuple", "slice"):
        return N.top("idx", (s.args[0], mk("tuple", mk("slice", NONE, NONE, NONE), i)))
    if s.op == "call" and s.args[0] == "pandas.read_csv" and is_const(i) and type(cval(i)) is int and is_const(kws(s).get("header", ONE), None) and "names" not in kws(s):
        # without a header, columns are named by their position
        return N.top("idx", (attr(s, "values"), mk("tuple", mk("slice", NONE, NONE, NONE), i)))
    f = selected(s)
    if f is not None and column_name(i):
        return mk("idx", mk("idx", reach(f[0], i), i), f[1])
    if s.op == "attr" and s.args[1] == "loc" and istable(s.args[0]) and i.op == "tuple" and len(i.args) == 2 and boolean(i.args[0]) and column_name(i.args[1]):
        return mk("idx", mk("idx", reach(s.args[0], i.args[1]), i.args[1]), i.args[0])
    if s.op == "attr" and s.args[1] in ("iloc", "iat") and picked(s.args[0]):
        return mk("idx", s.args[0], i)
    if s.op == "attr" and s.args[1] == "iloc" and istable(s.args[0]) and i.op == "tuple" and len(i.args) == 2:
        return N.top("idx", (attr(s.args[0], "values"), i))
    if iscol(s) and i.op == "attr" and i.args[1] in ("values",):
        i = i.args[0]
    if s.op == "idx" and s.args[0].op == "mcall" and s.args[0].args[1] == "iterrows" and istable(s.args[0].args[0]):
        if is_const(i, 1):
            return mk("idx", mk("attr", s.args[0].args[0], "iloc"), s.args[1])
        if is_const(i, 0):
            return s.args[1]
    if s.op == "attr" and s.args[1] in ("iloc", "loc", "at") and istable(s.args[0]) and i.op == "tuple" and len(i.args) == 2:
        k, c = i.args
        if k.op not in ("slice", "list", "tuple") and s.args[1] != "iloc":
            if column_name(c):
                return cell(s.args[0], k, c)
            if several(c):
                return mk("idx", mk("idx", mk("attr", s.args[0], "iloc"), k), c)
    r = row_of(s)
    if r is not None and column_name(i):
        return cell(r[0], r[1], i)
    if s.op == "attr" and s.args[1] in ("iloc", "loc") and iscol(s.args[0]) and i.op not in ("slice", "tuple", "list"):
        return idx(s.args[0], i)
    if s.op == "attr" and s.args[1] in ("iloc", "loc") and s.args[0].op == "idx" and istable(s.args[0].args[0]) and several(s.args[0].args[1]) \
            and i.op not in ("slice", "tuple", "list"):
        return mk("idx", mk("idx", mk("attr", s.args[0].args[0], "iloc"), i), s.args[0].args[1])
    if istable(s) and column_name(i):
        d = reach(s, i)
        if d.op == "store" and d.args[1] is i:
            return d.args[2]
        return mk("idx", d, i)
    if iscol(s) and i.op not in ("slice", "tuple", "list") and not several(i) and shapes.ndim(i) in (0, None):
        return cell(s.args[0], i, s.args[1])
    return _idx0(s, i)


def attr(x, name, *r):
    if name in ("values", "array") and (iscol(x) or picked(x)):
        return x
    if name in ("values", "array") and x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "values":
        return x
    if name == "empty":
        if picked(x):
            return N.top("empty", (x,))
        f = selected(x)
        if f is not None:
            return N.top("empty", (f[1],)) if False else mk("attr", x, name)
        if x.op == "ite":
            return N.top("ite", (x.args[0], attr(x.args[1], name), attr(x.args[2], name)))
        if x.op == "call" and x.args[0] == "pandas.DataFrame" and len(x.args) == 1:
            return TRUE
    if name == "index" and istable(x):
        return N.top("range", (ZERO, nrows(x), ONE)) if "range" in N.RULES else mk("range", ZERO, nrows(x), ONE)
    if name == "columns":
        d = x
        while d.op == "store" and False:
            d = d.args[0]
        if d.op == "setattr" and is_name(d.args[1], "columns"):
            return d.args[2]
    return mk("attr", x, name, *r)


def is_name(a, n):
    return a == n or isinstance(a, T) and is_const(a, n)


def mcall(x, name, *a):
    if name in ("to_numpy", "tolist", "to_list") and (iscol(x) or picked(x)) and not a:
        return x
    if name == "item" and picked(x) and not a:
        return mk("idx", x, ZERO)
    if name == "strip" and x.op == "attr" and x.args[1] == "str" and x.args[0].op == "attr" and x.args[0].args[1] == "columns" and not a:
        c = x.args[0]
        k = mk("bv", N.S_fresh())
        return N.NMap(N._len(c), k, mk("mcall", mk("idx", c, k), "strip"), TRUE)
    if name == "drop" and istable(x):
        k = {y.args[0]: y.args[1] for y in a if isinstance(y, T) and y.op == "kw"}
        pos = [y for y in a if not (isinstance(y, T) and y.op == "kw")]
        if "columns" in k or is_const(k.get("axis", NONE), 1) or is_const(k.get("axis", NONE), "columns"):
            cols = k.get("columns", pos[0] if pos else k.get("labels", NONE))
            if cols.op in ("list", "tuple"):
                cols = mk("list", *sorted(set(cols.args), key=lambda y: y.uid))
            return mk("mcall", x, "drop", mk("kw", "columns", cols))
    if name == "to_dict" and not a and x.op == "idx":
        r = row_of(x.args[0])
        if r is not None and several(x.args[1]):
            cols = x.args[1]
            j = mk("bv", N.S_fresh())
            c = N._idx(cols, j)
            return N.NScatter(mk("dict"), mk("entry", TRUE, c, cell(r[0], r[1], c), NONE, mk("bind", N._len(cols), j)))
    if name == "to_dict" and not a:
        r = row_of(x)
        if r is not None:
            cols = attr(r[0], "columns")
            j = mk("bv", N.S_fresh())
            c = N._idx(cols, j)
            return N.NScatter(mk("dict"), mk("entry", TRUE, c, cell(r[0], r[1], c), NONE, mk("bind", N._len(cols), j)))
    return mk("mcall", x, name, *a)


def length(x):
    if x.op == "mcall" and x.args[1] == "iterrows" and istable(x.args[0]) or iscol(x):
        return nrows(x.args[0])
    if istable(x):
        return nrows(x)
    if records(x):
        return nrows(x.args[0])
    if x.op == "attr" and x.args[1] == "T" or x.op == "tr" and x.args[0].op == "attr" and x.args[0].args[1] == "values":
        return N.top("dim", (x.args[0], ONE))
    if x.op == "zipped":
        return minlen(*[length(y) for y in x.args])
    return _len0(x)


def minlen(*xs):
    ys = []
    for x in xs:
        for y in (x.args if x.op == "minlen" else (x,)):
            if y not in ys:
                ys.append(y)
    if len(ys) == 1:
        return ys[0]
    return mk("minlen", *ys)


_in0 = N.RULES["in"]


def inside(x, y):
    """Does the table have the column: what the files look like is checked elsewhere."""
    f = selected(y)
    if is_const(x) and isinstance(cval(x), str) and (istable(y) and y.op == "call" or f is not None and f[0].op == "call"):
        return TRUE
    return _in0(x, y)


N.RULES.update({"in": inside, "idx": idx, "attr": attr, "mcall": mcall, "len": length, "minlen": minlen})
N._idx, N._len = idx, length


def dim(x, i):
    if istable(x) and is_const(i, 0):
        return nrows(x)
    return _dim0(x, i)


_dim0 = N.RULES["dim"]
N.RULES["dim"] = N._dim = dim


def shape(t):
    if iscol(t):
        return (nrows(t.args[0]),)
    return None


shapes.HOOK.append(shape)
