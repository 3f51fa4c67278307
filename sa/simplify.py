"""Local simplification of value terms (constant folding, index of a known
container, condition algebra).  Everything here is an identity that holds for
every run, so it never loses a difference between two programs."""
from __future__ import annotations

from .terms import (FALSE, NONE, ONE, TRUE, ZERO, T, _smart, const, cval,
                    is_const, is_num, mk, subst)

FULL = mk("slice", NONE, NONE, NONE)


def _isbool(t):
    return t is TRUE or t is FALSE


# ---------------------------------------------------------------- conditions
def Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "const":
        return const(not cval(c))
    if c.op == "not":
        return truth(c.args[0])
    if c.op == "lt":
        return mk("le", c.args[1], c.args[0])
    if c.op == "le":
        return mk("lt", c.args[1], c.args[0])
    if c.op == "and":
        return Or(*[Not(x) for x in c.args])
    if c.op == "or":
        return And(*[Not(x) for x in c.args])
    if c.op == "any":
        return rebuild_q("all", c.args[0], c.args[1], Not(c.args[2]))
    if c.op == "all":
        return rebuild_q("any", c.args[0], c.args[1], Not(c.args[2]))
    return mk("not", c)


def rebuild_q(op, d, bv, body):
    if op == "any" and body is FALSE:
        return FALSE
    if op == "all" and body is TRUE:
        return TRUE
    return mk(op, d, bv, body)


BOOLOPS = {"lt", "le", "eq", "in", "not", "and", "or", "any", "all", "isnone",
           "isinstance", "is", "empty", "raises", "truthy"}


def truth(t):
    """The truth value of a value term as a condition."""
    if t.op == "const":
        try:
            return const(bool(cval(t)))
        except Exception:
            return mk("truthy", t)
    if t.op in BOOLOPS:
        return t
    if t.op in ("list", "tuple"):
        return const(len(t.args) > 0)
    if t.op == "dict":
        return const(len(t.args) > 0)
    if t.op == "fn":
        return TRUE
    if t.op == "ite":
        a, b = truth(t.args[1]), truth(t.args[2])
        if a.op in BOOLOPS or b.op in BOOLOPS or a.op == "const" or b.op == "const":
            return Ite(t.args[0], a, b)
    if t.op == "len":
        return Not(mk("empty", t.args[0]))
    if t.op == "attr" and t.args[1] == "empty" and t.args[0].op == "call" and t.args[0].args[0] in ("pandas.read_csv", "pandas.read_table"):
        return mk("empty", t.args[0])    # rows come with columns
    if t.op in ("map", "cat", "keys", "vals", "items", "scatter", "setmap", "dictmap"):
        n = Len(t)
        if n.op != "len":
            return Not(Eq(n, ZERO))
        return Not(mk("empty", t))
    return mk("truthy", t)


def And(*cs):
    out = []
    for c in cs:
        c = c if c.op in BOOLOPS or c.op in ("const", "truthy") else truth(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args if c.op == "and" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def Or(*cs):
    out = []
    for c in cs:
        c = c if c.op in BOOLOPS or c.op in ("const", "truthy") else truth(c)
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.args if c.op == "or" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


class Uniq(str):
    """A string constant different from every literal in the program."""


def _constlike(t):
    if t.op == "const":
        return True
    if t.op == "tuple":
        return all(_constlike(a) for a in t.args)
    return t.op in ("enum", "fn")


def _constval(t):
    if t.op == "tuple":
        return tuple(_constval(a) for a in t.args)
    if t.op == "const":
        return cval(t)
    return t


NONNONE = {"list", "tuple", "dict", "set", "map", "scatter", "store", "matmul",
           "add", "csr", "dense", "call_arr", "zeros", "eye", "len", "obj",
           "cat", "fn", "tr", "sum", "dictmap", "keys", "vals", "eigvals",
           "eigvecs", "enum", "mul", "diag", "inv"}


def Eq(a, b):
    if a is b:
        return TRUE
    if _constlike(a) and _constlike(b):
        try:
            return const(bool(_constval(a) == _constval(b)))
        except Exception:
            return mk("eq", a, b)
    if a.op == "ite":
        x, y = Eq(a.args[1], b), Eq(a.args[2], b)
        if x.op == "const" or y.op == "const":
            return Ite(a.args[0], x, y)
    if b.op == "ite":
        return Eq(b, a) if a.op != "ite" else mk("eq", a, b)
    if a is ZERO and b.op == "len":
        return mk("empty", b.args[0])
    if b is ZERO and a.op == "len":
        return mk("empty", a.args[0])
    if b is NONE:
        return IsNone(a)
    if a is NONE:
        return IsNone(b)
    if (a.op in ("list", "tuple") and b.op in ("list", "tuple")
            and len(a.args) == len(b.args)):
        if a.op != b.op:
            return FALSE
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


PRESENT: set = set()      # symbols that stand for an object that is given


# calls that return an object and never None
MAKES = {"matplotlib.pyplot.gca", "matplotlib.pyplot.gcf", "matplotlib.pyplot.figure", "matplotlib.pyplot.subplots", "matplotlib.pyplot.get_cmap",
         "matplotlib.pyplot.axes", "matplotlib.pyplot.subplot", "matplotlib.cm.ScalarMappable", "networkx.Graph", "networkx.DiGraph"}


def subplot_grid(a):
    """An axes object, or several, of a grid of subplots made by one call."""
    while a.op == "idx" or a.op == "mcall" and a.args[1] in ("flatten", "ravel", "reshape") or a.op == "attr" and a.args[1] == "flat":
        a = a.args[0]
    return a.op == "mcall" and a.args[1] == "subplots" or a.op == "call" and a.args[0] == "matplotlib.pyplot.subplots"


def IsNone(a):
    if a is NONE:
        return TRUE
    if a.op == "call" and (a.args[0] in MAKES or str(a.args[0]).startswith("networkx.") and a.args[0].endswith("_layout")) or a.op == "mcall" and a.args[1] in ("add_subplot", "add_axes", "get_figure", "gca", "subplots"):
        return FALSE
    if subplot_grid(a):
        return FALSE
    if a.op == "idx":
        from . import shapes
        if shapes.shape(a):
            # a part of an array with a dimension of its own
            return FALSE
    if a in PRESENT or a.op == "mcall" and a.args[0] in PRESENT:
        return FALSE
    if a.op == "const" or a.op in NONNONE:
        return FALSE
    if a.op == "ite":
        return Ite(a.args[0], IsNone(a.args[1]), IsNone(a.args[2]))
    return mk("isnone", a)


def Lt(a, b):
    if a is b:
        return FALSE
    if is_num(a) and is_num(b):
        return const(cval(a) < cval(b))
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(cval(a) < cval(b)))
        except Exception:
            pass
    if b.op == "len" and is_num(a):
        if cval(a) < 0:
            return TRUE
        if cval(a) == 0:
            return Not(mk("empty", b.args[0]))
    if a.op == "len" and is_num(b):
        if cval(b) <= 0:
            return FALSE
        if cval(b) == 1:
            return mk("empty", a.args[0])
    return mk("lt", a, b)


def Le(a, b):
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        return const(cval(a) <= cval(b))
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(cval(a) <= cval(b)))
        except Exception:
            pass
    if b.op == "len" and is_num(a):
        if cval(a) <= 0:
            return TRUE
        if cval(a) == 1:
            return Not(mk("empty", b.args[0]))
    if a.op == "len" and is_num(b):
        if cval(b) < 0:
            return FALSE
        if cval(b) == 0:
            return mk("empty", a.args[0])
    return mk("le", a, b)


def In(x, s):
    if s.op in ("list", "tuple", "set"):
        if not s.args:
            return FALSE
        return Or(*[Eq(x, y) for y in s.args])
    if s.op == "keys":
        return In(x, s.args[0])
    if s.op == "sadd" and len(s.args) == 2:
        return Or(Eq(x, s.args[1]), In(x, s.args[0]))
    if s.op == "dict":
        if not s.args:
            return FALSE
        return Or(*[Eq(x, kv.args[0]) for kv in s.args])
    if s.op == "map" and is_num(s.args[0]) is False and s.args[3] is TRUE:
        d, k, body, _ = s.args
        # identity map over a sequence
        if body.op == "idx" and body.args[1] is k and d is Len(body.args[0]):
            return In(x, body.args[0])
    if s.op == "const" and isinstance(cval(s), (str, bytes)) and x.op == "const":
        try:
            return const(cval(x) in cval(s))
        except Exception:
            pass
    if s.op == "ite":
        return Ite(s.args[0], In(x, s.args[1]), In(x, s.args[2]))
    if s.op == "setof":
        return In(x, s.args[0])
    if s.op == "listof":
        return In(x, s.args[0])
    if s.op == "cat":
        return Or(*[In(x, a) for a in s.args])
    if s.op in ("scatter", "store", "store1"):
        r = lookup_dict_of_scatter(s)
        if r is not None:
            init, d, k, key, val, cond, _ = r
            if key.op == "idx" and key.args[1] is k and d is Len(key.args[0]) and cond is TRUE:
                return Or(In(x, key.args[0]), In(x, init))
    return mk("in", x, s)


def lookup_dict_of_scatter(s):
    """(init, domain, bv, key, val, cond, mode) of a one-entry one-loop scatter"""
    if s.op != "scatter":
        return None
    init, *entries = s.args
    if len(entries) != 1:
        return None
    e = entries[0]
    cond, idx, val, mode, *binders = e.args
    if len(binders) != 1:
        return None
    d, k = binders[0].args
    return init, d, k, idx, val, cond, mode


def empty_kind(x):
    from . import shapes
    return {"dict": "dict", "seq": "list"}.get(shapes.rep(x))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return Ite(truth(c.args[0]), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if c.op == "empty" and not a.args and a.op in ("dict", "list"):
        # x or {}
        if c.args[0] is b and (b.op == "scatter" and b.args[0].op == a.op or b.op != "scatter" and (empty_kind(b) or b.op == "sym" and a.op) == a.op):
            return b
    if a.op == "ite" and a.args[0] is c:
        return Ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return Ite(c, a, b.args[2])
    if a.op in BOOLOPS or b.op in BOOLOPS:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    # le(x,y) as canonical guard only in one direction
    if c.op == "le":
        return mk("ite", mk("lt", c.args[1], c.args[0]), b, a)
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- containers
SEQ_SAME_LEN = {"sorted", "listof", "reversed", "tupleof", "asarr"}


def Len(t):
    if t.op in ("list", "tuple", "dict"):
        return const(len(t.args))
    if t.op == "const" and isinstance(cval(t), str) and not isinstance(cval(t), Uniq):
        return const(len(cval(t)))
    if t.op == "map" and t.args[3] is TRUE:
        return t.args[0]
    if t.op == "cat":
        return Add(*[Len(a) for a in t.args])
    if t.op in SEQ_SAME_LEN:
        return Len(t.args[0])
    if t.op in ("keys", "vals", "items"):
        return Len(t.args[0])
    if t.op == "range":
        if t.args[0] is ZERO and t.args[2] is ONE:
            return t.args[1]
    if t.op == "dictmap" and t.args[4] is TRUE:
        pass
    if t.op == "idx" and t.args[1].op == "slice":
        lo, hi, st = t.args[1].args
        if lo is NONE and hi is NONE and (st is NONE or st is const(-1)):
            return Len(t.args[0])
    if t.op == "store":
        return Len(t.args[0]) if t.args[0].op not in ("dict",) else mk("len", t)
    if t.op == "zeros":
        d = dims_of_shape(t.args[0])
        if d:
            return d[0]
    return mk("len", t)


def dims_of_shape(s):
    if s.op in ("tuple", "list"):
        return list(s.args)
    if is_num(s) or s.op in ("len", "dim", "count", "floordiv", "add", "mul"):
        return [s]
    return None


def _neg_index(seq, i):
    return i


def Idx(s, i):
    if i.op == "ite":
        return Ite(i.args[0], Idx(s, i.args[1]), Idx(s, i.args[2]))
    o = s.op
    if o == "ite":
        return Ite(s.args[0], Idx(s.args[1], i), Idx(s.args[2], i))
    if o in ("list", "tuple"):
        if is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
            n = len(s.args)
            if -n <= cval(i) < n:
                return s.args[cval(i)]
        if i.op == "slice" and all(x.op == "const" for x in i.args):
            try:
                return mk(o, *s.args[slice(*[cval(x) for x in i.args])])
            except Exception:
                pass
    if o == "const" and isinstance(cval(s), str) and is_const(i) and isinstance(cval(i), int):
        try:
            return const(cval(s)[cval(i)])
        except Exception:
            pass
    if o == "dict":
        if _constlike(i) and all(_constlike(kv.args[0]) for kv in s.args):
            for kv in s.args:
                if _constval(kv.args[0]) == _constval(i):
                    return kv.args[1]
            return mk("idx", s, i)
        for kv in s.args:
            if kv.args[0] is i:
                return kv.args[1]
    if o == "map" and s.args[3] is TRUE and i.op not in ("slice", "tuple"):
        d, k, body, _ = s.args
        if i.op == "const" and isinstance(cval(i), int) and cval(i) < 0:
            return subst(body, {k: Add(d, i)})
        if i.op in ("bv", "const", "sym", "add", "len") or is_intlike(i):
            return subst(body, {k: i})
    if o == "range" and i.op not in ("slice", "tuple") and not (
            is_const(i) and all(is_const(x) for x in s.args) and isinstance(cval(i), int)
            and not -len(range(*map(cval, s.args))) <= cval(i) < len(range(*map(cval, s.args)))):
        lo, hi, st = s.args
        if not (i.op == "const" and cval(i) < 0):
            return Add(lo, Mul(st, i))
    if o in ("listof", "tupleof"):
        return Idx(s.args[0], i)
    if o == "idx" and s.args[1].op == "slice" and is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool) and cval(i) >= 0:
        lo, hi, step = s.args[1].args
        if is_num(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 and step is NONE and (hi is NONE or is_num(hi) and cval(lo) + cval(i) < cval(hi)) \
                and s.args[0].op in ("sorted", "listof", "tupleof"):
            return Idx(s.args[0], const(cval(lo) + cval(i)))
        if step is NONE and lo in (NONE, ZERO) and is_num(hi) and cval(i) < cval(hi):
            return Idx(s.args[0], i)
    if o == "vals":
        # values(d)[index(keys(d), e)] is d[e]
        if i.op == "index" and i.args[0].op == "keys" and i.args[0].args[0] is s.args[0]:
            return Idx(s.args[0], i.args[1])
    if o == "dictmap":
        d, k, key, val, cond = s.args
        if cond is TRUE and key.op == "idx" and key.args[1] is k and d is Len(key.args[0]) \
                and key.args[0] is not None and i.op != "slice":
            seq = key.args[0]
            if i.op == "idx" and i.args[0] is seq and is_intlike(i.args[1]):
                return subst(val, {k: i.args[1]})
            if val is k:
                return mk("index", seq, i)
            return subst(val, {k: mk("index", seq, i)})
    if o == "index":
        pass
    if o == "store":
        b, j, v = s.args
        if j is i:
            return v
        if _constlike(i) and _constlike(j):
            return Idx(b, i)
        ti = i.args if i.op == "tuple" else (i,)
        tj = j.args if j.op == "tuple" else (j,)
        if i.op != "slice" and FULL in tj and ti[-1] is not FULL or len(ti) != len(tj):
            # x[k] after x[k, :, :] = v
            ci, cj = [x for x in ti], [x for x in tj]
            while len(cj) > 1 and cj[-1] is FULL:
                cj.pop()
            while len(ci) > 1 and ci[-1] is FULL:
                ci.pop()
            if len(ci) == len(cj) == 1 and is_num(ci[0]) and cj[0].op == "slice" and all(
                    y.op == "const" and (y is NONE or isinstance(cval(y), int)) for y in cj[0].args):
                # x[k] after x[a:b, :, :] = v
                from . import shapes
                sb, nv = shapes.shape(b), shapes.ndim(v)
                if sb and is_num(sb[0]) and isinstance(cval(ci[0]), int):
                    n = cval(sb[0])
                    q = cval(ci[0]) % n if n else 0
                    if q not in range(*slice(*[cval(y) for y in cj[0].args]).indices(n)):
                        return Idx(b, i)
                    if nv is not None and nv == len(sb) - 1:
                        return v
            if len(ci) == len(cj) and all(x.op == "const" and is_num(x) and y.op == "const" and is_num(y) for x, y in zip(ci, cj)):
                if any(x is not y for x, y in zip(ci, cj)):
                    if all(cval(x) >= 0 for x in ci + cj):
                        return Idx(b, i)
                else:
                    from . import shapes
                    nb, nv = shapes.ndim(b), shapes.ndim(v)
                    if nb is not None and nv is not None and nv == nb - len(ci):
                        return v
        if len(ti) == len(tj):
            for x, y in zip(ti, tj):
                if x.op == "const" and y.op == "const" and x is not y and is_num(x) and is_num(y) and cval(x) >= 0 and cval(y) >= 0:
                    return Idx(b, i)
    if o == "scatter":
        r = _scatter_read(s, i)
        if r is not None:
            return r
    if o == "idx" and s.args[1] is FULL and i.op not in ("tuple",):
        return Idx(s.args[0], i)
    if i is FULL and o in ("list",):
        return s
    # chain of row index then column index:  x[i][j] == x[i, j] for arrays
    return mk("idx", s, i)


def is_intlike(t):
    return (t.op in ("bv", "index", "len") or (t.op == "const" and isinstance(cval(t), int) and not isinstance(cval(t), bool))
            or (t.op == "add" and all(is_intlike(a) for a in t.args))
            or (t.op == "mul" and all(is_intlike(a) for a in t.args))
            or (t.op == "call" and t.args[0] == "int"))


def _idx_tuple(t):
    xs = list(t.args) if t.op == "tuple" else [t]
    while xs and xs[-1] is FULL:
        xs.pop()
    return xs


def _scatter_read(s, i):
    init, *entries = s.args
    if len(entries) != 1:
        return None
    e = entries[0]
    cond, idx, val, mode, *binders = e.args
    if cond is not TRUE or mode is not NONE:
        return None
    xs, ys = _idx_tuple(idx), _idx_tuple(i)
    if len(xs) != len(ys):
        return None
    bvs = {b.args[1]: b.args[0] for b in binders}
    m = {}
    for x, y in zip(xs, ys):
        if x in bvs:
            if y.op == "slice":
                return None
            if y.op == "const" and isinstance(cval(y), int) and cval(y) < 0:
                y = Add(bvs[x], y)
            m[x] = y
        elif x is not y:
            if x.op == "idx" and x.args[1] in bvs and bvs[x.args[1]] is Len(x.args[0]):
                # key is the k-th element of a sequence
                if y.op == "idx" and y.args[0] is x.args[0] and is_intlike(y.args[1]):
                    m[x.args[1]] = y.args[1]
                    continue
                if init.op == "dict" and not init.args:
                    m[x.args[1]] = mk("index", x.args[0], y)
                    continue
            return None
    if set(m) != set(bvs):
        return None
    return subst(val, m)


# ---------------------------------------------------------------- arithmetic
def Add(*xs):
    out, c = [], None
    for x in xs:
        for y in (x.args if x.op == "add" else (x,)):
            y = {TRUE: ONE, FALSE: ZERO}.get(y, y)
            if is_num(y):
                c = cval(y) if c is None else c + cval(y)
            else:
                out.append(y)
    # cancel y + (-1)*y
    changed = True
    while changed:
        changed = False
        for a in out:
            n = _negate(a)
            if n is not a and n in out:
                out.remove(a)
                out.remove(n)
                if c is None:
                    c = 0 if is_intlike(a) or a.op in ("len",) else c
                    if c is None:
                        out += [a, n]
                        changed = False
                        break
                changed = True
                break
    if c is not None and (c != 0 or not out):
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def _negate(a):
    if is_num(a):
        return const(-cval(a))
    if a.op == "mul" and is_num(a.args[0]):
        v = -cval(a.args[0])
        rest = a.args[1:]
        if v == 1:
            return rest[0] if len(rest) == 1 else mk("mul", *rest)
        return mk("mul", const(v), *rest)
    if a.op == "mul":
        return mk("mul", const(-1), *a.args)
    return mk("mul", const(-1), a)


def Mul(*xs):
    out, c = [], 1
    for x in xs:
        for y in (x.args if x.op == "mul" else (x,)):
            y = {TRUE: ONE, FALSE: ZERO}.get(y, y)
            if is_num(y):
                c = c * cval(y)
            else:
                out.append(y)
    if not out:
        return const(c)
    if c == 1 and type(c) in (int, float):
        return out[0] if len(out) == 1 else mk("mul", *out)
    return mk("mul", const(c), *out)


def Neg(a):
    return Mul(const(-1), a)


def Sub(a, b):
    return Add(a, Neg(b))


def MatMul(*xs):
    out = []
    for x in xs:
        out.extend(x.args if x.op == "matmul" else (x,))
    return mk("matmul", *out) if len(out) > 1 else out[0]


def Div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if is_const(b, 1):
        return a
    return mk("div", a, b)


def Pow(a, b):
    if is_num(a) and is_num(b):
        try:
            return const(cval(a) ** cval(b))
        except Exception:
            pass
    return mk("pow", a, b)


def Tr(a):
    if a.op == "tr":
        return a.args[0]
    return mk("tr", a)


def Index(s, x):
    if s.op in ("listof", "tupleof"):
        return Index(s.args[0], x)
    return mk("index", s, x)


def Cat(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == "cat" else (x,)):
            if y.op in ("list",) and not y.args:
                continue
            if out and out[-1].op == "list" and y.op == "list":
                out[-1] = mk("list", *(out[-1].args + y.args))
            else:
                out.append(y)
    if not out:
        return mk("list")
    return out[0] if len(out) == 1 else mk("cat", *out)


def Scatter(init, *entries):
    if init.op == "scatter":
        entries = tuple(init.args[1:]) + tuple(entries)
        init = init.args[0]
    if not entries:
        return init
    return mk("scatter", init, *entries)


_smart.update({
    "not": Not, "and": And, "or": Or, "eq": Eq, "lt": Lt, "le": Le, "in": In,
    "ite": Ite, "len": Len, "idx": Idx, "add": Add, "mul": Mul,
    "matmul": MatMul, "div": Div, "pow": Pow, "tr": Tr, "isnone": IsNone,
    "cat": Cat, "index": Index, "scatter": Scatter, "truthy": truth,
})
