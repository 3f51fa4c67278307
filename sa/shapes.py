"""What kind of object a value term denotes (sparse matrix, dense array,
scalar, sequence, ...) and, where it is known, its dimensions."""
from __future__ import annotations
from fractions import Fraction

from . import simplify as S
from .simplify import FULL, Add, Len, Mul
from .terms import NONE, ONE, ZERO, T, const, cval, is_const, is_num, mk

# facts about the symbols an analysis introduces (set by the checks)
SHAPES: dict = {}
REPS: dict = {}

ELEM1 = {"csr", "dense", "asarr", "copyof", "round", "abs", "exp", "log", "sqrt", "sign",
         "neg", "nan2num", "floor", "ceil", "inv_mask", "tensor"}
SEQ_OPS = {"list", "map", "cat", "flatmap", "sorted", "sortedby", "listof", "tupleof", "reversed",
           "keys", "vals", "items", "range", "repeat", "zipped"}
DENSE_OPS = {"zeros", "fill", "eye", "dense", "eigvals", "eigvecs", "diagm", "diagof", "diag", "concat",
             "pinv", "inv", "nz", "tensor", "asarr"}
SCALAR_OPS = {"len", "dim", "norm", "index", "bv", "fmt", "floordiv", "mod", "empty", "item"}
STR_OPS = {"concat"}
RED = {"sum", "mean", "std", "var", "max", "min", "prod", "any", "all", "median"}


def rep(t):
    r = REPS.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "const":
        v = cval(t)
        return "str" if isinstance(v, str) else ("scalar" if isinstance(v, (int, float, bool, complex, Fraction)) else "unk")
    if o in S.BOOLOPS:
        return "bool"
    if o == "csr":
        return "sparse"
    if o in ("tuple", "shape"):
        return "tuple"
    if o == "str":
        return "str"
    if o in DENSE_OPS:
        return "dense"
    if o in SCALAR_OPS:
        return "scalar"
    if o == "sum":
        return rep(t.args[2])
    if o in ("round", "abs", "exp", "log", "sqrt", "sign", "neg", "floor", "ceil", "copyof", "tr", "nan2num", "ondev"):
        return rep(t.args[0])
    if o == "cast":
        return rep(t.args[1])
    if o == "matpow":
        return rep(t.args[0])
    if o in ("pow", "div"):
        a, b = rep(t.args[0]), rep(t.args[1])
        if "dense" in (a, b):
            return "dense"
        if a == "sparse":
            return "sparse"
        return a if a == b else ("unk" if b == "scalar" and a == "unk" else (a if b == "scalar" else "unk"))
    if o in ("add", "mul"):
        rs = {rep(a) for a in t.args}
        if "dense" in rs:
            return "dense"
        if "unk" in rs:
            return "unk"
        if "sparse" in rs:
            return "sparse"
        if rs <= {"scalar", "bool"}:
            return "scalar"
        return "unk"
    if o == "matmul":
        rs = [rep(a) for a in t.args]
        if all(r == "sparse" for r in rs):
            return "sparse"
        sh = shape(t)
        if sh == ():
            return "scalar"
        if "dense" in rs:
            return "dense"
        return "unk"
    if o == "select":
        # numpy.where: an array, whatever its parts are
        return "dense" if shape(t) else "unk"
    if o == "ite":
        a, b = rep(t.args[1]), rep(t.args[2])
        return a if a == b else "unk"
    if o == "scatter" or o == "store" or o == "store1":
        r = rep(t.args[0])
        return r
    if o == "dict" or o == "dictmap" or o == "dupdate":
        return "dict"
    if o in ("set", "setmap", "union", "sadd", "setof"):
        return "set"
    if o in SEQ_OPS:
        return "seq"
    if o == "red":
        return "scalar" if t.args[2] is NONE else "dense"
    if o == "idx":
        sh = shape(t)
        if sh == ():
            return "scalar"
        if sh is not None:
            r = rep(t.args[0])
            return r if r in ("dense", "sparse") else "unk"
        if rep(t.args[0]) == "dense" and t.args[1].op == "slice":
            return "dense"
        return "unk"
    if o == "call":
        return CALL_REP.get(t.args[0], "unk")
    if o == "phi":
        return t.args[3] if len(t.args) > 3 else "unk"
    if o == "rec":
        return rep(t.args[3].args[cval(t.args[2])])
    if o == "recat":
        return rep(t.args[0])
    return "unk"


CALL_REP = {
    "numpy.linspace": "dense", "numpy.unique": "dense", "numpy.argsort": "dense", "numpy.corrcoef": "dense",
    "numpy.random.randn": "dense", "numpy.random.rand": "dense", "numpy.outer": "dense", "numpy.kron": "dense", "numpy.power": "dense",
    "int": "scalar", "float": "scalar", "str": "str",
}


def ndim(t):
    s = shape(t)
    return None if s is None else len(s)


def _bcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = None
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or d is ONE:
                d = x
        out.append(d)
    return tuple(out)


HOOK: list = []                   # shapes of table columns


def shape(t, depth=0):
    s = SHAPES.get(t)
    if s is not None:
        return s
    if depth > 40:
        return None
    o, a = t.op, t.args
    if o == "idx" and HOOK:
        s = HOOK[0](t)
        if s is not None:
            return s
    sh = lambda x: shape(x, depth + 1)
    if o == "const":
        return () if isinstance(cval(t), (int, float, bool, Fraction)) else None
    if o in ("bv", "len", "dim", "norm", "index", "item"):
        return ()
    if o in ("minof", "maxof") and len(a) == 1 and a[0].op == "idx" and HOOK and HOOK[0](a[0]) is not None and len(HOOK[0](a[0])) == 1:
        return ()                       # of a column of a table
    if o in ("zeros", "fill"):
        d = S.dims_of_shape(a[0])
        if d is None and a[0].op not in ("tuple", "list") and sh(a[0]) == ():
            return (a[0],)
        return None if d is None else tuple(d)
    if o == "eye":
        return (a[0], a[1])
    if o in ("scatter", "store", "store1"):
        if a[0].op in ("dict", "list"):
            return None
        return sh(a[0])
    if o in ELEM1 or o in S.BOOLOPS and o in ("not",):
        return sh(a[0])
    if o == "cast":
        return sh(a[1])
    if o == "inv" or o == "matpow":
        return sh(a[0])
    if o in ("tr", "pinv"):
        s = sh(a[0])
        return None if s is None else tuple(reversed(s))
    if o == "matmul":
        s0, s1 = sh(a[0]), sh(a[-1])
        if any(len(x) == 1 for x in [sh(y) or (0, 0) for y in a[1:-1]]):
            return None
        if s0 is None or s1 is None:
            return None
        return tuple(s0[:-1]) + (tuple(s1[:-2]) + tuple(s1[-1:]) if len(s1) >= 2 else ())
    if o in ("add", "mul", "lt", "le", "eq", "and", "or"):
        ss = [sh(x) for x in a if isinstance(x, T)]
        if any(x is None for x in ss) or not ss:
            return None
        return _bcast(ss)
    if o in ("pow", "div"):
        ss = [sh(x) for x in a[:2]]
        if any(x is None for x in ss):
            return None
        return _bcast(ss)
    if o == "attr":
        if a[0].op == "call" and a[0].args[0] == "cvxpy.solution" and a[1] == "value":
            return sh(a[0].args[1])
        return () if a[0].op == "call" and a[0].args[0] == "numpy.finfo" else None
    if o == "ite":
        x, y = sh(a[1]), sh(a[2])
        return x if x == y else None
    if o == "select":
        ss = [sh(x) for x in a]
        if any(x is None for x in ss):
            return None
        return _bcast(ss)
    if o == "sum":
        return sh(a[2])
    if o == "eigvals":
        s = sh(a[0])
        return None if s is None or len(a) > 1 else (s[0],)
    if o == "eigvecs":
        return sh(a[0]) if len(a) == 1 else None
    if o == "concat" and a[0] in ("concat", "numpy.append") and a[2].op == "tuple":
        ss = [sh(x) for x in a[2].args]
        if ss and all(x is not None and len(x) == 1 for x in ss):
            return (Add(*[x[0] for x in ss]),)
        return None
    if o == "diagm":
        s = sh(a[0])
        return None if s is None else (s[0], s[0])
    if o == "diagof":
        s = sh(a[0])
        return None if s is None else (s[0],)
    if o == "nz":
        return (mk("count", a[0]),)
    if o == "map":
        b = sh(a[2])
        if a[3] is not S.TRUE:
            return None
        if b is None and rep(a[2]) not in ("scalar", "bool"):
            return (a[0],) if a[2].op == "tuple" else None
        return (a[0],) + (b or ())
    if o == "list":
        return None
    if o == "squeeze" and len(a) == 1:
        b = sh(a[0])
        return None if b is None else tuple(d for d in b if d is not S.ONE)
    if o == "mcall" and a[1] == "squeeze" and len(a) == 3 and a[2] is const(-1):
        b = sh(a[0])
        return b[:-1] if b and b[-1] is S.ONE else None
    if o == "mcall" and a[1] in ("transform", "inverse_transform") and len(a) == 3 and a[0].op == "call":
        return sh(a[2])
    if o == "phi":
        # the canonical loop-carried value records its shape
        return tuple(a[2].args) if len(a) > 3 and a[2] is not NONE else None
    if o == "rec":
        return sh(a[3].args[cval(a[2])])
    if o == "recat":
        return sh(a[0])
    if o == "red":
        s = sh(a[1])
        if a[2] is NONE:
            return ()
        if s is not None and is_const(a[2]) and isinstance(cval(a[2]), int):
            ax = cval(a[2]) % len(s) if len(s) else 0
            return tuple(x for i, x in enumerate(s) if i != ax)
        return None
    if o == "call":
        n = a[0]
        if n == "numpy.linspace" and len(a) >= 4:
            return (a[3],)
        if n in ("numpy.random.randn", "numpy.random.rand"):
            return tuple(x for x in a[1:] if x.op not in ("rnd",))
        if n == "numpy.argsort":
            return sh(a[1])
        if n == "numpy.unique" and len(a) == 2:
            return (mk("len", t),)
        if n == "cvxpy.Variable" and len(a) >= 2 and all(x.op == "kw" for x in a[2:]):
            return tuple(S.dims_of_shape(a[1]) or ()) or None
        if n in ("numpy.finfo", "float", "int"):
            return ()
        return None
    if o == "idx":
        s = sh(a[0])
        if s is None:
            return None
        ix = list(a[1].args) if a[1].op == "tuple" else [a[1]]
        if any(is_const(i, None) or (i.op == "const" and cval(i) is Ellipsis) for i in ix):
            out, j = [], 0
            if any(i.op == "const" and cval(i) is Ellipsis for i in ix):
                return None
            for i in ix:
                if i is NONE:
                    out.append(ONE)
                elif i.op == "slice":
                    out.append(_slen(s[j], i)); j += 1
                else:
                    return None
            return tuple(out) + tuple(s[j:])
        if len(ix) > len(s):
            return None
        out = []
        adv = []
        for d, i in zip(s, ix):
            if i.op == "slice":
                out.append(_slen(d, i))
            elif i.op in ("const", "bv", "len", "dim", "index") or S.is_intlike(i) or REPS.get(i) == "scalar":
                continue
            else:
                si = sh(i)
                if si is None and i.op in ("lt", "le", "eq", "not", "and", "or"):
                    si = (None,)
                if si is None:
                    return None
                if si == ():
                    continue
                if i.op in ("lt", "le", "eq", "not", "and", "or"):
                    # a boolean mask keeps as many entries as it has ones
                    if len(si) != 1:
                        return None
                    si = (mk("count", i),)
                if adv:
                    return None
                adv.append(i)
                out.extend(si)
        return tuple(out) + tuple(s[len(ix):])
    return None


def _slen(d, sl):
    lo, hi, step = sl.args
    if is_const(d) and isinstance(cval(d), int) and all(x.op == "const" and (x is NONE or isinstance(cval(x), int)) for x in sl.args):
        return const(len(range(*slice(*[cval(x) for x in sl.args]).indices(cval(d)))))
    if hi is d and lo is NONE and step is NONE:
        return d
    if step is not NONE:
        return mk("slicelen", d, sl)
    if lo is NONE and hi is NONE:
        return d
    lo = ZERO if lo is NONE else lo
    neg = lambda x: is_num(x) and cval(x) < 0
    if hi is NONE:
        return Add(d, Mul(const(-1), lo)) if not neg(lo) else mk("slicelen", d, sl)
    if neg(lo) or neg(hi):
        return mk("slicelen", d, sl)
    if lo is ZERO and hi.op in ("len", "dim", "count", "sym", "bv", "add"):
        return hi
    return mk("slicelen", d, sl)


def dim(t, i):
    """The i-th dimension of t as a term."""
    s = shape(t)
    if s is not None and -len(s) <= i < len(s):
        return s[i]
    # leading / trailing dimension of products is known even when the rest is not
    if t.op == "matmul":
        if i == 0:
            return dim(t.args[0], 0)
    if t.op in ("csr", "dense", "asarr", "round", "abs", "copyof", "tensor"):
        return dim(t.args[0], i)
    if t.op == "cast":
        return dim(t.args[1], i)
    if t.op == "inv":
        return dim(t.args[0], i)
    if t.op == "eigvecs" and len(t.args) == 1:
        return dim(t.args[0], i)
    if t.op == "eigvals" and len(t.args) == 1 and i == 0:
        return dim(t.args[0], 0)
    if t.op == "tr" and shape(t.args[0]) is None and i in (0, 1):
        return dim(t.args[0], 1 - i)
    if t.op == "idx" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        x, (r, c) = t.args[0], t.args[1].args
        pick = (r, c)[i] if i in (0, 1) else None
        other = (r, c)[1 - i] if i in (0, 1) else None
        if pick is not None and other.op in ("slice", "nz", "not", "lt", "le"):
            if pick is FULL:
                return dim(x, i)
            if pick.op == "nz":
                return mk("count", pick.args[0])
            if pick.op in ("lt", "le", "not") and i == 1:
                return mk("count", pick)
    if i == 0:
        if t.op == "nz":
            return mk("count", t.args[0])
        if t.op == "idx" and t.args[1].op == "nz":
            return mk("count", t.args[1].args[0])
        return Len(t)
    return mk("dim", t, const(i))
