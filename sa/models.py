"""Transfer functions of the external functions, methods and operators the
package uses (Python builtins, numpy, scipy.sparse, pandas, networkx, torch,
...).  A function without a model becomes an uninterpreted call, which the
comparison of value terms treats as undecided rather than different."""
from __future__ import annotations

import ast

from . import simplify as S
from .shapes import REPS, SHAPES, dim, ndim, rep as rep_, shape
from .simplify import (FULL, Add, And, Cat, Div, Eq, Idx, In, Index, IsNone,
                       Ite, Le, Len, Lt, MatMul, Mul, Neg, Not, Or, Pow,
                       Scatter, Sub, Tr, truth)
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, T, const, cval, fresh_bv,
                    fresh_id, is_const, is_num, mk, subst)

ALIASES = {
    "numpy.absolute": "numpy.abs", "numpy.around": "numpy.round", "numpy.round_": "numpy.round",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.concat": "numpy.concatenate",
    "scipy.linalg.inv": "numpy.linalg.inv", "scipy.linalg.pinv": "numpy.linalg.pinv",
    "scipy.linalg.solve": "numpy.linalg.solve", "scipy.linalg.lstsq": "numpy.linalg.lstsq",
    "scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.eigh": "numpy.linalg.eigh",
    "scipy.sparse.csr_array": "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix": "scipy.sparse.csr_matrix",
    "scipy.sparse.coo_matrix": "scipy.sparse.csr_matrix", "scipy.sparse.lil_matrix": "scipy.sparse.csr_matrix",
    "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.floor": "numpy.floor",
    "math.pow": "numpy.power", "numpy.double": "numpy.float64", "numpy.float_": "numpy.float64",
    "scipy.sparse.linalg.eigen.arpack.eigsh": "scipy.sparse.linalg.eigsh",
    "torch.as_tensor": "torch.tensor", "torch.matmul": "numpy.matmul", "torch.mm": "numpy.matmul",
    "torch.from_numpy": "torch.tensor", "torch.pow": "numpy.power", "torch.exp": "numpy.exp",
    "torch.mean": "numpy.mean", "torch.abs": "numpy.abs", "torch.diag": "numpy.diag",
    "torch.sqrt": "numpy.sqrt", "torch.reciprocal": "numpy.reciprocal", "torch.eye": "numpy.eye",
    "torch.mul": "numpy.multiply", "torch.add": "numpy.add", "torch.sub": "numpy.subtract",
    "torch.div": "numpy.divide", "torch.ones_like": "numpy.ones_like",
    "matplotlib.pylab": "matplotlib.pyplot",
}


def canonical(dotted):
    return ALIASES.get(dotted, dotted)


CONST_ATTRS = {"numpy.newaxis": NONE, "numpy.pi": const(3.141592653589793), "math.pi": const(3.141592653589793),
               "numpy.inf": const(float("inf")), "math.inf": const(float("inf"))}


def ext_attr(I, b, name, st):
    d = canonical(b.name + "." + name)
    if d in CONST_ATTRS:
        return CONST_ATTRS[d]
    if name == "__name__":
        return const(b.name.split(".")[-1])
    return I.ext(d)


# ------------------------------------------------------------------ helpers
def rep(I, t):
    return rep_(t)


def wrap(I, st, t, *src):
    """A fresh value for a computed term."""
    r = rep_(t)
    if r in ("scalar", "str", "bool", "tuple") or t.op in ("const", "ite_bool"):
        return t
    if r == "seq":
        return I.alloc(st, "list", t)
    return I.arr(st, t)


def alias(I, st, t, v, same=False):
    """A result that may share memory with v."""
    b = I.bases_of(v)
    if not b:
        return t if rep_(t) in ("scalar", "bool", "str") else t
    r = I.alloc(st, "unk", t, base=b)
    if same:
        st.heap[r.cid] = st.heap[r.cid].rep(extra="alias")
    return r


def concat_str(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "str" else (p,)):
            if out and out[-1].op == "const" and q.op == "const" and isinstance(cval(out[-1]), str) \
                    and isinstance(cval(q), str) and not isinstance(cval(out[-1]), S.Uniq) and not isinstance(cval(q), S.Uniq):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("str", *out)


def mk_map(D, k, body, cond=TRUE):
    if cond is FALSE:
        return mk("list")
    # identity map over a sequence
    return mk("map", D, k, body, cond)


def body_may_raise(I, body, h):
    """Can a try body raise in a call or subscript we have no model of?"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Call, ast.Subscript)):
                return not getattr(I, "try_modelled", False)
    return False


def seq_term(I, v, st):
    t = I.tm(v, st)
    if t.op in ("dict", "dictmap", "dupdate") or (isinstance(v, I_Ref()) and st.heap[v.cid].kind == "dict"):
        return keys_of(t)
    return t


_Ref = None


def I_Ref():
    global _Ref
    if _Ref is None:
        from .interp import Ref
        _Ref = Ref
    return _Ref


def keys_of(t):
    if t.op == "dict":
        return mk("list", *[kv.args[0] for kv in t.args])
    return mk("keys", t)


def is_kind(I, v, st, kind):
    Ref = I_Ref()
    return isinstance(v, Ref) and st.heap[v.cid].kind == kind


def kind_of(I, v, st):
    Ref = I_Ref()
    if isinstance(v, Ref):
        k = st.heap[v.cid].kind
        if k in ("list", "dict", "set", "tuple", "inst", "iter"):
            return k
        v = st.heap[v.cid].val
    if isinstance(v, T):
        if v.op == "tuple":
            return "tuple"
        r = rep_(v)
        return {"seq": "list", "dict": "dict", "set": "set", "str": "str"}.get(r, r)
    return "fn"


def iter_len(t):
    """Number of elements met when iterating over t."""
    s = shape(t)
    if s:
        return s[0]
    if t.op in ("dict",):
        return const(len(t.args))
    if t.op in ("scatter", "store", "store1") and rep_(t) == "dict":
        return Len(keys_of(t))
    if t.op == "range":
        lo, hi, step = t.args
        if step is ONE:
            return Sub(hi, lo) if lo is not ZERO else hi
        if is_const(step, -1):
            return Sub(lo, hi)
        return mk("rangelen", lo, hi, step)
    return Len(t)


def iter_desc(I, it, st):
    Ref = I_Ref()
    if isinstance(it, T):
        it = I.inst_of(I.unterm(it), st)
    t = I.tm(it, st)
    kind = kind_of(I, it, st)
    if kind == "inst":
        c = st.heap[it.cid]
        m = c.cls.lookup("__iter__")[0] if c.cls else None
        if m is not None:
            return iter_desc(I, I.call(m.bind(it), [], {}, st), st)
    if kind == "dict":
        t = keys_of(t)
    if t.op in ("call", "rec", "store"):
        from .lib import I_graph
        if I_graph(t):
            t = mk("mcall", t, "nodes")
    if isinstance(it, Ref) and it.cid in st.heap and isinstance(st.heap[it.cid].extra, tuple) and st.heap[it.cid].extra[:1] == ("graphview",):
        g = st.heap[it.cid].extra[1]
        E = mk("mcall", I.tm(g, st), "edges")

        def edge(k, s):
            e = Idx(E, k)
            d = I.getitem(I.getitem(g, Idx(e, ZERO), s), Idx(e, ONE), s)
            return I.alloc(s, "tuple", items=[Idx(e, ZERO), Idx(e, ONE), d])
        return iter_len(E), edge
    if t.op == "keys" and t.args[0].op in ("scatter",):
        r = S.lookup_dict_of_scatter(t.args[0])
    bases = I.bases_of(it)

    def view(x, s):
        if not bases or rep_(x) in ("scalar", "str", "bool") or x.op in ("const", "bv", "add"):
            return x
        r = I.alloc(s, "unk", x, base=tuple(b for b in bases if b in s.heap))
        s.heap[r.cid] = s.heap[r.cid].rep(extra="elem")
        return r

    if t.op == "range":
        lo, hi, step = t.args
        D = iter_len(t)
        return D, (lambda k, s: Add(lo, Mul(step, k)))
    if t.op == "map" and t.args[3] is TRUE:
        D, k0, body, _ = t.args
        return D, (lambda k, s: view_tuple(I, subst(body, {k0: k}), bases, s))
    if t.op == "zipped":
        D = zip_len(t.args)
        return D, (lambda k, s: view_tuple(I, mk("tuple", *[elem_of(x, k) for x in t.args]), bases, s))
    if t.op == "items":
        d = t.args[0]
        ks = keys_of(d)
        def el(k, s):
            key = Idx(ks, k)
            return view_tuple(I, mk("tuple", key, Idx(d, key)), bases, s)
        return iter_len(ks), el
    D = iter_len(t)
    return D, (lambda k, s: view(elem_of(t, k), s))


def view_tuple(I, t, bases, s):
    bases = tuple(b for b in bases if b in s.heap)
    if not bases:
        return t
    if t.op == "tuple":
        items = []
        for x in t.args:
            items.append(view_tuple(I, x, bases, s))
        if all(isinstance(x, T) for x in items):
            return mk("tuple", *items)
        return I.alloc(s, "tuple", items=items)
    if rep_(t) in ("scalar", "str", "bool") or t.op in ("const", "bv", "add"):
        return t
    r = I.alloc(s, "unk", t, base=bases)
    s.heap[r.cid] = s.heap[r.cid].rep(extra="elem")
    return r


def elem_of(t, k):
    if t.op == "range":
        return Add(t.args[0], Mul(t.args[2], k))
    if t.op == "zipped":
        return mk("tuple", *[elem_of(x, k) for x in t.args])
    if t.op == "items":
        key = Idx(keys_of(t.args[0]), k)
        return mk("tuple", key, Idx(t.args[0], key))
    if t.op == "ite":
        return Ite(t.args[0], elem_of(t.args[1], k), elem_of(t.args[2], k))
    return Idx(t, k)


def zip_len(ts):
    ls = []
    for x in ts:
        n = iter_len(x)
        if n not in ls:
            ls.append(n)
    if len(ls) == 1:
        return ls[0]
    # an unbounded counter does not limit the others
    return mk("minlen", *ls)


def ctx_name(I, v, t):
    from .interp import ExtV, MethV
    if t.op == "call":
        return t.args[0]
    if t.op == "mcall":
        return "." + t.args[1]
    if isinstance(v, ExtV):
        return v.name
    return "ctx"


def ctx_enter(I, v, t, st):
    if t.op == "call" and t.args[0] == "open":
        return v
    return v


# ------------------------------------------------------------------ operators
def binop(I, a, op, b, st):
    Ref = I_Ref()
    ka, kb = kind_of(I, a, st), kind_of(I, b, st)
    if ka == "inst" or kb == "inst":
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv", "Pow": "pow"}.get(op)
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and st.heap[x.cid].kind == "inst" and st.heap[x.cid].cls and nm:
                m, _ = st.heap[x.cid].cls.lookup(f"{pre}{nm}__")
                if m is not None:
                    return I.call(m.bind(x), [y], {}, st)
    if op in ("BitOr", "BitAnd", "Sub", "BitXor") and ka in ("set", "list") and kb in ("set", "list"):
        r = set_algebra(I, op, a, b, st)
        if r is not None:
            return r
    ta, tb = I.tm(a, st), I.tm(b, st)
    if op == "Div" and any(t.op == "call" and t.args[0] == "pathlib.Path" for t in (ta, tb)):
        return mk("call", "pathlib.Path", mk("call", "os.path.join", *[t.args[1] if t.op == "call" and t.args[0] == "pathlib.Path" else t for t in (ta, tb)]))
    if op == "Add":
        if ka == "str" or kb == "str":
            return concat_str([ta, tb])
        if ka == "tuple" or kb == "tuple":
            if ta.op == "tuple" and tb.op == "tuple":
                return mk("tuple", *(ta.args + tb.args))
            if "list" not in (ka, kb):
                return mk("tcat", ta, tb)
        if ka == "list" or kb == "list":
            if ka == "list" and kb == "list" and isinstance(a, Ref) and isinstance(b, Ref):
                ca, cb = st.heap[a.cid], st.heap[b.cid]
                if ca.items is not None and cb.items is not None:
                    return I.alloc(st, "list", items=list(ca.items) + list(cb.items))
            if rep_(ta) in ("seq", "unk") and rep_(tb) in ("seq", "unk") and ta.op != "range" and tb.op != "range":
                return I.alloc(st, "list", Cat(ta, tb))
        return wrap(I, st, Add(ta, tb))
    if op == "Sub":
        if ka == "set" or kb == "set":
            return I.alloc(st, "set", mk("setdiff", ta, tb))
        return wrap(I, st, Sub(ta, tb))
    if op == "Mult":
        if ka == "list" and kb in ("scalar", "unk"):
            return _repeat(I, a, ta, tb, st)
        if kb == "list" and ka in ("scalar", "unk"):
            return _repeat(I, b, tb, ta, st)
        ra, rb = rep_(ta), rep_(tb)
        if ra == "sparse" and rb not in ("scalar",) and not is_num(tb):
            return wrap(I, st, MatMul(ta, tb))
        if rb == "sparse" and ra not in ("scalar", "unk") and not is_num(ta):
            return wrap(I, st, MatMul(ta, tb))
        return wrap(I, st, Mul(ta, tb))
    if op == "MatMult":
        return wrap(I, st, MatMul(ta, tb))
    if op == "Div":
        return wrap(I, st, Div(ta, tb))
    if op == "Pow":
        if rep_(ta) == "sparse":
            return wrap(I, st, mat_pow(ta, tb))
        return wrap(I, st, Pow(ta, tb))
    if op == "FloorDiv":
        if is_num(ta) and is_num(tb) and cval(tb) != 0:
            return const(cval(ta) // cval(tb))
        return wrap(I, st, mk("floordiv", ta, tb))
    if op == "Mod":
        if ka == "str":
            return mk("str", mk("fmt", ta), mk("fmt", tb))
        if is_num(ta) and is_num(tb) and cval(tb) != 0:
            return const(cval(ta) % cval(tb))
        return wrap(I, st, mk("mod", ta, tb))
    if op in ("BitAnd", "BitOr"):
        if ka == "set" or kb == "set":
            return I.alloc(st, "set", mk("union" if op == "BitOr" else "intersect", ta, tb))
        if ta.op in S.BOOLOPS and tb.op in S.BOOLOPS:
            return And(ta, tb) if op == "BitAnd" else Or(ta, tb)
        if ka == "dict" or kb == "dict":
            return I.alloc(st, "dict", mk("dupdate", ta, tb))
    if op == "BitXor" and ka == "set":
        return I.alloc(st, "set", mk("symdiff", ta, tb))
    return wrap(I, st, mk("binop", op, ta, tb))


def mat_pow(a, n):
    if is_const(n, 1):
        return a
    if is_num(n) and isinstance(cval(n), int) and 2 <= cval(n) <= 6:
        return MatMul(*([a] * cval(n)))
    if is_const(n, 0):
        return mk("csr", mk("eye", dim(a, 0), dim(a, 0))) if rep_(a) == "sparse" else mk("eye", dim(a, 0), dim(a, 0))
    return mk("matpow", a, n)


def _repeat(I, lst, tl, n, st):
    Ref = I_Ref()
    if isinstance(lst, Ref) and st.heap[lst.cid].items is not None and is_const(n) and isinstance(cval(n), int) and cval(n) <= 16:
        return I.alloc(st, "list", items=list(st.heap[lst.cid].items) * cval(n))
    if tl.op == "list" and len(tl.args) == 1:
        k = fresh_bv()
        return I.alloc(st, "list", mk("map", n, k, tl.args[0], TRUE))
    return I.alloc(st, "list", mk("repeat", tl, n))


def compare(I, a, op, b, st):
    from .interp import Phi, Fn
    Ref = I_Ref()
    if isinstance(a, Phi):
        return Ite(a.c, compare(I, a.a, op, b, st), compare(I, a.b, op, b, st))
    if isinstance(b, Phi):
        return Ite(b.c, compare(I, a, op, b.a, st), compare(I, a, op, b.b, st))
    if op in ("In", "NotIn"):
        r = contains_(I, a, b, st)
        return r if op == "In" else Not(r)
    if isinstance(a, Ref) and st.heap[a.cid].kind == "inst" and op in ("Eq", "NotEq"):
        m = st.heap[a.cid].cls.lookup("__eq__")[0] if st.heap[a.cid].cls else None
        if m is not None:
            r = truth(I.tm(I.call(m.bind(a), [b], {}, st), st))
            return r if op == "Eq" else Not(r)
    if op in ("Is", "IsNot"):
        ta, tb = I.tm(a, st), I.tm(b, st)
        if isinstance(a, Ref) and b is NONE or isinstance(b, Ref) and a is NONE:
            r0 = a if isinstance(a, Ref) else b
            if st.heap[r0.cid].kind in ("list", "dict", "set", "tuple", "inst", "arr", "iter"):
                # a container is never None, unless its value is a join
                tv = I.tm(r0, st)
                if tv.op != "ite":
                    return FALSE if op == "Is" else TRUE
        if tb is NONE or ta is NONE:
            r = Eq(ta, tb)
        elif isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid:
            r = TRUE
        elif ta.op == "const" and tb.op == "const":
            r = const(cval(ta) is cval(tb) or (type(cval(ta)) is type(cval(tb)) and cval(ta) == cval(tb)))
        elif S._constlike(ta) and S._constlike(tb):
            r = Eq(ta, tb)
        elif tb in (TRUE, FALSE):
            r = Eq(ta, tb) if ta.op not in S.BOOLOPS else (ta if tb is TRUE else Not(ta))
        else:
            r = mk("is", ta, tb)
        return r if op == "Is" else Not(r)
    if op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
        ka, kb = kind_of(I, a, st), kind_of(I, b, st)
        if "set" in (ka, kb) and ka in ("set", "list") and kb in ("set", "list"):
            r = set_relation(I, op, a, b, st)
            if r is not None:
                return r
    ta, tb = I.tm(a, st), I.tm(b, st)
    if op in ("Eq", "NotEq") and tb in (TRUE, FALSE) and ta.op in S.BOOLOPS:
        r = ta if tb is TRUE else Not(ta)
        return r if op == "Eq" else Not(r)
    if op == "Eq":
        return Eq(ta, tb)
    if op == "NotEq":
        return Not(Eq(ta, tb))
    if op == "Lt":
        return Lt(ta, tb)
    if op == "LtE":
        return Le(ta, tb)
    if op == "Gt":
        return Lt(tb, ta)
    if op == "GtE":
        return Le(tb, ta)
    raise AssertionError(op)


def contains_(I, x, s, st):
    from .interp import ClassV
    Ref = I_Ref()
    xt = I.tm(x, st)
    if isinstance(s, ClassV) and s.is_enum:
        return Or(*[Eq(xt, s.env[k]) for k in s.order])
    if isinstance(s, Ref):
        c = st.heap[s.cid]
        if c.kind == "inst" and c.cls is not None:
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return truth(I.tm(I.call(m.bind(s), [x], {}, st), st))
        if c.kind == "dict" and c.items is not None:
            return Or(*[Eq(xt, k) for k in c.items])
        if c.items is not None and c.kind in ("list", "set", "tuple"):
            return Or(*[Eq(xt, I.tm(y, st)) for y in c.items])
    return In(xt, I.tm(s, st))


# ------------------------------------------------------------------ subscripts
def norm_index(k):
    """Canonical index: masks as position lists, trailing full slices dropped."""
    if k.op == "tuple":
        xs = [norm_index1(x) for x in k.args]
        while len(xs) > 1 and xs[-1] is FULL:
            xs.pop()
        return xs[0] if len(xs) == 1 else mk("tuple", *xs)
    return norm_index1(k)


def norm_index1(x):
    if x.op in S.BOOLOPS and x.op not in ("in", "isnone"):
        return mk("nz", x)
    if x.op == "slice":
        lo, hi, step = x.args
        if lo is ZERO:
            lo = NONE
        if step is ONE:
            step = NONE
        return mk("slice", lo, hi, step)
    if x.op == "tuple" and len(x.args) == 1 and x.args[0].op == "nz":
        return x.args[0]
    if x.op == "nztuple":
        return mk("nz", x.args[0])
    return x


def getitem(I, b, k, st):
    """Term of b[k]."""
    if b.op == "shape" and is_num(k) and isinstance(cval(k), int) and cval(k) >= 0:
        return dim(b.args[0], cval(k))
    if b.op == "nztuple" and is_const(k, 0):
        return mk("nz", b.args[0])
    if b.op == "unzip" and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
        j = fresh_bv()
        return mk_map(iter_len(b.args[0]), j, getitem(I, elem_of(b.args[0], j), k, st), TRUE)
    if b.op == "lstsq" and is_const(k, 0):
        return MatMul(mk("pinv", b.args[0]), b.args[1])
    if b.op == "eigh":
        if is_const(k, 0):
            return mk("eigvals", *b.args)
        if is_const(k, 1):
            return mk("eigvecs", *b.args)
    if getattr(I, "try_depth", 0) and not I.quiet:
        implicit_lookup_error(I, b, k, st)
    array_like = rep_(b) in ("dense", "sparse") or (rep_(b) == "unk" and k.op in ("tuple", "slice") or k.op in S.BOOLOPS)
    if array_like or rep_(b) == "unk":
        k = norm_index(k)
    if array_like and b.op == "idx" and rep_(b.args[0]) in ("dense",) and ndim(b.args[0]) is not None:
        # x[i][j] is x[i, j] for an integer i
        i = b.args[1]
        ii = list(i.args) if i.op == "tuple" else [i]
        if all(x.op in ("bv", "const", "index") or S.is_intlike(x) for x in ii) and len(ii) < ndim(b.args[0]):
            kk = list(k.args) if k.op == "tuple" else [k]
            return getitem(I, b.args[0], mk("tuple", *(ii + kk)), st)
    if array_like and k is FULL:
        return b
    if rep_(b) == "seq" and k is FULL:
        return b
    if b.op == "range" and k.op == "slice":
        return mk("idx", b, k)
    # negative constant index of a sequence of known symbolic length
    if b.op in ("map",) and is_num(k) and cval(k) < 0 and b.args[3] is TRUE:
        return subst(b.args[2], {b.args[1]: Add(b.args[0], k)})
    return Idx(b, k)


def implicit_lookup_error(I, b, k, st):
    r = rep_(b)
    if k.op in ("slice", "tuple") and r != "dict":
        return
    if r == "dict" or (r == "unk" and k.op == "const" and isinstance(cval(k), str)):
        I.raise_(st, "KeyError", Not(In(k, b)), implicit=True)
        I.try_modelled = True
    elif is_num(k) and isinstance(cval(k), int) and r in ("unk", "seq", "dense"):
        n = cval(k) + 1 if cval(k) >= 0 else -cval(k)
        I.raise_(st, "IndexError", Lt(Len(b), const(n)), implicit=True)
        I.try_modelled = True


# ------------------------------------------------------------------ containers
def upd(I, st, r, val=None, items=None):
    c = st.heap[r.cid]
    if items is not None:
        st.heap[r.cid] = c.rep(items=items, val=None)
        nv = I.tm(r, st)
    else:
        I.note(val)
        st.heap[r.cid] = c.rep(val=val, items=None)
        nv = val
    I.store_through(st, c, nv)


def container_method(I, b, name, args, kw, st):
    from .interp import Phi
    Ref = I_Ref()
    if isinstance(b, Phi):
        return I.both(b, st, lambda v, s: container_method(I, v, name, args, kw, s))
    if not isinstance(b, Ref):
        return const(None) if name in ("append", "extend") else mk("mcall", I.tm(b, st), name, *[I.tm(a, st) for a in args])
    c = st.heap[b.cid]
    kind = kind_of(I, b, st)
    ts = [I.tm(a, st) for a in args]
    cur = I.cell_term(c, st)
    if name in MUTATORS:
        I.effect(st, b, name, ts[0] if ts else None)
    if name == "append":
        if c.kind == "list" and c.items is not None:
            upd(I, st, b, items=list(c.items) + [args[0]])
        else:
            upd(I, st, b, Cat(cur, mk("list", ts[0])))
        return NONE
    if name == "extend":
        its = I.known_items(args[0], st)
        if c.kind == "list" and c.items is not None and its is not None:
            upd(I, st, b, items=list(c.items) + its)
        else:
            upd(I, st, b, Cat(cur, mk("list", *[I.tm(x, st) for x in its]) if its is not None else seq_term(I, args[0], st)))
        return NONE
    if name == "insert":
        if c.kind == "list" and c.items is not None and is_const(ts[0]) and isinstance(cval(ts[0]), int):
            items = list(c.items)
            items.insert(cval(ts[0]), args[1])
            upd(I, st, b, items=items)
        elif is_const(ts[0], 0):
            upd(I, st, b, Cat(mk("list", ts[1]), cur))
        else:
            upd(I, st, b, mk("inserted", cur, *ts))
        return NONE
    if name == "index":
        I.raise_(st, "ValueError", Not(In(ts[0], cur)), implicit=True)
        I.try_modelled = True
        return Index(cur, ts[0])
    if name == "count":
        if cur.op == "list" and ts[0].op == "const" and all(y.op == "const" for y in cur.args):
            return const(sum(1 for y in cur.args if Eq(ts[0], y) is TRUE))
        return mk("countof", cur, ts[0])
    if name == "sort":
        upd(I, st, b, sort_term(I, cur, kw, st))
        return NONE
    if name == "reverse":
        if c.items is not None:
            upd(I, st, b, items=list(reversed(c.items)))
        else:
            upd(I, st, b, mk("reversed", cur))
        return NONE
    if name == "clear":
        upd(I, st, b, items={} if kind == "dict" else [])
        return NONE
    if name == "copy":
        if c.items is not None:
            return I.alloc(st, c.kind, items=dict(c.items) if isinstance(c.items, dict) else list(c.items))
        return I.alloc(st, c.kind if c.kind != "unk" else "unk", cur)
    if name == "remove" and kind == "list" and c.items is not None and ts[0] in c.items and all(isinstance(x, T) and x.op == "const" for x in c.items):
        items = list(c.items)
        items.remove(ts[0])
        upd(I, st, b, items=items)
        return NONE
    if name == "remove" and kind != "dict":
        upd(I, st, b, mk("removed", cur, ts[0]))
        return NONE
    if name == "pop" and kind == "list":
        if c.items is not None and (not ts or is_const(ts[0])) and c.items:
            items = list(c.items)
            v = items.pop(cval(ts[0]) if ts else -1)
            upd(I, st, b, items=items)
            return v
        upd(I, st, b, mk("popped", cur, *ts))
        return Idx(cur, ts[0] if ts else const(-1))
    if kind == "dict" or name in ("keys", "values", "items", "get", "setdefault", "popitem"):
        r = dict_method(I, b, c, cur, name, args, ts, kw, st)
        if r is not None:
            return r
    if kind == "set" or name in ("add", "discard", "union"):
        r = set_method(I, b, c, cur, name, args, ts, kw, st)
        if r is not None:
            return r
    if name == "__delitem__":
        if c.kind == "dict" and c.items is not None and ts[0] in c.items:
            items = dict(c.items)
            items.pop(ts[0])
            upd(I, st, b, items=items)
        else:
            upd(I, st, b, mk("deleted", cur, ts[0]))
        return NONE
    return None


def dict_method(I, b, c, cur, name, args, ts, kw, st):
    known = c.kind == "dict" and c.items is not None
    if name == "keys":
        return I.alloc(st, "list", items=list(c.items)) if known else I.alloc(st, "list", keys_of(cur))
    if name == "values":
        if known:
            return I.alloc(st, "list", items=list(c.items.values()), base=())
        return I.alloc(st, "list", mk("vals", cur), base=(b.cid,))
    if name == "items":
        if known:
            out = []
            for k, v in c.items.items():
                out.append(mk("tuple", k, v) if isinstance(v, T) else I.alloc(st, "tuple", items=[k, v]))
            return I.alloc(st, "list", items=out)
        return I.alloc(st, "list", mk("items", cur), base=(b.cid,))
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        cond = contains_(I, args[0], b, st)
        cond = I.known(cond, st)
        if cond is FALSE:
            return d
        if cond is TRUE:
            return I.getitem(b, args[0], st)
        return I.branch(st, cond, lambda s: I.getitem(b, args[0], s), lambda s: d)
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        cond = I.known(contains_(I, args[0], b, st), st)
        if cond is TRUE:
            return I.getitem(b, args[0], st)
        if cond is FALSE:
            q = I.quiet
            I.setitem(b, args[0], d, st)
            return d
        nv = Ite(In(ts[0], cur), cur, mk("store", cur, ts[0], I.tm(d, st)))
        old = cur
        upd(I, st, b, nv)
        return I.view(st, Ite(In(ts[0], old), Idx(old, ts[0]), I.tm(d, st)), b)
    if name == "update":
        src = args[0] if args else None
        if src is not None:
            its = None
            Ref = I_Ref()
            if isinstance(src, Ref) and st.heap[src.cid].kind == "dict" and st.heap[src.cid].items is not None:
                for k, v in list(st.heap[src.cid].items.items()):
                    I.setitem(b, k, v, st)
            elif I.tm(src, st).op in ("list", "tuple") and all(x.op == "tuple" for x in I.tm(src, st).args):
                for x in I.tm(src, st).args:
                    I.setitem(b, x.args[0], x.args[1], st)
            else:
                other = to_dict_term(I, src, st)
                cur = I.cell_term(st.heap[b.cid], st)
                if cur.op == "dict" and not cur.args:
                    upd(I, st, b, other)
                elif other.op == "scatter" and other.args[0].op == "dict" and not other.args[0].args:
                    upd(I, st, b, Scatter(cur, *other.args[1:]))
                else:
                    upd(I, st, b, mk("dupdate", cur, other))
        for k, v in kw.items():
            if k != "**":
                I.setitem(b, const(k), v, st)
        return NONE
    if name == "pop":
        if known and ts[0] in c.items:
            items = dict(c.items)
            v = items.pop(ts[0])
            upd(I, st, b, items=items)
            return v
        upd(I, st, b, mk("deleted", cur, ts[0]))
        if len(args) > 1:
            if known and S._constlike(ts[0]) and all(S._constlike(x) for x in c.items):
                return args[1]
            return I.join(In(ts[0], cur), Idx(cur, ts[0]), args[1], st)
        return Idx(cur, ts[0])
    return None


def to_dict_term(I, v, st):
    t = I.tm(v, st)
    if rep_(t) == "dict":
        return t
    k = kind_of(I, v, st)
    if k in ("list", "iter") and t.op not in ("unk",):
        return dict_of_pairs(t)
    return t


def dict_of_pairs(t):
    if t.op in ("list", "tuple") and all(x.op == "tuple" and len(x.args) == 2 for x in t.args):
        return mk("dict", *[mk("kv", *x.args) for x in t.args])
    if t.op in ("map", "zipped", "items"):
        if t.op == "items":
            return t.args[0]
        if t.op == "zipped":
            k = fresh_bv()
            D = zip_len(t.args)
            body, cond = mk("tuple", *[elem_of(x, k) for x in t.args]), TRUE
        else:
            D, k, body, cond = t.args
        if body.op == "tuple" and len(body.args) == 2:
            return Scatter(mk("dict"), mk("entry", cond, body.args[0], body.args[1], NONE, mk("bind", D, k)))
    return mk("call", "dict", t)


def set_algebra(I, op, a, b, st):
    """Sets (and key views) of known constants."""
    xs, ys = I.known_items(a, st), I.known_items(b, st)
    if xs is None or ys is None or not all(isinstance(x, T) and x.op == "const" for x in xs + ys):
        return None
    xs, ys = list(dict.fromkeys(xs)), list(dict.fromkeys(ys))
    if op == "BitOr":
        out = xs + [y for y in ys if y not in xs]
    elif op == "BitAnd":
        out = [x for x in xs if x in ys]
    elif op == "Sub":
        out = [x for x in xs if x not in ys]
    else:
        out = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
    return I.alloc(st, "set", items=out)


def set_relation(I, op, a, b, st):
    """Inclusion and equality of sets; of known constants it is decided."""
    if op in ("Gt", "GtE"):
        return set_relation(I, "Lt" if op == "Gt" else "LtE", b, a, st)
    xs, ys = I.known_items(a, st), I.known_items(b, st)
    if xs is not None and ys is not None and all(isinstance(x, T) and x.op == "const" for x in list(xs) + list(ys)):
        xs, ys = set(xs), set(ys)
        return const({"Eq": xs == ys, "NotEq": xs != ys, "Lt": xs < ys, "LtE": xs <= ys}[op])
    ta, tb = I.tm(a, st), I.tm(b, st)
    if op == "LtE":
        return truth(mk("call", "set.issubset", ta, tb))
    if op == "Lt":
        return And(truth(mk("call", "set.issubset", ta, tb)), Not(Eq(ta, tb)))
    return None


def set_method(I, b, c, cur, name, args, ts, kw, st):
    algebra = {"union": "BitOr", "update": "BitOr", "difference": "Sub", "difference_update": "Sub", "intersection": "BitAnd", "symmetric_difference": "BitXor"}
    if name in algebra and c.items is not None and args:
        r = b
        for x in args:
            r = set_algebra(I, algebra[name], r, x, st)
            if r is None:
                break
        else:
            if not name.endswith("update"):
                return r
            upd(I, st, b, items=list(st.heap[r.cid].items))
            return NONE
    if name in ("discard", "remove") and c.items is not None and ts[0] in c.items and all(isinstance(x, T) and x.op == "const" for x in c.items):
        upd(I, st, b, items=[x for x in c.items if x is not ts[0]])
        return NONE
    if name == "add":
        if cur.op == "set" and ts[0] in cur.args:
            return NONE
        if c.items is not None and all(S._constlike(I.tm(x, st)) for x in c.items) and S._constlike(ts[0]):
            upd(I, st, b, items=list(c.items) + [args[0]])
        else:
            upd(I, st, b, mk("sadd", cur, ts[0]))
        return NONE
    if name in ("update", "union"):
        t = cur
        for a in args:
            t = mk("union", t, set_term(I, a, st))
        if name == "union":
            return I.alloc(st, "set", t)
        upd(I, st, b, t)
        return NONE
    if name in ("discard", "remove"):
        upd(I, st, b, mk("removed", cur, ts[0]))
        return NONE
    if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 1:
        xs, ys = I.known_items(b, st), I.known_items(args[0], st)
        if xs is not None and ys is not None and all(isinstance(x, T) and x.op == "const" for x in list(xs) + list(ys)):
            return const(getattr(set(xs), name)(set(ys)))
    if name in ("isdisjoint", "issubset") and cur.op == "set" and len(ts) == 1:
        xs = [mk("in", x, ts[0]) for x in cur.args]
        return S.Not(S.Or(*xs)) if name == "isdisjoint" else S.And(*xs)
    if name in ("difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
        return wrap(I, st, mk("call", "set." + name, cur, *ts))
    return None


def set_term(I, v, st):
    t = seq_term(I, v, st)
    return set_of(t)


def set_of(t):
    if rep_(t) == "set":
        return t
    if t.op in ("list", "tuple"):
        out = []
        for x in t.args:
            if x not in out:
                out.append(x)
        return mk("set", *out)
    if t.op == "map":
        return mk("setmap", *t.args)
    if t.op == "cat":
        r = set_of(t.args[0])
        for x in t.args[1:]:
            r = mk("union", r, set_of(x))
        return r
    if t.op in ("sorted", "listof", "tupleof", "reversed"):
        return set_of(t.args[0])
    return mk("setof", t)


MUTATORS = {"append", "extend", "insert", "sort", "reverse", "clear", "remove", "pop", "add", "update", "discard",
            "setdefault", "popitem", "__delitem__"}


def sort_term(I, t, kw, st):
    key = kw.get("key")
    rev = I.tm(kw["reverse"], st) if "reverse" in kw else FALSE
    if key is None or key is NONE:
        r = mk("sorted", t)
    else:
        r = mk("sortedby", t, lam(I, key, 1, st))
    if rev is FALSE:
        return r
    return mk("sorteddesc", r, rev)


def lam(I, f, n, st):
    """A function value as a closed term, by analysing its body on fresh bound variables."""
    ks = [fresh_bv() for _ in range(n)]
    try:
        s = st.copy()
        v = I.call(f, list(ks), {}, s)
        body = I.tm(v, s)
    except Exception:
        return I.tm(f, st)
    for k in reversed(ks):
        body = mk("lam", k, body)
    return body


def __getattr__(name):
    # the library models live in lib.py
    from . import lib
    try:
        return getattr(lib, name)
    except AttributeError:
        raise AttributeError(name) from None
