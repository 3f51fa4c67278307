"""Models of builtins, library functions and methods."""
from __future__ import annotations

from . import simplify as S
from .models import *          # noqa: F401,F403
from .models import (I_Ref, MUTATORS, _repeat, alias, compare, concat_str, container_method, dict_of_pairs, elem_of,
                     getitem, iter_desc, iter_len, keys_of, kind_of, lam, mat_pow, mk_map, norm_index, seq_term,
                     set_of, set_term, sort_term, to_dict_term, wrap, zip_len)
from .shapes import REPS, SHAPES, dim, ndim, rep as rep_, shape
from .simplify import (FULL, Add, And, Cat, Div, Eq, Idx, In, Index, IsNone,
                       Ite, Le, Len, Lt, MatMul, Mul, Neg, Not, Or, Pow,
                       Scatter, Sub, Tr, truth)
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, T, const, cval, fresh_bv, subterms,
                    fresh_id, is_const, is_num, mk, subst, sym)

FLOAT_TYPES = {"builtins.float", "numpy.float64", "torch.float32", "torch.float64", "torch.float", "torch.double",
               "numpy.floating"}
# types that hold fewer numbers than float64
NARROW = {"numpy." + n for n in ("float16", "half", "float32", "single", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "bool_")}

# library modules whose functions have no effect besides their result
PURE_PREFIX = ("numpy.", "scipy.", "math.", "itertools.", "functools.", "operator.", "collections.", "copy.",
               "torch.", "typing.", "abc.", "enum.", "sklearn.", "torcheval.", "statistics.", "string.", "re.",
               "inspect.", "dataclasses.", "networkx.", "gpytorch.", "warnings.")


def type_name(I, v, st):
    from .interp import ClassV, ExtV
    if isinstance(v, ExtV):
        return v.name
    if isinstance(v, ClassV):
        return "class:" + v.name
    t = I.tm(v, st)
    if t.op == "const" and isinstance(cval(t), str):
        return "numpy." + cval(t)
    if t.op == "attr" and t.args[1] == "dtype" and isinstance(v, I_Ref()) and isinstance(st.heap[v.cid].extra, tuple) and st.heap[v.cid].extra[0] == "bound":
        return element_type(I, st.heap[v.cid].extra[1], t.args[0])
    return None


def element_type(I, v, x):
    """The element type of an array if it is not known to be float64."""
    cid = getattr(v, "cid", None)
    if cid in I.elements:
        return I.elements[cid]
    if x.op == "sym" and cid is not None and cid not in I.floats and x in SHAPES and rep_(x) not in ("sparse", "scalar"):
        return "element type of " + str(x.args[0])
    return None


def ts_of(I, args, st):
    return [I.tm(a, st) for a in args]


def fresh_rnd(I):
    I.rnd += 1
    return mk("rnd", I.rnd, *[k for _, k in I.loops])


def fn_term(I, v, st):
    """A small pure function given to a library is compared by what it computes."""
    import ast
    from .interp import FuncV
    if not isinstance(v, FuncV) or not (isinstance(v.node, ast.Lambda) or v.fid is not None):
        return I.tm(v, st)
    a = v.node.args
    n = len(a.posonlyargs) + len(a.args) - len(v.defaults) - (1 if v.bound is not None else 0)
    if n < 1 or a.vararg or a.kwarg:
        return I.tm(v, st)
    from .models import lam
    marks = (len(I.exc), len(I.events), len(I.effects), I.rnd)
    t = lam(I, v, n, st)
    if (len(I.exc), len(I.events), len(I.effects), I.rnd) != marks:
        del I.exc[marks[0]:], I.events[marks[1]:], I.effects[marks[2]:]
        I.rnd = marks[3]
        return I.tm(v, st)
    return t


def kwterms(I, kw, st):
    return [mk("kw", k, I.tm(v, st)) for k, v in sorted(kw.items())]


# ------------------------------------------------------------------ builtins
def columns(I, t, st):
    """zip(*rows): the first members of all rows, then the second ones, ..."""
    if t.op == "items":
        return I.alloc(st, "iter", items=[I.alloc(st, "tuple", keys_of(t.args[0])), I.alloc(st, "tuple", mk("vals", t.args[0]))])
    if t.op == "map" and t.args[2].op == "tuple":
        return I.alloc(st, "iter", items=[I.alloc(st, "tuple", mk_map(t.args[0], t.args[1], x, t.args[3])) for x in t.args[2].args])
    return I.alloc(st, "iter", mk("unzip", t))


def call_builtin(I, name, args, kw, st):
    from .interp import ClassV, ExtV, Fn, FuncV, PartialV, Phi, PropV, StaticV
    Ref = I_Ref()
    if args and isinstance(args[0], Phi) and name in ("len", "list", "dict", "sorted", "sum", "set", "tuple"):
        return I.both(args[0], st, lambda v, s: call_builtin(I, name, [v] + list(args[1:]), kw, s))
    ts = None

    def t(i):
        return I.tm(args[i], st)

    if name == "len":
        v = args[0]
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.items is not None:
                return const(len(c.items))
            if c.kind == "inst" and c.cls:
                m, _ = c.cls.lookup("__len__")
                if m is not None:
                    return I.call(m.bind(v), [], {}, st)
        if isinstance(v, ClassV) and v.is_enum:
            return const(len(v.order))
        x = t(0)
        if rep_(x) == "dict" and x.op != "dict":
            return Len(keys_of(x))
        return dim(x, 0) if rep_(x) in ("dense", "sparse", "unk") else iter_len(x)
    if name == "range":
        a = ts_of(I, args, st)
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        return mk("range", a[0], a[1], a[2] if len(a) > 2 else ONE)
    if name in ("list", "tuple", "iter"):
        kind = "tuple" if name == "tuple" else "list"
        if not args:
            return I.alloc(st, "list", items=[]) if kind == "list" else mk("tuple")
        its = I.known_items(args[0], st)
        if its is not None:
            if kind == "tuple" and all(isinstance(x, T) for x in its):
                return mk("tuple", *its)
            return I.alloc(st, kind, items=list(its))
        x = seq_term(I, args[0], st)
        if kind == "list" and rep_(x) == "set":
            return I.alloc(st, "list", mk("listof", x))
        if kind == "tuple":
            return mk("tupleof", x) if rep_(x) != "seq" or True else x
        r = I.alloc(st, "list", x if rep_(x) == "seq" else mk("listof", x))
        # the elements are shared with the source
        return r
    if name == "dict":
        d = I.alloc(st, "dict", items={})
        if args:
            src = args[0]
            if isinstance(src, Ref) and st.heap[src.cid].kind == "dict":
                c = st.heap[src.cid]
                if c.items is not None:
                    d = I.alloc(st, "dict", items=dict(c.items))
                else:
                    d = I.alloc(st, "dict", c.val)
                    shallow(I, st, d, src)
            else:
                its = I.known_items(src, st)
                pairs = None
                if its is not None:
                    pairs = {}
                    for p in its:
                        q = I.known_items(p, st)
                        if q is None or len(q) != 2:
                            pairs = None
                            break
                        pairs[I.tm(q[0], st)] = q[1]
                if pairs is not None:
                    d = I.alloc(st, "dict", items=pairs)
                else:
                    d = I.alloc(st, "dict", to_dict_term(I, src, st))
        for k, v in kw.items():
            if k == "**":
                cur = I.tm(d, st)
                d = I.alloc(st, "dict", I.tm(v, st) if cur.op == "dict" and not cur.args else mk("dupdate", cur, I.tm(v, st)))
            else:
                I.setitem(d, const(k), v, st)
        return d
    if name in ("set", "frozenset"):
        if not args:
            return I.alloc(st, "set", items=[])
        its = I.known_items(args[0], st)
        if its is not None:
            out = []
            for x in its:
                if x not in out:
                    out.append(x)
            return I.alloc(st, "set", items=out)
        return I.alloc(st, "set", set_term(I, args[0], st))
    if name == "enumerate":
        start = I.tm(args[1], st) if len(args) > 1 else I.tm(kw["start"], st) if "start" in kw else ZERO
        its = I.known_items(args[0], st)
        if its is not None and start.op == "const":
            out = []
            for i, x in enumerate(its):
                n = const(cval(start) + i)
                out.append(mk("tuple", n, x) if isinstance(x, T) else I.alloc(st, "tuple", items=[n, x]))
            return I.alloc(st, "iter", items=out)
        x = seq_term(I, args[0], st)
        D, el = iter_desc(I, x if kind_of(I, args[0], st) != "inst" else args[0], st)
        k = fresh_bv()
        return I.alloc(st, "iter", mk("map", D, k, mk("tuple", Add(start, k), I.tm(el(k, st), st)), TRUE), base=I.bases_of(args[0]))
    if name == "zip":
        lists = [I.known_items(a, st) for a in args]
        if all(x is not None for x in lists):
            out = []
            for tup in zip(*lists):
                out.append(mk("tuple", *tup) if all(isinstance(x, T) for x in tup) else I.alloc(st, "tuple", items=list(tup)))
            return I.alloc(st, "iter", items=out)
        sizes = {len(x) for x in lists if x is not None}
        if sizes and all(x is not None or S.subplot_grid(I.tm(a, st)) for a, x in zip(args, lists)):
            # the grid of subplots has an axes object for each of the others
            lists = [x if x is not None else [I.getitem(a, const(i), st) for i in range(min(sizes))] for a, x in zip(args, lists)]
            return I.alloc(st, "iter", items=[I.alloc(st, "tuple", items=list(tup)) for tup in zip(*lists)])
        if len(args) == 1 and isinstance(args[0], T) and args[0].op == "star":
            return columns(I, args[0].args[0], st)
        bases = tuple(b for a in args for b in I.bases_of(a))
        return I.alloc(st, "iter", mk("zipped", *[seq_term(I, a, st) for a in args]), base=bases)
    if name == "sorted":
        its = I.known_items(args[0], st)
        if its is not None and not kw and all(is_const(x) for x in its):
            try:
                return I.alloc(st, "list", items=[const(x) for x in sorted(cval(y) for y in its)])
            except TypeError:
                pass
        return I.alloc(st, "list", sort_term(I, seq_term(I, args[0], st), kw, st))
    if name == "reversed":
        its = I.known_items(args[0], st)
        if its is not None:
            return I.alloc(st, "iter", items=list(reversed(its)))
        return I.alloc(st, "iter", mk("reversed", seq_term(I, args[0], st)))
    if name == "sum":
        its = I.known_items(args[0], st)
        start = args[1] if len(args) > 1 else kw.get("start")
        if its is not None:
            v = start if start is not None else ZERO
            for x in its:
                v = I.binop(v, "Add", x, st)
            return v
        x = t(0)
        st0 = I.tm(start, st) if start is not None else ZERO
        if x.op == "map":
            D, k, body, cond = x.args
            b = body if cond is TRUE else Ite(cond, body, ZERO)
            return wrap(I, st, Add(st0, mk("sum", D, k, b)))
        if start is None:
            k = fresh_bv()
            D, el = iter_desc(I, x, st)
            return wrap(I, st, mk("sum", D, k, I.tm(el(k, st), st)))
        return mk("call", "sum", x, st0)
    if name in ("min", "max"):
        if len(args) == 1:
            its = I.known_items(args[0], st)
            if its is not None and its and not kw:
                args = its
            else:
                x = seq_term(I, args[0], st)
                if kw:
                    return mk("call", name, x, *kwterms(I, {k: v for k, v in kw.items() if k != "key"}, st),
                              *([mk("kw", "key", lam(I, kw["key"], 1, st))] if "key" in kw else []))
                return mk(name + "of", set_of(x) if x.op in ("listof", "sorted") else x)
        a = ts_of(I, args, st)
        if all(is_num(x) for x in a):
            return const((min if name == "min" else max)(cval(x) for x in a))
        if "key" in kw:
            return mk("call", name, *a, mk("kw", "key", lam(I, kw["key"], 1, st)))
        return mk(name + "of", mk("set", *sorted(set(a), key=lambda z: z.uid)))
    if name == "abs":
        x = t(0)
        if is_num(x):
            return const(abs(cval(x)))
        return wrap(I, st, mk("abs", x))
    if name in ("any", "all"):
        its = I.known_items(args[0], st)
        if its is not None:
            cs = [I.truth_of(x, st) for x in its]
            return (Or if name == "any" else And)(*cs)
        x = t(0)
        if x.op == "map":
            D, k, body, cond = x.args
            b = truth(body)
            if cond is not TRUE:
                b = And(cond, b) if name == "any" else Or(Not(cond), b)
            return S.rebuild_q(name, D, k, b)
        k = fresh_bv()
        D, el = iter_desc(I, x, st)
        return S.rebuild_q(name, D, k, truth(I.tm(el(k, st), st)))
    if name == "isinstance":
        return isinstance_(I, args[0], args[1], st)
    if name == "print":
        I.event(st, "builtins.print", None, list(args), {})
        return NONE
    if name == "map":
        its = I.known_items(args[1], st)
        if its is not None and len(args) == 2:
            return I.alloc(st, "list", items=[I.call(args[0], [x], {}, st) for x in its])
        if len(args) == 2:
            D, el = iter_desc(I, args[1], st)
            k = fresh_bv()
            I.loops.append((D, k))
            try:
                v = I.call(args[0], [el(k, st)], {}, st)
            finally:
                I.loops.pop()
            return I.alloc(st, "list", mk_map(D, k, I.tm(v, st)))
    if name == "filter":
        its = I.known_items(args[1], st)
        if its is not None:
            cs = [truth(I.tm(I.call(args[0], [x], {}, st), st)) if args[0] is not NONE else I.truth_of(x, st) for x in its]
            if all(c in (TRUE, FALSE) for c in cs):
                return I.alloc(st, "list", items=[x for x, c in zip(its, cs) if c is TRUE])
        D, el = iter_desc(I, args[1], st)
        k = fresh_bv()
        x = el(k, st)
        c = truth(I.tm(I.call(args[0], [x], {}, st), st)) if args[0] is not NONE else I.truth_of(x, st)
        return I.alloc(st, "list", mk_map(D, k, I.tm(x, st), c))
    if name == "str":
        if not args:
            return const("")
        x = t(0)
        if x.op == "const" and not isinstance(cval(x), S.Uniq):
            return const(str(cval(x)))
        return x if rep_(x) == "str" else mk("str", mk("fmt", x))
    if name in ("int", "float", "bool"):
        if not args:
            return const({"int": 0, "float": 0.0, "bool": False}[name])
        x = t(0)
        if name == "bool":
            return truth(x) if not isinstance(args[0], Ref) else I.truth_of(args[0], st)
        if is_num(x):
            return const(int(cval(x)) if name == "int" else float(cval(x)))
        if x in (TRUE, FALSE):
            return (ONE if name == "int" else const(1.0)) if x is TRUE else (ZERO if name == "int" else const(0.0))
        if name == "int" and S._isbool(x) and x.op != "red":
            return S.Ite(x, ONE, ZERO)
        if name == "int" and S.is_intlike(x):
            return x
        return mk("call", name, x)
    if name == "round":
        x = t(0)
        nd = I.tm(args[1], st) if len(args) > 1 else I.tm(kw["ndigits"], st) if "ndigits" in kw else ZERO
        return wrap(I, st, mk("round", x, nd))
    if name == "next":
        its = I.known_items(args[0], st)
        if its:
            return its[0]
        x = seq_term(I, args[0], st)
        if len(args) > 1:
            if x.op == "map":
                D, k, body, cond = x.args
                q = S.rebuild_q("any", D, k, cond)
                return I.join(q, mk("first", D, k, cond, body), args[1], st)
            return I.join(Not(Eq(Len(x), ZERO)), Idx(x, ZERO), args[1], st)
        if x.op == "map":
            D, k, body, cond = x.args
            q = S.rebuild_q("any", D, k, cond)
            I.raise_(st, "StopIteration", Not(q), implicit=True)
            return mk("first", D, k, cond, body)
        return Idx(x, ZERO)
    if name == "type":
        v = args[0]
        if isinstance(v, Ref) and st.heap[v.cid].cls is not None:
            return st.heap[v.cid].cls
        return mk("call", "type", t(0))
    if name == "getattr":
        n = t(1)
        if n.op == "const" and isinstance(cval(n), str) and not isinstance(cval(n), S.Uniq):
            v = args[0]
            if len(args) > 2:
                if isinstance(v, Ref) and st.heap[v.cid].kind == "inst" and st.heap[v.cid].val is None:
                    c = st.heap[v.cid]
                    if cval(n) not in c.attrs and c.cls.lookup(cval(n))[0] is None:
                        return args[2]
                elif isinstance(v, ClassV) and v.lookup(cval(n))[0] is None:
                    return args[2]
            return I.getattr(v, cval(n), st)
        return mk("call", "getattr", t(0), n)
    if name == "setattr":
        n = t(1)
        if n.op == "const":
            I.setattr(args[0], cval(n), args[2], st)
        else:
            I.effect(st, args[0], "setattr")
            v = args[0]
            if isinstance(v, Ref) and st.heap[v.cid].kind == "inst" and st.heap[v.cid].val is None:
                # any of the attributes may be another now
                c = st.heap[v.cid]
                st.heap[v.cid] = c.rep(val=mk("call", "setattr", t(0), n, t(2)), attrs={})
        return NONE
    if name == "hasattr":
        n = t(1)
        v = args[0]
        if n.op == "const" and isinstance(v, Ref) and st.heap[v.cid].kind == "inst" and st.heap[v.cid].val is None:
            c = st.heap[v.cid]
            return const(cval(n) in c.attrs or c.cls.lookup(cval(n))[0] is not None)
        return mk("truthy", mk("call", "hasattr", t(0), n))
    if name == "open":
        a = ts_of(I, args, st)
        I.event(st, "builtins.open", None, a, {k: I.tm(v, st) for k, v in kw.items()})
        return I.unk(st, mk("call", "open", *a, *kwterms(I, kw, st)))
    if name == "property":
        return PropV(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))
    if name in ("staticmethod", "classmethod"):
        return StaticV(args[0], name[:-6])
    if name == "callable":
        return TRUE if isinstance(args[0], Fn) else mk("truthy", mk("call", "callable", t(0)))
    if name == "pow":
        return I.binop(args[0], "Pow", args[1], st)
    if name == "divmod":
        return mk("tuple", I.tm(I.binop(args[0], "FloorDiv", args[1], st), st), I.tm(I.binop(args[0], "Mod", args[1], st), st))
    if name == "slice":
        a = ts_of(I, args, st)
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        return mk("slice", *(a + [NONE] * (3 - len(a))))
    if name == "object":
        return I.alloc(st, "unk", mk("obj0", fresh_id()))
    if name in ("repr", "format", "ord", "chr", "hash", "id", "bytes", "complex", "dir", "vars", "issubclass"):
        return mk("call", name, *ts_of(I, args, st))
    if name in ("exec", "eval", "input", "globals", "locals", "delattr"):
        I.event(st, "builtins." + name, None, ts_of(I, args, st), {})
        return I.unk(st, mk("opaque", name))
    if name in ("super",):
        from .interp import SuperV
        return SuperV(args[0], args[1]) if len(args) == 2 else I.unk(st, mk("opaque", "super"))
    return I.unk(st, mk("call", name, *ts_of(I, args, st), *kwterms(I, kw, st)))


def shallow(I, st, d, src):
    """The elements of a shallow copy of a symbolic container are shared."""
    c = st.heap[d.cid]
    st.heap[d.cid] = c.rep(extra=("shallow", src.cid))


TYPE_OF_KIND = {"list": {"builtins.list"}, "dict": {"builtins.dict"}, "set": {"builtins.set"},
                "tuple": {"builtins.tuple"}, "str": {"builtins.str"}, "dense": {"numpy.ndarray"},
                "sparse": {"scipy.sparse.csr_matrix", "scipy.sparse.spmatrix"}}


def root_sym(t):
    while True:
        if t.op in ("idx", "vals", "listof", "tupleof") and t.args:
            t = t.args[0]
        elif t.op == "map":
            t = t.args[2]
        elif t.op == "scatter" and len(t.args) == 2 and t.args[0] is mk("dict"):
            t = t.args[1].args[2]
        else:
            return t


def isinstance_(I, v, cls, st):
    from .interp import ClassV, Fn, Phi
    Ref = I_Ref()
    if isinstance(v, Phi):
        return Ite(v.c, isinstance_(I, v.a, cls, st), isinstance_(I, v.b, cls, st))
    its = I.known_items(cls, st) if not isinstance(cls, Fn) else None
    if its is not None:
        return Or(*[isinstance_(I, v, I.unterm(c) if isinstance(c, T) else c, st) for c in its])
    if isinstance(v, Ref) and st.heap[v.cid].cls is not None and isinstance(cls, ClassV):
        return const(st.heap[v.cid].cls.is_sub(cls))
    tn = type_name(I, cls, st) if isinstance(cls, Fn) else None
    k = kind_of(I, v, st)
    t = I.tm(v, st)
    if tn == "numpy.ndarray" and k in ("dense", "bool"):
        return TRUE
    if t.op == "const" and tn in ("builtins.str", "builtins.int", "builtins.float", "builtins.list", "builtins.dict", "builtins.bool"):
        return const(isinstance(cval(t), eval(tn.split(".")[1])))
    if tn == "numbers.Number":
        if t.op == "const":
            return const(isinstance(cval(t), (int, float)))
        if root_sym(t) in I.numbers:
            return TRUE
        if t.op == "idx" and rep_(t.args[0]) == "str":
            return FALSE
        if k in TYPE_OF_KIND:
            return FALSE
    if t.op == "enum" and isinstance(cls, ClassV):
        return const(t.args[0] == cls.name)
    if t.op in ("const",) and isinstance(cls, ClassV):
        return FALSE
    if k in TYPE_OF_KIND and tn and tn.startswith("builtins."):
        return const(tn in TYPE_OF_KIND[k])
    if t is NONE and tn is not None:
        return const(tn == "builtins.NoneType")
    if tn == "numpy.ndarray" and k in ("list", "dict", "set", "tuple", "str", "sparse"):
        return FALSE
    return mk("isinstance", t, tn or "?")


# ------------------------------------------------------------------ library functions
LIB = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


class Args:
    """Positional/keyword access to call arguments."""

    def __init__(self, I, args, kw, st):
        self.I, self.args, self.kw, self.st = I, list(args), dict(kw), st

    def v(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name in self.kw:
            return self.kw[name]
        return default

    def t(self, i, name=None, default=NONE):
        x = self.v(i, name)
        return default if x is None else self.I.tm(x, self.st)

    def only(self, *names):
        return all(k in names for k in self.kw)


def dtype_of(I, a, i, st, name="dtype"):
    v = a.v(i, name)
    if v is None or v is NONE:
        return None
    n = type_name(I, v, st)
    return n


INT_TYPES = ("builtins.int", "numpy.int64", "numpy.int32", "torch.long", "torch.int64", "torch.int", "torch.int32", "numpy.int", "numpy.intp")


def buffer(I, a, st, t, pos, fill=None):
    """A new array to be written into; the element type decides what happens to the values stored later."""
    r = I.arr(st, t)
    tn = dtype_of(I, a, pos, st)
    if pos == 99 and str(tn).startswith("element type of "):
        tn = None                              # torch: the kind of numbers the inputs are computed with
    if tn is None and "dtype" not in a.kw and fill is not None and is_num(fill) and type(cval(fill)) is int:
        tn = "builtins.int"                    # numpy.full(n, 0) holds integers
    if tn is not None and tn not in FLOAT_TYPES:
        I.elements[r.cid] = tn
    return r


def stored(I, r, v):
    """What is kept of the value v when it is stored into the array r."""
    tn = I.elements.get(getattr(r, "cid", None))
    if tn is None or rep_(v) in ("seq", "dict", "set"):
        return v
    if tn in ("builtins.bool", "numpy.bool_", "torch.bool"):
        return v if S._isbool(v) or v in (ZERO, ONE) or v.op == "fill" else mk("cast", tn, v)
    if "uint" in tn and is_num(v) and cval(v) >= 0 and float(cval(v)).is_integer():
        return v
    return cast(I, v, tn)


def cast(I, x, tn):
    if tn is None or tn in FLOAT_TYPES:
        return x
    if tn in INT_TYPES:
        if S.is_intlike(x) or (is_num(x) and float(cval(x)).is_integer()) or S._isbool(x):
            return x
        return mk("cast", "int", x)
    return mk("cast", tn, x)


from .normal import UNSET     # noqa: E402


@lib("numpy.zeros", "torch.zeros", "numpy.empty", "torch.empty")
def _zeros(I, a, st, name):
    sh = mk("tuple", *ts_of(I, a.args, st)) if name.startswith("torch.") and len(a.args) > 1 else _shape_arg(a.t(0, "shape"))
    t = mk("fill", sh, UNSET) if "empty" in name else mk("zeros", sh)
    return buffer(I, a, st, t, 1 if name.startswith("numpy.") else 99)


def _shape_arg(t):
    if t.op == "list":
        return mk("tuple", *t.args)
    if t.op == "tuple" and len(t.args) == 1:
        return t.args[0]
    if t.op == "shape":
        s = shape(t.args[0])
        if s:
            return mk("tuple", *s) if len(s) > 1 else s[0]
    return t


@lib("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "torch.zeros_like", "numpy.empty_like")
def _like(I, a, st, name):
    x = a.t(0)
    s = shape(x)
    sh = (mk("tuple", *s) if len(s) != 1 else s[0]) if s is not None else mk("shape", x)
    t = mk("zeros", sh) if "zeros" in name else mk("fill", sh, UNSET if "empty" in name else ONE if "ones" in name else a.t(1, "fill_value"))
    r = buffer(I, a, st, t, 2 if "full" in name else 1)
    if "dtype" not in a.kw and len(a.args) <= (2 if "full" in name else 1) and name.startswith("numpy."):
        # elements of the type of the model
        src = a.args[0] if a.args else None
        tn = element_type(I, src, x)
        if tn is None and x.op in ("list", "tuple") and x.args and all(is_const(y) and type(cval(y)) is int for y in x.args):
            tn = "builtins.int"
        if tn is not None:
            I.elements[r.cid] = tn
    return r


@lib("numpy.ones", "torch.ones")
def _ones(I, a, st, name):
    return buffer(I, a, st, mk("fill", _shape_arg(a.t(0, "shape")), ONE), 1)


@lib("numpy.full")
def _full(I, a, st, name):
    v = a.t(1, "fill_value")
    sh = _shape_arg(a.t(0, "shape"))
    return buffer(I, a, st, mk("zeros", sh) if is_num(v) and cval(v) == 0 else mk("fill", sh, v), 2, v)


@lib("numpy.eye", "numpy.identity")
def _eye(I, a, st, name):
    n = a.t(0, "N")
    m = a.t(1, "M") if name == "numpy.eye" else NONE
    if a.t(2, "k", ZERO) is not ZERO:
        return I.arr(st, mk("call", "numpy.eye", n, m, a.t(2, "k")))
    return I.arr(st, mk("eye", n, n if m is NONE else m))


@lib("scipy.sparse.eye", "scipy.sparse.identity")
def _speye(I, a, st, name):
    return I.arr(st, mk("csr", mk("eye", a.t(0), a.t(0) if a.t(1) is NONE or name.endswith("identity") else a.t(1))))


@lib("scipy.sparse.diags")
def _spdiags(I, a, st, name):
    if a.t(1, "offsets", ZERO) is not ZERO:
        return None
    return I.arr(st, mk("csr", mk("diagm", a.t(0))))


@lib("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "torch.tensor", "numpy.asfarray", "numpy.copy")
def _array(I, a, st, name):
    x = a.t(0)
    tn = dtype_of(I, a, 1, st)
    if rep_(x) in ("seq", "dict", "set") or x.op in ("tuple",):
        t = mk("asarr", x)
    else:
        t = x
    if rep_(x) == "unk" and not (x.op == "phi"):
        t = mk("asarr", x)
    if name == "torch.tensor" and str(tn).startswith("element type of "):
        tn = None
    t = cast(I, t, tn)
    if tn in FLOAT_TYPES or name == "numpy.asfarray":
        r = alias(I, st, t, a.v(0), same=True) if name in ("numpy.asarray", "numpy.ascontiguousarray") and kind_of(I, a.v(0), st) not in ("list", "tuple", "dict") else I.arr(st, t)
        if getattr(r, "cid", None) is not None:
            I.floats.add(r.cid)
        return r
    if name in ("numpy.asarray", "numpy.ascontiguousarray") and (tn is None or tn in FLOAT_TYPES) and kind_of(I, a.v(0), st) not in ("list", "tuple", "dict"):
        return alias(I, st, t, a.v(0), same=True)
    return I.arr(st, t)


@lib("scipy.sparse.csr_matrix")
def _csr(I, a, st, name):
    x = a.t(0)
    if x.op == "tuple":
        return None
    tn = dtype_of(I, a, 2, st)
    if tn in NARROW:
        return I.arr(st, mk("csr", cast(I, x, tn)))
    if rep_(x) == "sparse":
        c = a.kw.get("copy")
        if c is None or c is FALSE:
            return alias(I, st, x, a.v(0), same=True)      # shares the stored data
        return I.arr(st, x)
    return I.arr(st, mk("csr", x))


@lib("numpy.dot", "numpy.matmul", "numpy.inner", "torch.mv")
def _dot(I, a, st, name):
    return wrap(I, st, MatMul(a.t(0), a.t(1)))


@lib("numpy.multiply")
def _multiply(I, a, st, name):
    return wrap(I, st, Mul(a.t(0), a.t(1)))


@lib("numpy.add", "operator.add")
def _add(I, a, st, name):
    return I.binop(a.v(0), "Add", a.v(1), st)


@lib("numpy.subtract", "operator.sub")
def _subtract(I, a, st, name):
    return I.binop(a.v(0), "Sub", a.v(1), st)


@lib("operator.mul")
def _opmul(I, a, st, name):
    return I.binop(a.v(0), "Mult", a.v(1), st)


@lib("operator.matmul")
def _opmm(I, a, st, name):
    return I.binop(a.v(0), "MatMult", a.v(1), st)


@lib("operator.itemgetter", "operator.attrgetter")
def _getter(I, a, st, name):
    return None


@lib("numpy.divide", "numpy.true_divide", "operator.truediv")
def _divide(I, a, st, name):
    return wrap(I, st, Div(a.t(0), a.t(1)))


@lib("numpy.reciprocal")
def _recip(I, a, st, name):
    return wrap(I, st, Div(ONE, a.t(0)))


@lib("numpy.power", "numpy.float_power")
def _power(I, a, st, name):
    return wrap(I, st, Pow(a.t(0), a.t(1, "exponent")))


@lib("numpy.square")
def _square(I, a, st, name):
    return wrap(I, st, Pow(a.t(0), const(2)))


@lib("numpy.negative")
def _negative(I, a, st, name):
    return wrap(I, st, Neg(a.t(0)))


@lib("numpy.transpose")
def _transpose(I, a, st, name):
    if len(a.args) > 1 or a.kw:
        return None
    return alias(I, st, Tr(a.t(0)), a.v(0)) if I.bases_of(a.v(0)) else Tr(a.t(0))


@lib("numpy.linalg.inv", "scipy.sparse.linalg.inv", "torch.linalg.inv", "torch.inverse")
def _inv(I, a, st, name):
    return I.arr(st, mk("inv", a.t(0)))


@lib("numpy.linalg.pinv", "torch.linalg.pinv")
def _pinv(I, a, st, name):
    r = a.t(1, "rcond")
    return I.arr(st, mk("pinv", a.t(0), *(_rcond(r))))


def _rcond(r):
    if r is NONE or (is_num(r) and cval(r) <= 1e-8):
        return ()
    return (r,)


@lib("numpy.linalg.solve", "scipy.sparse.linalg.spsolve", "torch.linalg.solve")
def _solve(I, a, st, name):
    return wrap(I, st, MatMul(mk("inv", a.t(0)), a.t(1)))


@lib("numpy.linalg.lstsq")
def _lstsq(I, a, st, name):
    sol = I.arr(st, MatMul(mk("pinv", a.t(0, "a"), *_rcond(a.t(2, "rcond", a.t(None, "cond")))), a.t(1, "b")))
    rest = [I.unk(st, mk("call", "lstsq" + str(i), a.t(0, "a"), a.t(1, "b"))) for i in (1, 2, 3)]
    return I.alloc(st, "tuple", items=[sol] + rest)


@lib("scipy.sparse.linalg.lsqr", "scipy.sparse.linalg.lsmr")
def _lsqr(I, a, st, name):
    # the returned tuple starts with the minimum-norm least squares solution
    damp = a.t(2, "damp", ZERO)
    if not (is_num(damp) and cval(damp) == 0):
        return None
    sol = I.arr(st, MatMul(mk("pinv", a.t(0)), a.t(1)))
    rest = [I.unk(st, mk("call", "lsqr" + str(i), a.t(0), a.t(1))) for i in range(1, 10)]
    return I.alloc(st, "tuple", items=[sol] + rest)


@lib("numpy.linalg.eigh", "torch.linalg.eigh")
def _eigh(I, a, st, name):
    x = a.t(0)
    if not a.only("UPLO", "driver", "check_finite", "overwrite_a"):
        return None
    return I.alloc(st, "tuple", items=[I.arr(st, mk("eigvals", x)), I.arr(st, mk("eigvecs", x))])


@lib("numpy.linalg.eigvalsh", "scipy.linalg.eigvalsh")
def _eigvalsh(I, a, st, name):
    return I.arr(st, mk("eigvals", a.t(0)))


@lib("numpy.linalg.eig")
def _eig(I, a, st, name):
    x = a.t(0)
    return I.alloc(st, "tuple", items=[I.arr(st, mk("eigvals", x, const("unordered"))), I.arr(st, mk("eigvecs", x, const("unordered")))])


@lib("scipy.sparse.linalg.eigsh")
def _eigsh(I, a, st, name):
    x = a.t(0)
    k = a.t(1, "k", const(6))
    if k is dim(x, 0) or k is dim(x, 1):
        return _eigh(I, Args(I, [x], {}, st), st, name)
    ex = (k,) + tuple(kwterms(I, {n: v for n, v in a.kw.items() if n in ("which", "sigma", "M")}, st))
    return I.alloc(st, "tuple", items=[I.arr(st, mk("eigvals", x, *ex)), I.arr(st, mk("eigvecs", x, *ex))])


@lib("numpy.linalg.matrix_power")
def _mpow(I, a, st, name):
    return I.arr(st, mat_pow(a.t(0), a.t(1, "n")))


@lib("numpy.linalg.norm", "scipy.sparse.linalg.norm", "torch.linalg.norm", "torch.norm")
def _norm(I, a, st, name):
    o = a.t(1, "ord")
    ax = a.t(2, "axis")
    x = a.t(0)
    if ndim(x) == 1 and is_const(o, 2):
        o = NONE
    r = mk("norm", x, o) if ax is NONE else mk("norm", x, o, ax)
    return r if ax is NONE else I.arr(st, r)


@lib("cvxpy.norm", "cvxpy.norm1", "cvxpy.norm2", "cvxpy.pnorm")
def _cvxnorm(I, a, st, name):
    o = {"cvxpy.norm1": ONE, "cvxpy.norm2": const(2)}.get(name) or a.t(1, "p", const(2))
    x = a.t(0)
    if a.t(2, "axis") is not NONE:
        return I.unk(st, mk("call", name, x, o, a.t(2, "axis")))
    return mk("norm", x, NONE if is_const(o, 2) else o)


@lib("cvxpy.sum_squares", "cvxpy.sum", "cvxpy.abs", "cvxpy.square")
def _cvxatoms(I, a, st, name):
    x = a.t(0)
    if len(a.args) != 1 or a.kw:
        return None
    if name == "cvxpy.abs":
        return mk("abs", x)
    if name != "cvxpy.sum":
        x = S.Pow(x, const(2)) if hasattr(S, "Pow") else mk("pow", x, const(2))
    return x if name == "cvxpy.square" else mk("red", const("sum"), x, NONE)


@lib("numpy.diag", "numpy.diagonal", "torch.diagonal")
def _diag(I, a, st, name):
    x = a.t(0)
    if a.t(1, "k", ZERO) is not ZERO:
        return I.arr(st, mk("call", "numpy.diag", x, a.t(1, "k")))
    n = ndim(x)
    if n is None:
        n = 2 if x.op in ("matmul",) and rep_(x) != "unk" and ndim(x.args[-1]) == 2 else None
    if n == 2 or name.endswith(".diagonal"):
        return I.arr(st, mk("diagof", x))
    if n == 1:
        return I.arr(st, mk("diagm", x))
    return I.arr(st, mk("diag", x))


@lib("numpy.round")
def _round(I, a, st, name):
    return wrap(I, st, mk("round", a.t(0), a.t(1, "decimals", ZERO)))


def _unary(opname):
    def f(I, a, st, name):
        x = a.t(0)
        if is_num(x) and opname == "abs":
            return const(abs(cval(x)))
        return wrap(I, st, mk(opname, x))
    return f


for _n in ("abs", "sqrt", "exp", "log", "sign", "floor", "ceil"):
    LIB["numpy." + _n] = _unary(_n)
LIB["math.ceil"] = _unary("ceil")
LIB["math.fabs"] = _unary("abs")


@lib("numpy.where")
def _where(I, a, st, name):
    c = a.t(0)
    if len(a.args) == 1:
        return mk("nztuple", _mask(c))
    return wrap(I, st, select(_mask(c), a.t(1), a.t(2)))


def _mask(c):
    if c.op in S.BOOLOPS:
        return c
    return Not(Eq(c, ZERO))


def select(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == "not":
        return mk("select", truth(c.args[0]), y, x)
    if c.op == "le":
        return mk("select", mk("lt", c.args[1], c.args[0]), y, x)
    return mk("select", c, x, y)


@lib("numpy.nonzero")
def _nonzero(I, a, st, name):
    return mk("nztuple", _mask(a.t(0)))


@lib("numpy.take")
def _take(I, a, st, name):
    if not a.only("a", "indices", "axis"):
        return None
    x, ix = a.t(0, "a"), a.t(1, "indices")
    ax = a.t(2, "axis") if a.v(2, "axis") is not None else NONE
    n = ndim(x)
    if is_const(ax, 0) or ax is NONE and n == 1:
        return I.arr(st, mk("idx", x, ix))
    if n == 2 and (is_const(ax, 1) or is_const(ax, -1)):
        return I.arr(st, mk("idx", x, mk("tuple", mk("slice", NONE, NONE, NONE), ix)))
    return None


@lib("numpy.einsum")
def _einsum(I, a, st, name):
    """Two operands whose indices are summed by a product or along an axis."""
    if a.kw or len(a.args) not in (3, 4) or not is_const(a.t(0)) or not isinstance(cval(a.t(0)), str):
        return None
    spec = cval(a.t(0)).replace(" ", "")
    ins, _, out = spec.partition("->")
    if len(a.args) == 4 and ins.count(",") == 2:
        # weights on the index that two matrices share
        part = list(zip(ins.split(","), (a.t(1), a.t(2), a.t(3))))
        w = [e for e in part if len(e[0]) == 1]
        ms = [e for e in part if len(e[0]) == 2]
        if len(w) != 1 or len(ms) != 2 or w[0][0] in out or not all(w[0][0] in e[0] and len(set(e[0])) == 2 for e in ms):
            return None
        c = w[0][0]
        free = [e[0].replace(c, "") for e in ms]
        if sorted(out) != sorted(free) or len(set(free)) != 2:
            return None
        ms = sorted(ms, key=lambda e: out.index(e[0].replace(c, "")))
        l = ms[0][1] if ms[0][0][1] == c else mk("tr", ms[0][1])
        r = ms[1][1] if ms[1][0][0] == c else mk("tr", ms[1][1])
        return I.arr(st, mk("matmul", S.Mul(l, w[0][1]), r))
    if len(a.args) != 3:
        return None
    if "->" not in spec or ins.count(",") != 1 or "." in spec:
        return None
    p, q = ins.split(",")
    x, y = a.t(1), a.t(2)
    tr = lambda t: mk("tr", t)
    if any(len(set(i)) != len(i) for i in (p, q, out)) or len(p) > 2 or len(q) > 2 or len(p) + len(q) == 0:
        return None
    if set(p) == set(q) and len(p) == 2 and len(out) < 2 and set(out) <= set(p):
        prod = S.Mul(x, y if p == q else tr(y))
        return I.arr(st, mk("red", const("sum"), prod, NONE if not out else const(1 - p.index(out))))
    common = set(p) & set(q)
    if len(common) == 1 and not common & set(out) and set(out) == set(p) ^ set(q):
        c = next(iter(common))
        l = x if p[-1] == c else tr(x)
        r = y if q[0] == c else tr(y)
        t = mk("matmul", l, r)
        return I.arr(st, t if out == p.replace(c, "") + q.replace(c, "") else tr(t))
    return None


@lib("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "os.fspath", "os.path.normpath")
def _path(I, a, st, name):
    if a.kw or not a.args:
        return None
    ts = [path_text(a.t(i)) for i in range(len(a.args))]
    x = ts[0] if len(ts) == 1 else mk("call", "os.path.join", *ts)
    return x if name.startswith("os.") else mk("call", "pathlib.Path", x)


def ispath(t):
    return t.op == "call" and t.args[0] == "pathlib.Path" and len(t.args) == 2


def path_text(t):
    return t.args[1] if ispath(t) else t


@lib("numpy.flatnonzero")
def _flatnonzero(I, a, st, name):
    return I.arr(st, mk("nz", _mask(a.t(0))))


@lib("numpy.concatenate", "numpy.hstack", "numpy.vstack", "torch.cat", "numpy.column_stack", "numpy.stack", "torch.stack",
     "numpy.append", "scipy.sparse.hstack", "scipy.sparse.vstack")
def _concat(I, a, st, name):
    if name == "numpy.append":
        x = mk("tuple", a.t(0), a.t(1))
        return I.arr(st, mk("concat", name, a.t(2, "axis"), x))
    x = a.t(0)
    if x.op == "list":
        x = mk("tuple", *x.args)
    ax = a.t(1, "axis", a.t(None, "dim", ZERO))
    n = "concat"
    if name == "numpy.hstack" and x.op == "tuple" and all((ndim(y) or 1) == 1 for y in x.args):
        ax = ZERO
    elif name == "torch.cat" or name == "numpy.concatenate":
        pass
    else:
        n = name
    return I.arr(st, mk("concat", n, ax, x))


def _reduction(nm):
    def f(I, a, st, name):
        x = a.t(0, "a")
        ax = a.t(1, "axis", a.t(None, "dim"))
        if not a.only("axis", "dim", "a", "keepdims", "dtype"):
            return I.arr(st, mk("call", name, x, *kwterms(I, a.kw, st)))
        if a.t(None, "keepdims") not in (NONE, FALSE):
            return I.arr(st, mk("call", name, x, ax, mk("kw", "keepdims", TRUE)))
        if nm in ("all", "any") and ax is NONE:
            ys = x.args if x.op in ("list", "tuple") else (x.args[2],) if x.op == "map" and x.args[3] is TRUE and (nm == "all") == (x.args[2] is TRUE) else None
            if ys is not None and all(y in (TRUE, FALSE) for y in ys):
                return const(all(y is TRUE for y in ys) if nm == "all" else any(y is TRUE for y in ys))
        return wrap(I, st, mk("red", const(nm), x, ax))
    return f


for _n in ("sum", "mean", "std", "var", "max", "min", "prod", "any", "all", "median"):
    LIB["numpy." + _n] = _reduction(_n)
    LIB["torch." + _n] = _reduction(_n)


def _tensor_std(I, t, a, st, kind):
    """The method of a tensor divides by n - 1 unless told otherwise."""
    if a.args or not a.only("unbiased", "correction", "dim"):
        return I.unk(st, mk("mcall", t, kind, *ts_of(I, a.args, st), *kwterms(I, a.kw, st)))
    u, c = a.t(None, "unbiased"), a.t(None, "correction")
    if u is FALSE or c is ZERO:
        return mk("red", const(kind), t, a.t(None, "dim"))
    return mk("red", const("t" + kind), t, a.t(None, "dim"))


@lib("torch.std", "torch.var")
def _tstd(I, a, st, name):
    kind = name.split(".")[1]
    if len(a.args) != 1 or not a.only("unbiased", "correction", "dim"):
        return None
    u, c = a.t(None, "unbiased"), a.t(None, "correction")
    if u is FALSE or c is ZERO:
        return mk("red", const(kind), a.t(0), a.t(None, "dim"))
    if (u is NONE or u is TRUE) and (c is NONE or c is ONE):
        return mk("red", const("t" + kind), a.t(0), a.t(None, "dim"))
    return None


@lib("numpy.arange", "torch.arange")
def _arange(I, a, st, name):
    v = ts_of(I, a.args, st)
    r = mk("range", ZERO, v[0], ONE) if len(v) == 1 else mk("range", v[0], v[1], v[2] if len(v) > 2 else ONE)
    return I.arr(st, mk("asarr", r))


@lib("numpy.heaviside")
def _heaviside(I, a, st, name):
    x, h = a.t(0), a.t(1)
    return wrap(I, st, mk("select", Lt(ZERO, x), ONE, h if h in (ZERO,) else mk("select", Eq(x, ZERO), h, ZERO)))


@lib("numpy.tensordot")
def _tensordot(I, a, st, name):
    x, y, n = a.t(0), a.t(1), a.t(2, "axes", const(2))
    if n is ONE and ndim(x) == 1 and ndim(y) == 1:
        return wrap(I, st, MatMul(x, y))
    if n is ONE and ndim(x) == 1 and ndim(y) == 3:
        return wrap(I, st, mk("red", const("sum"), Mul(Idx(x, mk("tuple", FULL, NONE, NONE)), y), ZERO))
    if n is ONE and ndim(x) == 2 and ndim(y) in (1, 2):
        return wrap(I, st, MatMul(x, y))
    return None


@lib("numpy.linspace")
def _linspace(I, a, st, name):
    if not a.only("num", "start", "stop", "dtype"):
        return None
    return I.arr(st, mk("call", "numpy.linspace", a.t(0, "start"), a.t(1, "stop"), a.t(2, "num", const(50))))


@lib("numpy.vander", "numpy.polynomial.polynomial.polyvander")
def _vander(I, a, st, name):
    """Row i holds the powers of x[i]."""
    x = a.t(0, "x")
    if ndim(x) != 1:
        return None
    poly = name.endswith("polyvander")
    n = Add(a.t(1, "deg"), ONE) if poly else a.t(1, "N", NONE)
    if n is NONE:
        n = mk("len", x)
    up = a.t(2, "increasing", FALSE) if not poly else TRUE
    if up not in (TRUE, FALSE):
        return None
    k = fresh_bv()
    e = k if up is TRUE else Sub(Sub(n, ONE), k)
    return I.arr(st, Tr(mk("map", n, k, Pow(x, e), TRUE)))


@lib("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.std.tqdm", "tqdm.notebook.tqdm")
def _tqdm(I, a, st, name):
    """A progress bar over an iterable gives the elements of it."""
    return a.v(0, "iterable") if a.args or "iterable" in a.kw else None


@lib("numpy.squeeze", "torch.squeeze")
def _squeeze(I, a, st, name):
    x = a.t(0)
    if len(a.args) > 1 or a.kw:
        return None
    return alias(I, st, squeeze(x), a.v(0), same=True)


def squeeze(x):
    s = shape(x)
    if s is not None and not any(d is ONE for d in s):
        return x
    return mk("squeeze", x)


def flat(x):
    if ndim(x) == 1:
        return x
    s = shape(x)
    if s is not None and len(s) == 2 and s[1] is ONE:
        if x.op == "call" and x.args[0] in ("numpy.random.randn", "numpy.random.rand"):
            return mk("call", x.args[0], *[y for y in x.args[1:] if y is not ONE])
    return mk("flat", x)


@lib("numpy.ravel", "torch.flatten")
def _ravel(I, a, st, name):
    return alias(I, st, flat(a.t(0)), a.v(0), same=True)


@lib("numpy.array_equal", "numpy.allclose")
def _aeq(I, a, st, name):
    return mk("truthy", mk("call", name, *ts_of(I, a.args, st), *kwterms(I, a.kw, st)))


@lib("numpy.isclose")
def _isclose(I, a, st, name):
    if a.only("a", "b", "rtol", "atol"):
        # |a - b| <= atol + rtol |b|
        x, y = a.t(0, "a"), a.t(1, "b")
        rtol = a.t(2, "rtol") if a.v(2, "rtol") is not None else const(1e-5)
        atol = a.t(3, "atol") if a.v(3, "atol") is not None else const(1e-8)
        return I.arr(st, mk("le", mk("abs", S.Add(x, S.Mul(const(-1), y))), S.Add(atol, S.Mul(rtol, mk("abs", y)))))
    return mk("truthy", mk("call", name, *ts_of(I, a.args, st), *kwterms(I, a.kw, st)))


@lib("numpy.logical_and", "numpy.bitwise_and")
def _land(I, a, st, name):
    return And(_mask(a.t(0)), _mask(a.t(1)))


@lib("numpy.logical_or", "numpy.bitwise_or")
def _lor(I, a, st, name):
    return Or(_mask(a.t(0)), _mask(a.t(1)))


@lib("numpy.logical_not")
def _lnot(I, a, st, name):
    return Not(_mask(a.t(0)))


for _nm, _op in (("greater", "Gt"), ("less", "Lt"), ("greater_equal", "GtE"), ("less_equal", "LtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
    def _mkcmp(_op):
        def f(I, a, st, name):
            return compare(I, a.v(0), _op, a.v(1), st)
        return f
    LIB["numpy." + _nm] = _mkcmp(_op)


def parameters_of(I, f):
    """The parameters a call of f may name: what inspect.signature lists."""
    from .interp import FuncV
    import ast
    if not isinstance(f, FuncV) or isinstance(f.node, ast.Lambda) and f.node.args.vararg:
        return None
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if f.bound is not None:
        names = names[1:]
    if a.vararg:
        names.append(a.vararg.arg)
    names += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        names.append(a.kwarg.arg)
    return names


@lib("inspect.signature")
def _signature(I, a, st, name):
    return mk("call", name, a.t(0))


@lib("inspect.getfullargspec")
def _argspec(I, a, st, name):
    return mk("call", name, a.t(0))


def _whole(name, old):
    """Rounding of known numbers."""
    def f(I, a, st, nm):
        import math
        if is_num(a.t(0)) and len(a.args) == 1:
            return const(getattr(math, name)(cval(a.t(0))))
        return old(I, a, st, nm)
    return f


for _nm in ("numpy.ceil", "numpy.floor", "math.ceil", "math.floor", "math.trunc"):
    if _nm in LIB:
        LIB[_nm] = _whole(_nm.split(".")[1], LIB[_nm])


@lib("numpy.iterable")
def _iterable(I, a, st, name):
    k = kind_of(I, a.v(0), st)
    t = a.t(0)
    if t.op == "const":
        return const(isinstance(cval(t), str))
    if k in ("list", "dict", "set", "tuple", "str", "dense"):
        return TRUE
    return mk("call", name, t)


@lib("numpy.trace")
def _trace(I, a, st, name):
    return mk("red", const("sum"), mk("diagof", a.t(0)), NONE)


@lib("numpy.fill_diagonal", "numpy.put", "numpy.copyto", "numpy.random.shuffle", "random.shuffle", "numpy.place", "numpy.putmask")
def _mutates(I, a, st, name):
    v = a.v(0)
    I.effect(st, v, name, a.t(0))
    if isinstance(v, I_Ref()):
        c = st.heap[v.cid]
        nv = mk("call", name, *ts_of(I, a.args, st))
        st.heap[v.cid] = c.rep(val=nv, items=None)
        I.store_through(st, c, nv)
    if "random" in name:
        I.event(st, "globalrng:" + name, None, ts_of(I, a.args, st), {})
    return NONE


@lib("copy.deepcopy")
def _deepcopy(I, a, st, name):
    return deepcopy_(I, a.v(0), st)


def deepcopy_(I, v, st):
    from .interp import Phi
    Ref = I_Ref()
    if isinstance(v, Phi):
        return Phi(v.c, deepcopy_(I, v.a, st), deepcopy_(I, v.b, st))
    if not isinstance(v, Ref):
        return v
    c = st.heap[v.cid]
    if c.kind == "inst":
        return I.alloc(st, "inst", c.val, cls=c.cls, attrs={n: deepcopy_(I, x, st) for n, x in c.attrs.items()})
    if c.items is not None:
        its = {k: deepcopy_(I, x, st) for k, x in c.items.items()} if isinstance(c.items, dict) else [deepcopy_(I, x, st) for x in c.items]
        return I.alloc(st, c.kind, items=its)
    return I.alloc(st, c.kind, c.val)


@lib("copy.copy")
def _copy(I, a, st, name):
    Ref = I_Ref()
    v = a.v(0)
    if not isinstance(v, Ref):
        return v
    c = st.heap[v.cid]
    if c.kind == "inst":
        return I.alloc(st, "inst", c.val, cls=c.cls, attrs=dict(c.attrs))
    if c.items is not None:
        return I.alloc(st, c.kind, items=dict(c.items) if isinstance(c.items, dict) else list(c.items))
    r = I.alloc(st, c.kind, c.val)
    shallow(I, st, r, v)
    return r


@lib("functools.partial")
def _partial(I, a, st, name):
    from .interp import PartialV
    return PartialV(a.args[0], a.args[1:], a.kw)


@lib("functools.lru_cache", "functools.cache", "functools.wraps")
def _lru(I, a, st, name):
    from .interp import ExtV, FuncV, PartialV
    if a.args and isinstance(a.args[0], FuncV) and name != "functools.wraps":
        return I.apply_decorator(ExtV(name), a.args[0], st)
    return PartialV(ExtV(name), a.args, a.kw)


@lib("functools.reduce")
def _reduce(I, a, st, name):
    its = I.known_items(a.v(1), st)
    if its is None:
        return None
    if len(a.args) > 2:
        its = [a.args[2]] + its
    if not its:
        return None
    v = its[0]
    for x in its[1:]:
        v = I.call(a.v(0), [v, x], {}, st)
    return v


@lib("itertools.combinations")
def _comb(I, a, st, name):
    its = I.known_items(a.v(0), st)
    r = a.t(1, "r")
    if its is not None and is_num(r) and len(its) <= 8:
        import itertools
        return I.alloc(st, "list", items=[mk("tuple", *[I.tm(y, st) for y in x]) for x in itertools.combinations(its, cval(r))])
    return I.alloc(st, "list", mk("call", "itertools.combinations", seq_term(I, a.v(0), st), r))


@lib("itertools.chain")
def _chain(I, a, st, name):
    return I.alloc(st, "list", Cat(*[seq_term(I, x, st) for x in a.args]))


@lib("itertools.chain.from_iterable")
def _chainfi(I, a, st, name):
    its = I.known_items(a.v(0), st)
    if its is not None:
        return I.alloc(st, "list", Cat(*[seq_term(I, x, st) for x in its]))
    x = a.t(0)
    D, el = iter_desc(I, x, st)
    k = fresh_bv()
    if x.op == "map":
        return I.alloc(st, "list", mk("flatmap", x.args[0], x.args[1], x.args[2], x.args[3]))
    return I.alloc(st, "list", mk("flatmap", D, k, I.tm(el(k, st), st), TRUE))


@lib("itertools.product")
def _product(I, a, st, name):
    lists = [I.known_items(x, st) for x in a.args]
    if all(x is not None for x in lists) and not a.kw:
        import itertools
        return I.alloc(st, "list", items=[I.alloc(st, "tuple", items=list(x)) for x in itertools.product(*lists)])
    if a.kw:
        return None
    # nested iteration
    ks = [fresh_bv() for _ in a.args]
    ts = [seq_term(I, x, st) for x in a.args]
    body = mk("list", mk("tuple", *[elem_of(t, k) for t, k in zip(ts, ks)]))
    for t, k in reversed(list(zip(ts, ks))):
        body = mk("flatmap", iter_len(t), k, body, TRUE)
    return I.alloc(st, "list", body)


@lib("collections.defaultdict", "collections.OrderedDict")
def _ddict(I, a, st, name):
    if name.endswith("OrderedDict") and a.args:
        return call_builtin(I, "dict", a.args, a.kw, st)
    return I.alloc(st, "dict", items={})


@lib("warnings.warn", "logging.getLogger", "logging.info", "logging.debug", "logging.warning")
def _warn(I, a, st, name):
    I.event(st, name, None, ts_of(I, a.args, st), {})
    return I.unk(st, mk("call", name))


@lib("torch.is_tensor")
def _is_tensor(I, a, st, name):
    return mk("isinstance", a.t(0), "torch.Tensor")


@lib("torch.nn.Parameter")
def _param(I, a, st, name):
    return I.arr(st, a.t(0))


# parameters of library functions that are kept as calls: one form whichever way they are given
SIGS = {
    "chebpy.chebfun": (("f", NONE), ("domain", NONE), ("n", NONE)),
    "cvxpy.Problem": (("objective",), ("constraints", NONE)), "cvxpy.Variable": (("shape", mk("tuple")),),
    "numpy.random.choice": (("a",), ("size", NONE), ("replace", TRUE), ("p", NONE)),
    "numpy.random.normal": (("loc", ZERO), ("scale", ONE), ("size", NONE)),
    "numpy.random.uniform": (("low", ZERO), ("high", ONE), ("size", NONE)),
    "numpy.random.randint": (("low",), ("high", NONE), ("size", NONE), ("dtype",)),
    "numpy.random.permutation": (("x",),), "numpy.random.seed": (("seed", NONE),),
    "numpy.random.random": (("size", NONE),), "numpy.random.random_sample": (("size", NONE),), "numpy.random.standard_normal": (("size", NONE),),
    "numpy.linspace": (("start",), ("stop",), ("num", const(50)), ("endpoint", TRUE), ("retstep", FALSE), ("dtype", NONE)),
    "numpy.corrcoef": (("x",), ("y", NONE), ("rowvar", TRUE)),
    "numpy.argsort": (("a",), ("axis", const(-1))),
    "gpytorch.distributions.MultivariateNormal": (("mean",), ("covariance_matrix",)),
    "gpytorch.kernels.ScaleKernel": (("base_kernel",), ("outputscale_prior", NONE), ("outputscale_constraint", NONE)),
    "gpytorch.mlls.ExactMarginalLogLikelihood": (("likelihood",), ("model",)),
    "numpy.unique": (("ar",), ("return_index", FALSE), ("return_inverse", FALSE), ("return_counts", FALSE), ("axis", NONE)),
}


def by_signature(name, ts, kts):
    sig = SIGS.get(name)
    if sig is None or len(ts) > len(sig) or any(t.op == "star" for t in ts):
        return ts, kts
    names = [p[0] for p in sig]
    val = dict(zip(names, ts))
    rest = []
    for k in kts:
        if k.args[0] in names and k.args[0] not in val:
            val[k.args[0]] = k.args[1]
        else:
            rest.append(k)
    val = {p[0]: val[p[0]] for p in sig if p[0] in val and not (len(p) > 1 and val[p[0]] is p[1])}
    pos = []
    for n in names:
        if n not in val:
            break
        pos.append(val.pop(n))
    return pos, sorted(rest + [mk("kw", k, v) for k, v in val.items()], key=lambda k: k.args[0])


def draws(name, ts, kts, rnd):
    """Numbers drawn from one of the two families, by the standard member of it."""
    kw = {k.args[0]: k.args[1] for k in kts}

    def std(base, size):
        if size is None or size is NONE:
            return mk("call", base, rnd)
        return mk("call", base, *(size.args if size.op == "tuple" else (size,)), rnd)

    if set(kw) <= {"loc", "scale", "size", "low", "high"}:
        if name in ("numpy.random.standard_normal", "numpy.random.random", "numpy.random.random_sample", "numpy.random.ranf"):
            return std("numpy.random.randn" if name.endswith("normal") else "numpy.random.rand", ts[0] if ts else kw.get("size"))
        at = lambda i, k, d: ts[i] if i < len(ts) else kw.get(k, d)
        if name == "numpy.random.normal":
            return S.Add(at(0, "loc", ZERO), S.Mul(at(1, "scale", ONE), std("numpy.random.randn", at(2, "size", None))))
        if name == "numpy.random.uniform":
            lo, hi = at(0, "low", ZERO), at(1, "high", ONE)
            return S.Add(lo, S.Mul(S.Add(hi, S.Mul(const(-1), lo)), std("numpy.random.rand", at(2, "size", None))))
    return mk("call", name, *ts, *kts, rnd)


RANDOM_PREFIX = ("numpy.random.", "random.", "torch.rand", "secrets.")


TAKES_PATH = {"os.path.exists", "os.path.isfile", "os.path.isdir", "os.listdir", "os.path.join", "pandas.read_table", "numpy.loadtxt",
              "numpy.genfromtxt", "numpy.load", "os.path.basename", "os.path.dirname", "open"}
FILE_QUERIES = {"os.listdir", "os.path.exists", "os.path.isfile", "os.path.isdir"}


def data_path(t):
    """The path of a data file, relative to its package, when the term gives one."""
    from .normal import nf
    t = nf(t)
    parts = list(t.args) if t.op == "str" else [t]
    if not parts or parts[0].op != "call" or parts[0].args[0] != "pkg_resources.resource_filename":
        return None
    root = parts[0].args[1:]
    if len(root) != 2 or any(x.op != "const" for x in root) or any(x.op != "const" for x in parts[1:]):
        return None
    return "/".join(cval(x) for x in root) + "".join(str(cval(x)) for x in parts[1:])


def on_device(I, v, where, st):
    """The same values in the memory of a device."""
    d = I.tm(where, st)
    while d.op == "call" and d.args[0] == "torch.device" and len(d.args) == 2:
        d = d.args[1]
    if where is NONE:
        return v
    return I.arr(st, mk("ondev", I.tm(v, st), d))


def call_ext(I, name, args, kw, st):
    from .interp import EXC_NAMES, ExtV
    if I.devices and "device" in kw:
        r = call_ext(I, name, args, {k: v for k, v in kw.items() if k != "device"}, st)
        return on_device(I, r, kw["device"], st)
    if name.startswith("builtins."):
        n = name[len("builtins."):]
        if n in EXC_NAMES:
            return I.unk(st, mk("exc", n))
        if n in ("open", "str"):
            args = [path_text(x) if isinstance(x, T) else x for x in args]
        if n == "dict.fromkeys" and 1 <= len(args) <= 2 and not kw:
            its = I.known_items(args[0], st)
            v = args[1] if len(args) == 2 else NONE
            if its is not None:
                return I.alloc(st, "dict", items={I.tm(k, st): v for k in its})
            if not isinstance(v, Ref):
                D, elem = I.iter_desc(args[0], st)
                kk = fresh_bv()
                return I.alloc(st, "dict", Scatter(mk("dict"), mk("entry", TRUE, I.tm(elem(kk, st), st), I.tm(v, st), NONE, mk("bind", D, kk))))
            return I.unk(st, mk("call", "dict.fromkeys", seq_term(I, args[0], st), I.tm(v, st)))
        kind, _, meth = n.partition(".")
        if meth and kind in ("list", "dict", "set", "frozenset", "str", "tuple", "int", "float") and args and not meth.startswith("__") \
                and meth not in ("fromkeys", "maketrans", "fromhex", "from_bytes"):
            # a method taken from the class
            return I.models.call_method(I, args[0], meth, args[1:], kw, st)
        return call_builtin(I, n, args, kw, st)
    if name in TAKES_PATH or name == "pandas.read_csv":
        args = [path_text(x) if isinstance(x, T) else x for x in args]
    a = Args(I, args, kw, st)
    f = LIB.get(name)
    if "out" in kw and kw["out"] is not NONE:
        I.effect(st, kw["out"], f"out= of {name}")
    if f is not None:
        r = f(I, a, st, name)
        if r is not None:
            if "out" in kw and isinstance(kw["out"], I_Ref()):
                c = st.heap[kw["out"].cid]
                nv = I.tm(r, st)
                st.heap[kw["out"].cid] = c.rep(val=nv, items=None)
                I.store_through(st, c, nv)
                return kw["out"]
            return r
    ts = [fn_term(I, x, st) for x in args]
    kts = [mk("kw", k, fn_term(I, v, st)) for k, v in sorted(kw.items())]
    ts, kts = by_signature(name, ts, kts)
    if I.files is not None and name in FILE_QUERIES and len(ts) == 1 and not kts:
        p = data_path(ts[0])
        if p is not None:
            r = I.files(name, p)
            if isinstance(r, list):
                return I.alloc(st, "list", items=[const(x) for x in r])
            if r is not None:
                return const(r)
    if name.startswith(RANDOM_PREFIX):
        seeded = name.endswith((".seed", ".set_state", "manual_seed"))
        if name in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.SeedSequence", "random.SystemRandom"):
            has_seed = (bool(ts) and ts[0] is not NONE) or ("seed" in kw and kw["seed"] is not NONE)
            if not has_seed or name == "random.SystemRandom":
                I.event(st, "entropy:" + name, None, ts, {k: I.tm(v, st) for k, v in kw.items()})
            return I.unk(st, mk("call", name, *ts, *kts))
        I.event(st, ("globalseed:" if seeded else "globalrng:") + name, None, ts, {k: I.tm(v, st) for k, v in kw.items()})
        return I.arr(st, draws(name, ts, kts, fresh_rnd(I)))
    if name == "networkx.set_edge_attributes" and args and isinstance(args[0], I_Ref()):
        I.effect(st, args[0], name)
        I.event(st, name, None, ts, {k: I.tm(v, st) for k, v in kw.items()})
        _functional_update(I, args[0], mk("call", name, *ts, *kts), st)
        return NONE
    # functions given to a library call may be run by it
    t = mk("call", name, *ts, *kts)
    e = I.event(st, name, None, ts, {k: I.tm(v, st) for k, v in kw.items()}, result=t,
                tags=("pure",) if name.startswith(PURE_PREFIX) else ())
    if name not in I.unmodelled:
        I.unmodelled[name] = I.loc()
    if name.startswith("matplotlib.") or name.startswith("networkx.draw") or I.fresh_layouts and name.startswith("networkx.") and name.endswith("_layout") and \
            (kw.get("seed") in (None, NONE)):
        t = mk("call", name, *ts, *kts, mk("rnd", "ev", len(I.events)))
        e.result = t
    if name == "sklearn.model_selection.train_test_split" and ts and not any(x.op == "star" for x in ts):
        # the training and the test part of each argument
        r = I.alloc(st, "list", items=[I.unk(st, mk("idx", t, const(i))) for i in range(2 * len(ts))])
    else:
        r = I.unk(st, t)
    e.tags = e.tags + (r,)
    return r


def call_value(I, f, args, kw, st):
    ft = I.tm(f, st)
    if ft is NONE:
        I.raise_(st, "TypeError", TRUE, implicit=True)
    ts = ts_of(I, args, st)
    t = mk("apply", ft, *ts, *kwterms(I, kw, st))
    I.event(st, "apply", ft, ts, {k: I.tm(v, st) for k, v in kw.items()}, result=t)
    return I.unk(st, t)


# ------------------------------------------------------------------ attributes and methods
def attr(I, b, name, st):
    """Attribute of a value that is not an instance of an analysed class."""
    from .interp import MethV
    Ref = I_Ref()
    t = I.tm(b, st)
    if t.op == "call" and t.args[0] in ("inspect.signature", "inspect.getfullargspec") and name in ("parameters", "args", "kwonlyargs"):
        f = I.unterm(t.args[1])
        ps = parameters_of(I, f)
        if ps is not None and name == "parameters":
            return I.alloc(st, "dict", items={const(p): mk("attr", t, p) for p in ps})
        if ps is not None:
            ko = [x.arg for x in f.node.args.kwonlyargs]
            lead = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            return I.alloc(st, "list", items=[const(p) for p in (ko if name == "kwonlyargs" else lead)])
    if name == "T":
        return alias(I, st, Tr(t), b)
    if name == "mT":
        return alias(I, st, Tr(t), b)
    if name == "shape":
        s = shape(t)
        if s is not None:
            return mk("tuple", *s)
        return mk("shape", t)
    if name == "ndim":
        n = ndim(t)
        return const(n) if n is not None else mk("attr", t, "ndim")
    if name == "size" and ndim(t) == 1:
        return shape(t)[0]
    if name == "value" and t.op == "enum":
        from .interp import ENUMS, FN_TABLE
        return FN_TABLE[("enum", t.args[0], t.args[1])]
    if name == "name" and t.op == "enum":
        return const(t.args[1])
    if t.op == "enum":
        from .interp import ENUMS
        c = ENUMS.get(t.args[0])
        v, _ = c.lookup(name) if c else (None, None)
        if v is not None:
            return I.bind_member(v, t, st)
    if t.op == "ite" and (t.args[1].op == "enum" or t.args[2].op == "enum") and name in ("value", "name"):
        return Ite(t.args[0], attr(I, t.args[1], name, st), attr(I, t.args[2], name, st))
    if name == "A" and rep_(t) == "sparse":
        return I.arr(st, mk("dense", t))
    if name in METHODS_KNOWN or kind_of(I, b, st) in ("list", "dict", "set", "str"):
        return MethV(b, name)
    if name in ("dtype", "device", "columns", "index", "values", "loc", "iloc", "at", "iat", "empty", "parameters",
                "nodes", "edges", "value", "eps", "funs", "coeffs", "mean", "axes", "figure", "flat", "real", "imag",
                "args", "data", "indices", "indptr", "nnz", "adj", "kind"):
        if name in ("mean",) and rep_(t) in ("dense", "sparse"):
            return MethV(b, name)
        return AttrOrMeth(I, b, t, name, st)
    return AttrOrMeth(I, b, t, name, st)


def AttrOrMeth(I, b, t, name, st):
    """An attribute of an external object: a view of it, callable as a method."""
    r = I.alloc(st, "unk", mk("attr", t, name), base=I.bases_of(b))
    st.heap[r.cid] = st.heap[r.cid].rep(extra=("bound", b, name))
    return r


METHODS_KNOWN = {
    "toarray", "todense", "tocsr", "tocsc", "tocoo", "dot", "transpose", "copy", "astype", "flatten", "ravel",
    "reshape", "squeeze", "sum", "max", "min", "std", "var", "diagonal", "round", "nonzero", "any", "all", "tolist",
    "multiply", "power", "fill", "neg", "sort", "append", "extend", "insert", "remove", "update", "items", "keys",
    "setdefault", "get", "add", "discard", "clear", "prod", "argsort", "clip", "conj", "numpy", "cpu", "detach", "to",
    "float", "double", "long", "int", "item", "dim", "clone", "matmul", "mm", "t", "diag", "pow", "exp", "strip", "split",
    "join", "format", "lower", "upper", "startswith", "endswith", "union", "intersection", "difference", "to_numpy",
    "matrix_power",
}


def inst_ext_attr(I, b, c, name, st, default=None):
    """Attribute of an instance that its class does not define."""
    from .interp import MethV
    if c.cls is not None and c.cls.ext_bases():
        if name in ("register_parameter", "register_constraint", "initialize", "register_buffer", "register_prior"):
            return MethV(b, name)
        return MethV(b, name) if name in ("train", "eval", "parameters", "to", "state_dict", "load_state_dict", "zero_grad", "named_parameters") \
            else AttrOrMeth(I, b, I.tm(b, st), name, st)
    if c.val is not None:
        t = mk("attr", c.val, name)
        # a symbolic instance: its attributes are read lazily
        r = I.alloc(st, "unk", t, origin=("attr", name, c.origin))
        attrs = dict(c.attrs)
        attrs[name] = r
        st.heap[b.cid] = st.heap[b.cid].rep(attrs=attrs)
        return r
    I.raise_(st, "AttributeError", TRUE, implicit=True, val=const(name))


def call_method(I, recv, name, args, kw, st):
    from .interp import ExtV, Fn, FuncV, Phi
    Ref = I_Ref()
    if isinstance(recv, Phi):
        return I.both(recv, st, lambda v, s: call_method(I, v, name, args, kw, s))
    if name.startswith("super."):
        return super_ext(I, recv, name[6:], args, kw, st)
    if isinstance(recv, FuncV) or isinstance(recv, Fn) and not isinstance(recv, ExtV):
        if name in ("cache_clear", "cache_info"):
            return NONE
        return I.unk(st, mk("mcall", I.tm(recv, st), name, *ts_of(I, args, st), *kwterms(I, kw, st)))
    kind = kind_of(I, recv, st)
    if kind == "inst":
        return inst_method(I, recv, name, args, kw, st)
    t = I.tm(recv, st)
    if kind in ("list", "dict", "set") and isinstance(recv, Ref):
        r = container_method(I, recv, name, args, kw, st)
        if r is not None:
            return r
    if kind == "str":
        return str_method(I, t, name, args, kw, st)
    a = Args(I, args, kw, st)
    r = array_method(I, recv, t, name, a, st)
    if r is not None:
        return r
    if isinstance(recv, Ref) and name in ("append", "extend", "add", "update", "setdefault", "items", "keys", "values",
                                           "get", "index", "insert", "clear", "remove", "sort", "pop", "reverse") \
            and kind in ("unk", "iter") and t.op not in ("call", "mcall", "attr", "apply") or \
            isinstance(recv, Ref) and kind == "unk" and name in ("append", "extend", "setdefault", "index") or \
            isinstance(recv, Ref) and kind == "unk" and name in ("items", "keys", "values", "get", "update", "insert", "sort", "add", "clear") \
            and (t.op == "attr" and t.args[0].op in ("sym", "obj", "new") or t.op in ("sym", "idx", "ite", "phi")):
        r = container_method(I, recv, name, args, kw, st)
        if r is not None:
            return r
    return generic_method(I, recv, t, name, args, kw, st)


GRAPH_MUT = {"add_edges_from", "add_nodes_from", "add_edge", "add_node", "remove_node", "remove_edge", "remove_nodes_from",
             "remove_edges_from", "add_weighted_edges_from", "drop", "rename", "set_index", "reset_index", "sort_values",
             "fillna", "dropna", "replace", "step", "zero_grad", "backward", "train", "eval", "seek", "write"}


GRAPH_ONLY = {x for x in GRAPH_MUT if x.startswith(("add_", "remove_"))}
INPLACE = {"eliminate_zeros", "setdiag", "resize", "partition", "itemset", "put", "prune"}


def generic_method(I, recv, t, name, args, kw, st):
    Ref = I_Ref()
    ts = ts_of(I, args, st)
    if name == "index" and len(ts) == 1 and not kw:
        I.raise_(st, "ValueError", Not(S.In(ts[0], t)), implicit=True)
        I.try_modelled = True
        return S.Index(t, ts[0])
    if not isinstance(recv, Ref) and not ts and not kw and t.op in ("sym", "idx", "attr") and name in ("items", "keys", "values"):
        return keys_of(t) if name == "keys" else mk({"items": "items", "values": "vals"}[name], t)
    if ispath(t):
        if name in ("exists", "is_file", "is_dir") and not args:
            return call_ext(I, {"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir"}[name], [t.args[1]], {}, st)
        if name == "joinpath" and args:
            return mk("call", "pathlib.Path", mk("call", "os.path.join", t.args[1], *[path_text(x) for x in ts]))
        if name in ("as_posix", "__str__", "__fspath__", "resolve", "absolute", "expanduser"):
            return t.args[1] if name.startswith(("as", "__")) else t
        if name == "open":
            return call_builtin(I, "open", [t.args[1], *args], kw, st)
        if name == "iterdir" and not args:
            D = I.known_items(call_ext(I, "os.listdir", [t.args[1]], {}, st), st)
            if D is not None:
                return I.alloc(st, "list", items=[mk("call", "pathlib.Path", mk("call", "os.path.join", t.args[1], I.tm(x, st))) for x in D])
    if name == "rename" and "inplace" not in kw and rep_(t) not in ("dict", "seq"):
        # new column names from the old ones
        from .interp import Fn
        f = kw.get("columns")
        if f is None and len(args) == 1 and (is_const(I.tm(kw["axis"], st), "columns") or is_const(I.tm(kw["axis"], st), 1) if "axis" in kw else False):
            f = args[0]
        if isinstance(f, Fn):
            cols = mk("attr", t, "columns")
            k = fresh_bv()
            return I.unk(st, mk("setattr", t, "columns", mk("map", Len(cols), k, I.tm(I.call(f, [Idx(cols, k)], {}, st), st), TRUE)))
    kts = kwterms(I, kw, st)
    if kw.get("inplace") is TRUE:
        I.effect(st, recv, name + "(inplace)")
        _functional_update(I, recv, mk("mcall", t, name, *ts, *kts), st)
        I.event(st, "." + name, t, ts, {k: I.tm(v, st) for k, v in kw.items()})
        return NONE
    random_obj = t.op == "call" and t.args[0] in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState")
    if name.startswith("add_") and "networkx" in str(root_call(t)) or name in GRAPH_ONLY:
        I.effect(st, recv, name)
        I.event(st, "." + name, t, ts, {k: I.tm(v, st) for k, v in kw.items()})
        _functional_update(I, recv, mk("mcall", t, name, *ts, *kts), st)
        return NONE
    if name in INPLACE and isinstance(recv, Ref):
        I.effect(st, recv, name)
        _functional_update(I, recv, mk("mcall", t, name, *ts, *kts), st)
        return NONE
    if name == "shuffle" and args:
        I.effect(st, args[0], name)
        _functional_update(I, args[0], mk("call", name, ts[0], fresh_rnd(I)), st)
    if random_obj:
        I.effect(st, recv, name + "() advances the generator")
        r = I.arr(st, mk("mcall", t, name, *ts, *kts, fresh_rnd(I)))
        I.event(st, "." + name, t, ts, {k: I.tm(v, st) for k, v in kw.items()})
        return r
    res = mk("mcall", t, name, *ts, *kts)
    if name == "solve" and str(root_call(t)).startswith("cvxpy.Problem"):
        # solving sets the value of every variable of the problem
        inside = set(subterms(t))
        for cid, c in list(st.heap.items()):
            if c.kind in ("unk", "arr") and isinstance(c.val, T) and c.val.op == "call" and c.val.args[0] == "cvxpy.Variable" and c.val in inside:
                st.heap[cid] = c.rep(val=mk("call", "cvxpy.solution", c.val, t, *ts, *kts))
    if name.endswith("_") and not name.startswith("_"):
        I.effect(st, recv, name)
        _functional_update(I, recv, res, st)
    e = I.event(st, "." + name, t, ts, {k: I.tm(v, st) for k, v in kw.items()}, result=res, tags=(recv,))
    r = I.unk(st, res, base=())
    if name == "edges" and I_graph(t) and (ts + [kw.get("data")])[0] is TRUE and len(ts) + len(kw) == 1 and isinstance(recv, I_Ref()):
        # every edge with its dictionary, which belongs to the graph
        st.heap[r.cid] = st.heap[r.cid].rep(extra=("graphview", recv))
    e.tags = e.tags + (r,)
    return r


GRAPHS = ("networkx.erdos_renyi_graph", "networkx.gnp_random_graph", "networkx.fast_gnp_random_graph", "networkx.binomial_graph",
          "networkx.gnm_random_graph", "networkx.random_geometric_graph", "networkx.watts_strogatz_graph", "networkx.barabasi_albert_graph")


def I_graph(t):
    """A drawn graph, perhaps with attributes set since."""
    while True:
        if t.op == "call" and t.args[0] == "networkx.set_edge_attributes" and len(t.args) > 1 and isinstance(t.args[1], T):
            t = t.args[1]
        elif t.op in ("store", "setattr"):
            t = t.args[0]
        elif t.op == "rec":
            ini = [x for x in (t.args[4].args if isinstance(t.args[4], T) else t.args[4])]
            if len(ini) != 1:
                return False
            t = ini[0]
        else:
            return t.op == "call" and t.args[0] in GRAPHS


def root_call(t):
    while t.op in ("mcall", "attr", "store", "idx"):
        t = t.args[0]
    return t.args[0] if t.op == "call" else t.op


def _functional_update(I, recv, nv, st):
    Ref = I_Ref()
    if isinstance(recv, Ref):
        c = st.heap[recv.cid]
        if c.kind in ("unk", "arr"):
            st.heap[recv.cid] = c.rep(val=nv)
            I.store_through(st, c, nv)


def str_method(I, t, name, args, kw, st):
    ts = ts_of(I, args, st)
    if t.op == "const" and all(x.op == "const" for x in ts) and not kw and not isinstance(cval(t), S.Uniq) \
            and not any(isinstance(cval(x), S.Uniq) for x in ts) and name in (
            "strip", "lower", "upper", "startswith", "endswith", "replace", "split", "lstrip", "rstrip", "title", "capitalize", "removeprefix", "removesuffix"):
        v = getattr(cval(t), name)(*[cval(x) for x in ts])
        if isinstance(v, list):
            return I.alloc(st, "list", items=[const(x) for x in v])
        return const(v)
    if name == "join" and args:
        its = I.known_items(args[0], st)
        if its is not None:
            out = []
            for i, x in enumerate(its):
                if i:
                    out.append(t)
                out.append(I.tm(x, st))
            return concat_str(out)
    if name == "format":
        return mk("str", mk("fmt", t), *[mk("fmt", x) for x in ts], *[mk("fmt", I.tm(v, st)) for v in kw.values()])
    if t.op == "const" and isinstance(cval(t), S.Uniq) and name in ("lower", "upper", "strip", "casefold") and not args:
        return mk("mcall", t, name)
    return mk("mcall", t, name, *ts, *kwterms(I, kw, st))


def array_method(I, recv, t, name, a, st):
    k = rep_(t)
    n = len(a.args)
    if name in ("toarray", "todense"):
        return I.arr(st, mk("dense", t))
    if name in ("tocsr", "tocsc", "tocoo", "tolil"):
        return alias(I, st, t if k == "sparse" else mk("csr", t), recv, same=True) if k == "sparse" else I.arr(st, mk("csr", t))
    if name in ("dot", "matmul", "mm", "mv", "__matmul__") and n == 1:
        return wrap(I, st, MatMul(t, a.t(0)))
    if name in ("transpose", "t") and n == 0:
        return alias(I, st, Tr(t), recv)
    if name in ("neg", "negative") and n == 0:
        return wrap(I, st, Mul(const(-1), t))
    if name in ("conj", "conjugate") and n == 0:
        return I.arr(st, t)
    if name in ("copy", "clone") and n == 0 and k in ("dense", "sparse", "unk"):
        return I.arr(st, t) if k != "unk" or t.op in ("sym", "attr", "idx", "phi") else None
    if name == "astype" or name == "type":
        tn = type_name(I, a.v(0, "dtype"), st) if a.v(0, "dtype") is not None else None
        if tn is None or name == "type" and tn.startswith("element type of "):
            return None
        if a.kw.get("copy") is FALSE and isinstance(recv, I_Ref()):
            return alias(I, st, cast(I, t, tn), recv, same=True)
        return wrap(I, st, cast(I, t, tn)) if rep_(t) != "unk" else I.arr(st, cast(I, t, tn))
    if name == "flatten" and n == 0:
        return I.arr(st, flat(t))
    if name == "ravel" and n == 0:
        return alias(I, st, flat(t), recv, same=True)
    if name == "reshape":
        ts = ts_of(I, a.args, st)
        if len(ts) == 1 and is_const(ts[0], -1):
            return alias(I, st, flat(t), recv, same=True)
        return alias(I, st, mk("reshape", t, *ts), recv)
    if name == "squeeze" and n == 0:
        return alias(I, st, squeeze(t), recv, same=True)
    if name == "tolist" and n == 0:
        return I.alloc(st, "list", mk("listof", t))
    if name in ("to_numpy",):
        return I.arr(st, mk("attr", t, "values"))
    if I.devices and name == "cpu" and n == 0:
        return on_device(I, recv, const("cpu"), st)
    if name in ("numpy", "cpu", "detach", "contiguous") and n == 0:
        return alias(I, st, t, recv, same=True)
    if name == "to":
        if I.devices:
            w = a.kw["device"] if "device" in a.kw else a.args[0] if a.args else None
            if w is not None and not str(getattr(w, "name", "")).startswith(("torch.", "numpy.")):
                return on_device(I, recv, w, st)
        return alias(I, st, t, recv, same=True)
    if name in ("float", "double") and n == 0:
        return I.arr(st, t)
    if name in ("long", "int") and n == 0:
        return I.arr(st, cast(I, t, "builtins.int"))
    if I.tensors and name == "mean" and n == 0 and not a.kw and t.op != "red":
        return mk("red", const("mean"), t, NONE)
    if I.tensors and name in ("std", "var") and t.op != "red":
        return _tensor_std(I, t, a, st, name)
    if name in ("sum", "mean", "std", "var", "max", "min", "prod", "any", "all") and k in ("dense", "sparse", "bool") or \
            name in ("max", "min", "sum", "any", "all") and t.op in ("mcall", "call", "attr", "phi", "sym", "idx", "asarr") and k != "seq":
        ax = a.t(0, "axis", a.t(None, "dim"))
        if a.only("axis", "dim"):
            return wrap(I, st, mk("red", const(name), t, ax))
    if name in ("diagonal", "diag") and n == 0 and k != "dict":
        return I.arr(st, mk("diagof", t))
    if name == "round" and k != "unk":
        return wrap(I, st, mk("round", t, a.t(0, "decimals", ZERO)))
    if name == "nonzero" and n == 0:
        return mk("nztuple", _mask(t))
    if name == "multiply" and n == 1:
        return wrap(I, st, Mul(t, a.t(0)))
    if name in ("power", "pow") and n == 1:
        return wrap(I, st, Pow(t, a.t(0)))
    if name in ("exp", "abs", "sqrt", "sign", "log") and n == 0 and k != "str":
        return wrap(I, st, mk(name, t))
    if name == "argsort" and n == 0:
        return I.arr(st, mk("call", "numpy.argsort", t))
    if name in ("fill", "fill_") and n == 1:
        I.effect(st, recv, "fill")
        Ref = I_Ref()
        if isinstance(recv, Ref):
            c = st.heap[recv.cid]
            nv = mk("store", t, FULL, a.t(0))
            st.heap[recv.cid] = c.rep(val=nv)
            I.store_through(st, c, nv)
        return NONE
    if name == "sort" and k == "dense":
        I.effect(st, recv, "sort")
        _functional_update(I, recv, mk("call", "numpy.sort", t), st)
        return NONE
    if name == "dim" and n == 0 and not a.kw and I.tensors:
        from . import shapes
        d = shapes.ndim(t)
        if d is not None:
            return const(d)
    if name == "item" and n == 0:
        return mk("item", t)
    return None


# ---- instances of analysed classes that extend library classes ----------
def super_ext(I, recv, name, args, kw, st):
    """Method inherited from a library base class."""
    if name in ("__init__", "__post_init__", "__setattr__", "__init_subclass__"):
        Ref = I_Ref()
        if isinstance(recv, Ref) and (args or kw):
            c = st.heap[recv.cid]
            attrs = dict(c.attrs)
            if c.cls is not None and any("ExactGP" in b for b in c.cls.ext_bases()) and len(args) >= 3:
                attrs["likelihood"] = args[2]
            st.heap[recv.cid] = st.heap[recv.cid].rep(attrs=attrs)
        I.event(st, "super." + name, None, ts_of(I, args, st), {k: I.tm(v, st) for k, v in kw.items()})
        return NONE
    return inst_method(I, recv, name, args, kw, st)


def inst_method(I, recv, name, args, kw, st):
    c = st.heap[recv.cid]
    a = Args(I, args, kw, st)
    if name == "register_parameter":
        n = a.t(0, "name")
        if n.op == "const":
            attrs = dict(st.heap[recv.cid].attrs)
            # parameters are learned: their value is a symbol of the instance
            p = I.alloc(st, "arr", mk("param", cval(n)), origin=("attr", cval(n), c.origin))
            attrs[cval(n)] = p
            st.heap[recv.cid] = st.heap[recv.cid].rep(attrs=attrs)
        I.event(st, ".register_parameter", None, [n, a.t(1, "parameter")], {})
        return NONE
    if name == "register_constraint":
        n = a.t(0, "param_name")
        if n.op == "const":
            attrs = dict(st.heap[recv.cid].attrs)
            attrs[cval(n) + "_constraint"] = a.v(1, "constraint")
            st.heap[recv.cid] = st.heap[recv.cid].rep(attrs=attrs)
        I.event(st, ".register_constraint", None, [n, a.t(1, "constraint")], {})
        return NONE
    if name == "initialize":
        I.event(st, ".initialize", None, ts_of(I, args, st), {k: I.tm(v, st) for k, v in kw.items()})
        for k, v in kw.items():
            if k != "**":
                attrs = dict(st.heap[recv.cid].attrs)
                attrs[k] = v
                st.heap[recv.cid] = st.heap[recv.cid].rep(attrs=attrs)
        return recv
    ts = ts_of(I, args, st)
    t = I.tm(recv, st)
    res = mk("mcall", t, name, *ts, *kwterms(I, kw, st))
    I.event(st, "." + name, t, ts, {k: I.tm(v, st) for k, v in kw.items()}, result=res)
    if name in ("train", "eval", "to"):
        return recv
    return I.unk(st, res)
