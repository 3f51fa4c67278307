"""Three-valued comparison of two value terms.

EQUAL      the normal forms coincide under every feasible combination of the
           guards that occur in them;
DIFFERENT  under some combination they differ, and the smallest differing
           parts are built only from operations the normal form is complete
           for (so the difference is one of behaviour, not of spelling);
UNKNOWN    otherwise.
"""
from __future__ import annotations

from fractions import Fraction

from . import normal as N
from . import shapes
from . import simplify as S
from .normal import (BINDERS, LISTS, NAdd, isnum, nf, nsubst, num, refresh, top)
from .simplify import FALSE, TRUE
from .terms import NONE, ONE, ZERO, T, const, cval, fresh_bv, is_const, mk, occurs, show, subterms

EQUAL, DIFFERENT, UNKNOWN = "EQUAL", "DIFFERENT", "UNKNOWN"

RIGID = {
    "const", "sym", "bv", "add", "mul", "pow", "matmul", "tr", "inv", "pinv", "proj", "matpow", "eye", "zeros", "fill",
    "idx", "slice", "tuple", "list", "dict", "kv", "set", "lt", "le", "eq", "not", "and", "or", "select", "ite", "len",
    "dim", "eigvals", "eigvecs", "diagm", "diagof", "abs", "red", "round", "sum", "map", "any", "all", "in",
    "index", "sorted", "listof", "tupleof", "setof", "keys", "scatter", "entry", "bind", "empty", "isnone", "truthy",
    "cat", "nz", "union", "setmap", "norm", "exp", "log", "count", "isinstance", "enum", "vals", "items", "flatmap",
    "first", "reversed", "str", "fmt", "sadd", "range", "concat", "prod", "lam", "apply", "sortedby", "reshape", "flat",
    "squeeze", "slicelen", "mod", "floordiv", "store", "dictmap", "shape", "call", "mcall", "kw", "attr", "fn", "cast",
    "exc", "sign", "maxof", "minof", "sumof", "rec", "phi", "floor", "ceil", "trunc",
}
# external functions treated as uninterpreted but deterministic and total:
# a difference in their arguments is a difference of behaviour
CALLS = {
    "numpy.finfo", "numpy.corrcoef", "numpy.linspace", "numpy.argsort", "numpy.unique", "itertools.combinations",
    "int", "float", "str", "abs", "numpy.sort",
}


class TooBig(Exception):
    pass


def unroll(t, memo=None):
    """Write out what ranges over a constant number of values."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if len(memo) > 20000:
        raise TooBig
    d = t.args[0] if t.args and isinstance(t.args[0], T) else None
    n = int(cval(d)) if d is not None and isnum(d) and num(d.args[0]).denominator == 1 and 0 <= cval(d) <= 6 else None
    out = None
    if n is not None and t.op == "rec" and t.args[6] is FALSE:
        _, k, j, phis, inits, steps, _ = t.args
        vals = list(inits.args)
        for i in range(n):
            m = {k: const(i), **dict(zip(phis.args, vals))}
            vals = [nsubst(x, m) for x in steps.args]
        out = unroll(vals[int(cval(j))], memo)
    elif n is not None and t.op == "sum":
        out = ZERO
        for i in range(n):
            out = NAdd([out, unroll(nsubst(t.args[2], {t.args[1]: const(i)}), memo)])
    elif n is not None and t.op == "map" and t.args[3] is TRUE:
        out = top("list", tuple(unroll(nsubst(t.args[2], {t.args[1]: const(i)}), memo) for i in range(n)))
    elif t.op == "scatter":
        es = []
        for e in t.args[1:]:
            binds = e.args[4:]
            if len(binds) == 1 and isnum(binds[0].args[0]) and 0 <= cval(binds[0].args[0]) <= 6:
                k = binds[0].args[1]
                es += [top("entry", tuple(unroll(nsubst(x, {k: const(i)}), memo) if isinstance(x, T) else x for x in e.args[:4]))
                       for i in range(int(cval(binds[0].args[0])))]
            else:
                es.append(unroll(e, memo))
        out = top("scatter", (unroll(t.args[0], memo), *es))
    if out is None:
        if not any(isinstance(a, T) for a in t.args):
            out = t
        else:
            new = tuple(unroll(a, memo) if isinstance(a, T) else a for a in t.args)
            out = t if all(x is y for x, y in zip(new, t.args)) else top(t.op, new)
    memo[t] = out = rows(out)
    return out


def rows(t):
    """An array every row of which has been written, as the list of its rows."""
    got, b = {}, t
    while b.op in ("store", "scatter"):
        for c, i, v in ([(TRUE, *b.args[1:3])] if b.op == "store" else [e.args[:3] for e in b.args[1:]]):
            i = i.args[0] if i.op == "tuple" and i.args and all(z is S.FULL for z in i.args[1:]) else i
            if c is not TRUE or not isnum(i):
                return t
            if b.op == "scatter" and i in got:
                return t
            got.setdefault(i, v)
        b = b.args[0]
    n = (shapes.shape(b) or (None,))[0]
    if b is t or b.op not in ("zeros", "fill") or n is None or not isnum(n):
        return t
    want = [const(i) for i in range(int(cval(n)))]
    if set(want) != set(got):
        return t
    return top("list", tuple(got[i] for i in want))


class Cmp:
    def __init__(self, calls=(), mcalls=(), attrs=True, forbid=(), lams=False, budget=3000, deep=True, extra=(), distinct=()):
        self.calls = CALLS | set(calls)
        self.mcalls = set(mcalls)
        self.attrs = attrs
        self.forbid = set(forbid)
        self.extra = set(extra)
        self.distinct = set(distinct)
        self.lams = lams
        self.budget = budget
        self.steps = 0
        self.deep = deep
        self.why = None
        self.shared = frozenset()  # sizes that occur on both sides
        self.ends = None          # the two terms compared
        self.opened = set()       # bound variables introduced by the comparison itself

    # ------------------------------------------------------------ rigidity
    def rigid(self, t):
        return self.loose(t) is None

    def loose(self, t):
        """A part of t whose difference need not be a difference of behaviour."""
        # sorting by a later part of the elements is a reordering
        keys = {x.args[1] for x in subterms(t) if x.op == "sortedby" and x.args[1].op == "lam" and x.args[1].args[1].op == "idx"
                and x.args[1].args[1].args[0] is x.args[1].args[0] and is_const(x.args[1].args[1].args[1])
                and x.args[1].args[1].args[1] is not ZERO}
        bound = {k.args[0] for k in keys}
        for x in subterms(t):
            o = x.op
            if x in bound:
                continue
            if o not in RIGID and o not in self.extra or o in self.forbid and not sizes_only(x):
                return x
            if o == "bv" and x.args[0] > 0 and x not in self.opened:
                return x          # a variable whose binder was lost
            if o == "call" and x.args[0] not in self.calls:
                return x
            if o in ("len", "dim") and not opaque(x.args[0]) and x not in self.shared:
                return x          # a size that was not worked out
            if o == "phi" and x.args[0] != "rec":
                return x
            if o == "rec" and (len(x.args[3].args) != 1 or x.args[6] is not FALSE):
                return x          # several carried values have several formulations
            if o == "mcall" and x.args[1] not in self.mcalls:
                return x
            if o == "attr" and not (self.attrs(x) if callable(self.attrs) else self.attrs):
                return x
            if o == "fn" and x.args and x.args[0] not in ("ext", "class", "mod") and not self.lams:
                return x
            if o in ("lam", "apply") and not self.lams and x not in keys:
                return x
        return None

    # ------------------------------------------------------------ compare
    def __call__(self, a, b, facts=()):
        """facts: conditions assumed true."""
        a, b = nf(a), nf(b)
        for f in facts:
            a, b = self.assume_in(a, f, True), self.assume_in(b, f, True)
        self.steps = 0
        self.why = None
        self.ends = (a, b)
        path = tuple((nf(f), True) for f in facts)
        r = self.go(a, b, path)
        if r != EQUAL and N.VANISH:
            p, q = powers_apart(a), powers_apart(b)
            if p is not a or q is not b:
                why, self.why, self.steps = self.why, None, 0
                if self.go(p, q, path) == EQUAL:
                    return EQUAL
                self.why = why
        if r == UNKNOWN:
            r = self.written_out(a, b, path)
        if r == UNKNOWN:
            r = self.altered(a, b, path)
        if r == UNKNOWN:
            r = self.instances(a, b, facts)
        return r

    def written_out(self, a, b, path):
        """Compare with what runs over a small known number of members written out."""
        if not any(x.op == "map" and isnum(x.args[0]) for t in (a, b) for x in subterms(t)):
            return UNKNOWN
        why = self.why
        try:
            p, q = unroll(a), unroll(b)
        except TooBig:
            return UNKNOWN
        if p is a and q is b:
            return UNKNOWN
        r = self.go(p, q, path)
        if r == UNKNOWN:
            self.why = why
        return r

    def instances(self, a, b, facts):
        """Compare a recurrence written out for small sizes (two and three rounds)."""
        why = self.why
        sizes = {y for x in subterms(a) if x.op == "rec" for y in subterms(x.args[0]) if y.op == "sym" and shapes.shape(y) == ()}
        if not sizes or len(sizes) > 1:
            return UNKNOWN
        s = next(iter(sizes))
        sized = [x for x in {*subterms(a), *subterms(b)} if x.op == "sym" and any(s is d for d in shapes.shape(x) or ())]
        for n in (2, 3):
            m = {s: const(n)}
            for x in sized:
                y = m[x] = mk("sym", f"{x.args[0]}[{n}]", *x.args[1:])
                shapes.SHAPES[y] = tuple(const(n) if d is s else d for d in shapes.shape(x))
                shapes.REPS[y] = shapes.rep(x)
            if any(nsubst(nf(f), m) is not TRUE for f in facts if s in subterms(f)):
                continue
            try:
                p, q = unroll(nsubst(a, m)), unroll(nsubst(b, m))
            except TooBig:
                break
            if any(x.op == "rec" and not isnum(x.args[0]) for x in {*subterms(p), *subterms(q)}):
                break
            self.steps = 0
            fs = [f for f in facts if s not in subterms(f)]
            if self.go(p, q, tuple((nf(f), True) for f in fs)) == DIFFERENT:
                return DIFFERENT
        self.why = why
        return UNKNOWN

    def altered(self, a, b, path):
        """a is b up to an operation that changes the values it is applied to."""
        why = self.why
        there = set(subterms(b))
        new = [x for x in subterms(a) if x not in there]
        here = [(x, alteration(x)) for x in new]
        here = [(x, y) for x, y in here if y is not None]
        tries = [dict([h]) for h in here[:12]] + ([dict(here)] if 1 < len(here) else [])
        sibs = [(x, ys) for x in new[:4000] for ys in [siblings(x)] if ys]
        tries += [{x: y} for x, ys in sibs for y in ys][:24]
        if 1 < len(sibs) <= 8:
            tries += [{x: ys[0] for x, ys in sibs}, {x: ys[-1] for x, ys in sibs}]
        for m in tries:
            self.steps = 0
            if self.go(renamed(nsubst(a, m)), renamed(b), path) == EQUAL:
                x = next(iter(m))
                self.why = (DIFFERENT, path, (x, m[x]))
                return DIFFERENT
        self.why = why
        return UNKNOWN

    def go(self, a, b, path):
        if a is b:
            return EQUAL
        self.steps += 1
        if self.steps > self.budget:
            return UNKNOWN
        c = self.guard(a) or self.guard(b)
        if c is not None:
            verdict = EQUAL
            unknown = False
            for v in (True, False):
                p = path + ((c, v),)
                if not feasible(p):
                    continue
                r = self.go(self.assume_in(a, c, v), self.assume_in(b, c, v), p)
                if r == DIFFERENT:
                    return DIFFERENT
                if r == UNKNOWN:
                    unknown = True
            return UNKNOWN if unknown else verdict
        pairs = []
        sizes = lambda t: {x for x in subterms(t) if x.op in ("len", "dim")}
        self.shared = sizes(a) & sizes(b)
        if not self.diff(a, b, pairs, 0):
            pairs = [(a, b)]
        if not pairs:
            return EQUAL
        for p, q in pairs:
            for x, y in ((p, q), (q, p)):
                if x.op in ("dict", "list", "set") and not x.args:
                    self.shared = self.shared | sizes(y)   # nothing where something is required
        sure = [p for p in pairs if certain(*p) or unrelated(*p, path)]
        if sure:
            self.why = (DIFFERENT, path, sure[0])
            return DIFFERENT
        bad = [p for p in pairs if (not (self.rigid(p[0]) and self.rigid(p[1])) or self.weak(*p) and not nothing(*p, path))]
        if bad:
            if self.why is None:
                self.why = (UNKNOWN, path, bad[0], self.loose(bad[0][0]) or self.loose(bad[0][1]))
            return UNKNOWN
        m = pinned(path, counts(a) | counts(b))
        if m:
            # the conditions leave one whole number
            p, q = nsubst(a, m), nsubst(b, m)
            if (p is not a or q is not b) and self.go(p, q, ()) == EQUAL:
                return EQUAL
        if self.reworded(path):
            if self.why is None:
                self.why = (UNKNOWN, path, pairs[0], None)
            return UNKNOWN
        self.why = (DIFFERENT, path, pairs[0])
        return DIFFERENT

    def reworded(self, path):
        """An unfamiliar condition stands where another one is required."""
        if len(path) < 2 or self.ends is None:
            return False
        if isinstance(self.ends[0], T):
            self.ends = tuple(set(subterms(t)) for t in self.ends)
        ours, theirs = self.ends
        def only(c, x, y):
            # a condition, or its opposite, is found on one side
            n = S.Not(c)
            return (c in x or n in x) and not (c in y or n in y)
        mine = [c for c, _ in path if only(c, ours, theirs) and not self.rigid(c)]
        return bool(mine) and any(only(c, theirs, ours) for c, _ in path)

    def guard(self, t):
        """An outermost closed guard of t."""
        seen = set()
        stack = [t]
        best = None
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                for c in atoms(x.args[0]):
                    if closed(c):
                        return c
            if x.op in ("any", "all", "entry", "map", "flatmap", "setmap") and False:
                pass
            stack.extend(y for y in x.args if isinstance(y, T))
        return best

    def assume_in(self, t, c, v):
        return assume_in(t, c, v)

    def weak(self, a, b):
        return weak(a, b, self.distinct)

    # smallest differing parts
    def diff(self, a, b, out, depth):
        """Collect differing pairs; False when the heads do not match."""
        if a is b:
            return True
        if depth > 60 or from_end(a, b) or {a.op, b.op} & {"obj", "new"}:
            return False
        for x, y in ((a, b), (b, a)):
            if x.op == "map" and x.args[3] is TRUE and (y in LISTS or y.op == "listof") and x.args[0] is top("len", (y,)):
                # element by element
                k = fresh_bv()
                self.opened.add(k)
                p, q = nsubst(x.args[2], {x.args[1]: k}), top("idx", (y.args[0] if y.op == "listof" else y, k))
                out.append((p, q) if x is a else (q, p))
                return True
            if x.op in ("tuple", "list") and y.op not in ("tuple", "list") and any(z.op == "idx" and z.args[0] is y and is_const(z.args[1]) for z in x.args):
                # part by part
                sub = []
                for i, z in enumerate(x.args):
                    q = top("idx", (y, mk("const", i)))
                    if z is not q:
                        sub.append((z, q) if x is a else (q, z))
                out += sub or [(a, b)]
                return True
        if {a.op, b.op} == {"tuple", "list"} and len(a.args) == len(b.args):
            sub = []
            for x, y in zip(a.args, b.args):
                if x is not y and not self.diff(x, y, sub, depth + 1):
                    sub.append((x, y))
            out += sub or [(a, b)]
            return True
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        if a.op in ("const", "sym", "bv", "fn"):
            return False
        if a.op == "rec" and len(a.args[3].args) != len(b.args[3].args):
            # more or fewer values are carried from round to round
            out.append((a, b))
            return True
        if a.op == "store" and a.args[0] is not b.args[0] and a.args[1] is not b.args[1]:
            # written in other steps
            out.append((a, b))
            return True
        if a.op in ("add", "mul", "and", "or", "union", "set", "scatter"):
            xs, ys = list(a.args), list(b.args)
            only_a = [x for x in xs if x not in ys]
            only_b = [y for y in ys if y not in xs]
            if len(only_a) == 1 and len(only_b) == 1:
                sub = []
                if self.diff(only_a[0], only_b[0], sub, depth + 1):
                    out += sub
                else:
                    out.append((only_a[0], only_b[0]))
                return True
            # pair greedily those whose heads agree
            if len(only_a) == len(only_b):
                rest = list(only_b)
                acc = []
                for x in only_a:
                    best = None
                    for y in rest:
                        sub = []
                        if self.diff(x, y, sub, depth + 1):
                            w = sum(size(p) + size(q) for p, q in sub)
                            if best is None or w < best[0]:
                                best = (w, y, sub)
                    if best is None:
                        return False
                    rest.remove(best[1])
                    acc += best[2]
                out += acc
                return True
            return False
        if a.op in BINDERS:
            i = BINDERS[a.op]
            k = fresh_bv()
            self.opened.add(k)
            a2 = [nsubst(x, {a.args[i]: k}) if isinstance(x, T) and j != 0 or j == i else x for j, x in enumerate(a.args)]
            b2 = [nsubst(x, {b.args[i]: k}) if isinstance(x, T) and j != 0 or j == i else x for j, x in enumerate(b.args)]
        else:
            a2, b2 = a.args, b.args
        acc = []
        for x, y in zip(a2, b2):
            if isinstance(x, T) != isinstance(y, T):
                return False
            if not isinstance(x, T):
                if x != y:
                    return False
                continue
            if x is y:
                continue
            sub = []
            if self.diff(x, y, sub, depth + 1):
                acc += sub
            else:
                acc.append((x, y))
        out += acc
        return True


# one value can be written with any of these
AGG = {"scatter", "store", "concat", "map", "flatmap", "listof", "tupleof", "setof", "setmap", "dictmap", "sum", "red", "fill", "cat",
       "reshape", "call", "mcall", "prod", "sumof", "maxof", "minof", "apply", "sorted", "sortedby", "list", "dict", "set", "union",
       "select", "idx", "count", "str", "fmt", "sadd", "any", "all", "first", "rec", "recat"}
PLAIN = {"const", "zeros", "eye"}
COPY = {"listof", "tupleof", "asarr", "copyof"}


def atomic(t):
    """An input, or a place in one."""
    while t.op in ("idx", "attr"):
        if t.op == "idx" and not all(atomic(x) or x.op in ("slice", "tuple") for x in t.args[1:2]):
            return False
        t = t.args[0]
    return t.op in ("sym", "bv", "const", "len", "dim")


def opaque(t):
    """Something whose size the analysis has no way to work out."""
    while t.op in ("idx", "attr", "mcall"):
        t = t.args[0]
    return t.op in ("sym", "bv", "const", "len", "dim", "call")


AGGREGATES = {"maxof", "minof", "any", "all", "sum", "red", "count", "index", "sorted", "call", "mcall", "union", "setmap", "scatter", "floordiv", "mod"}


def sizes_only(t):
    return t.op in ("add", "mul") and all(x.op in ("const", "len", "dim") for x in t.args if isinstance(x, T))


def wraps(x, y):
    """x is y with at least one value-changing operation applied to it."""
    changed = False
    while x is not y:
        if x.op in ("round", "abs", "sign", "floor", "exp", "log"):
            changed = True
        elif x.op == "idx" and x.args[1].op == "slice" and x.args[1].args[-1] is mk("const", -1):
            changed = True
        elif x.op != "call" or x.args[0] != "numpy.sort":
            return False
        x = x.args[1 if x.op == "call" else 0]
        if not isinstance(x, T):
            return False
    return changed


# methods and functions that change values or leave some of them out
ALTER_METHODS = {"round", "dropna", "fillna", "clip", "head", "tail", "nlargest", "nsmallest", "interpolate", "ffill", "bfill", "diff", "cumsum",
                 "rank", "shift", "sample", "clamp", "clamp_min", "clamp_max", "add_jitter"}
ALTER_CALLS = {"numpy.clip", "numpy.cumsum", "numpy.diff", "numpy.roll", "numpy.trunc", "numpy.fix", "numpy.rint", "numpy.floor", "numpy.ceil",
               "numpy.around", "numpy.nan_to_num", "torch.nan_to_num", "numpy.random.permutation", "numpy.flip", "numpy.flipud", "numpy.fliplr"}
SEVERAL = {"sorted", "nz", "map", "select", "setmap", "keys", "listof", "flatmap"}


def renamed(t):
    """The same normal form with every bound variable named anew."""
    memo = {}

    def go(x):
        if not any(isinstance(y, T) for y in x.args):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = top(x.op, tuple(go(y) if isinstance(y, T) else y for y in x.args))
        return r

    return go(t)


def alteration(x):
    """The operand of an operation that changes the values or drops some of them."""
    y = None
    if x.op in ("round", "sign", "floor", "ceil", "trunc"):
        y = x.args[0]
    elif x.op == "abs" and not any(z.op in ("eigvals", "norm") for z in subterms(x.args[0])):
        y = x.args[0]
    elif x.op == "mcall" and (x.args[1] in ALTER_METHODS or x.args[1] == "drop_duplicates" and len(x.args) > 2):
        y = x.args[0]
    elif x.op == "call" and x.args[0] in ALTER_CALLS:
        y = next((z for z in x.args[1:] if isinstance(z, T)), None)
    elif x.op == "cast" and str(x.args[0]).split(".")[-1] in ("int", "bool", "int32", "int64", "long") and x.args[1].op == "idx" and any(z.op == "attr" for z in subterms(x.args[1])):
        y = x.args[1]
    elif x.op == "cast" and str(x.args[0]).split(".")[-1] in ("float16", "float32", "half", "single", "bfloat16", "int8", "int16", "uint8", "uint16", "uint32", "uint64") and str(x.args[0]).split(".")[0] in ("numpy", "float16", "float32"):
        y = x.args[1]
    elif x.op == "cast" and str(x.args[0]).startswith("element type of "):
        y = x.args[1]
    elif x.op == "sortedby" and len(x.args) == 2 and x.args[1].op == "lam":
        b = x.args[1].args[-1]
        if b.op in ("sum", "neg", "mul", "add", "len", "abs", "red") or b.op == "idx" and is_const(b.args[1]) and b.args[1] is not ZERO:
            y = x.args[0]
    elif x.op == "idx":
        ix = x.args[1]
        parts = ix.args if ix.op == "tuple" else (ix,)
        part = [s for s in parts if s.op == "slice"]
        if len(part) == len(parts) and all(is_const(z) for s in part for z in s.args):
            for s in part:
                lo, hi, step = (cval(z) for z in s.args)
                if lo in (None, 0) and hi is None and step in (None, 1):
                    continue
                if step in (None, 1) and (isinstance(lo, int) and lo > 0 or isinstance(hi, int) and (hi < 0 or x.args[0].op in SEVERAL)):
                    y = x.args[0]
                else:
                    return None
    return y if isinstance(y, T) and y is not x else None


def siblings(x):
    """What other operations of the same kind give for the same operands."""
    out = []
    if x.op == "red" and cname(x.args[0]) in SPREAD:
        out = [top("red", (const(o), *x.args[1:])) for o in ("sum", "mean") if o != cname(x.args[0])]
        n = count_of(x.args[1], x.args[2])
        if n is not None:
            out.append(top("mul", (top("red", (const("sum"), *x.args[1:])), top("pow", (n, const(-1))))))
        z = x.args[1].args[0] if x.args[1].op == "abs" else x.args[1]
        out.append(top("pow", (top("red", (const("sum"), top("pow", (z, const(2))), x.args[2])), const(Fraction(1, 2)))))
    elif x.op == "pow" and is_const(x.args[1]) and cval(x.args[1]) == Fraction(1, 2) and x.args[0].op == "red" and x.args[0].args[1].op == "pow" \
            and cname(x.args[0].args[0]) == "sum" and is_const(x.args[0].args[1].args[1], 2):
        out = [top("red", (x.args[0].args[0], top("abs", (x.args[0].args[1].args[0],)), x.args[0].args[2]))]
    elif x.op == "call" and cname(x.args[0]).startswith("numpy.nan") and cname(x.args[0])[9:] in SPREAD and len(x.args) in (2, 3):
        ax = x.args[2] if len(x.args) == 3 else NONE
        if ax.op == "kw":
            ax = ax.args[1] if ax.args[0] == "axis" else None
        out = [top("red", (const(cname(x.args[0])[9:]), x.args[1], ax))] if ax is not None else []
    elif x.op == "call" and cname(x.args[0]) == "numpy.count_nonzero" and len(x.args) == 2:
        out = [count_of(x.args[1], NONE)]
    elif x.op == "call" and cname(x.args[0]) in ("numpy.median", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and len(x.args) == 2:
        n = count_of(x.args[1], NONE)
        out = [top("red", (const("sum"), x.args[1], NONE))]
        if n is not None:
            out.append(top("mul", (out[0], top("pow", (n, const(-1))))))
    elif x.op == "call" and cname(x.args[0]) in ("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin", "numpy.hypot") and len(x.args) == 3:
        out = [top("add", x.args[1:]), x.args[1], x.args[2]]
    elif x.op in ("maxof", "minof") and any(z is ZERO for z in subterms(x)) and any(z.op == "len" for z in x.args[0].args):
        out = []
    elif x.op in ("maxof", "minof") and len(x.args) == 1 and x.args[0].op == "set" and len(x.args[0].args) == 2:
        out = [*x.args[0].args, top("add", x.args[0].args)]
    elif x.op == "norm" and len(x.args) == 3 and x.args[1] is not NONE:
        out = [top("norm", (x.args[0], NONE, x.args[2]))]
    elif x.op == "call" and cname(x.args[0]) == "numpy.linspace" and len(x.args) > 4:
        out = [top("call", x.args[:4])]
    elif x.op in ("len", "dim") and isinstance(x.args[0], T) and x.args[0].op == "call" and cname(x.args[0].args[0]) == "numpy.unique":
        out = [count_of(x.args[0].args[1], NONE) or top(x.op, (x.args[0].args[1], *x.args[1:]))]
    elif x.op == "setof":
        out = [x.args[0]]
    return [y for y in out if isinstance(y, T) and y is not x]


SPREAD = ("max", "min", "median", "mean", "prod", "std", "var", "sum", "amax", "amin")


def cname(x):
    return cval(x) if isinstance(x, T) and is_const(x) else x


def count_of(x, axis):
    """Number of values that are reduced."""
    d = shapes.shape(x)
    if d is None or any(z is None for z in d):
        return None
    if axis is NONE:
        return top("mul", tuple(nf(z) for z in d)) if len(d) > 1 else nf(d[0]) if d else None
    if is_const(axis) and isinstance(cval(axis), int) and -len(d) <= cval(axis) < len(d):
        return nf(d[cval(axis)])
    return None


def dims(t):
    try:
        return shapes.ndim(t)
    except Exception:
        return None


def aggregates(t):
    return {x.op if x.op != "call" else x.args[0] for x in subterms(t) if x.op in AGGREGATES}


def from_end(a, b):
    """Two slices, one counted from the front and one from the end by an amount that varies."""
    if a.op != "slice" or b.op != "slice":
        return False
    back = lambda x: isinstance(x, T) and not is_const(x) and x.op == "mul" and isnum(x.args[0]) and num(x.args[0].args[0]) < 0
    return any(back(x) != back(y) for x, y in zip(a.args, b.args))


CHOICES = ("numpy.argmin", "numpy.argmax")


def certain(a, b):
    """Differences that need no further look at their parts."""
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.args[0] in CHOICES and len(x.args) == 2 and (is_const(y) or sizes_only(y) or all(
                z.op in ("add", "mul", "const", "num", "len", "dim") or z.op == "sym" and shapes.rep(z) == "scalar" for z in subterms(y))):
            # the place of the least or the largest of values that are given, not a place that is fixed
            inner = set(subterms(x.args[1]))
            if any(z.op == "sym" for z in inner) and not any(z.op in ("eigvals", "sorted", "sortedby", "lt", "le", "eq", "not", "and", "or", "arange", "where", "call") for z in inner):
                return True
        if x.op == "scatter" and y.op in ("store", "scatter") and x.args[0] is y.args[0] and len(x.args) == 2 and len(x.args[1].args) == 5 and x.args[1].args[0] is TRUE:
            # what was drawn in earlier rounds is written besides what is drawn in this one
            n, k = x.args[1].args[4].args
            own = [z for z in subterms(x.args[1].args[1]) if z.op == "rnd" and k in z.args]
            once = y.op == "store" or len(y.args) == 2 and len(y.args[1].args) == 4
            if own and once and n is not ONE and any(z.op == "rnd" and z.args[0] == own[0].args[0] for z in subterms(y)):
                return True
        if left_out(x) and y.op == "map" and y.args[3] is TRUE and y.args[0] is x.args[1].args[4].args[0]:
            return True
    return False


COMPUTED = {"add", "mul", "pow", "len", "dim", "idx", "int", "cast", "set", "setof", "list", "listof", "tupleof", "tuple", "map", "setmap", "flatmap", "cat", "union",
            "maxof", "minof", "red", "count", "any", "sorted", "sortedby", "sum", "arr", "const", "sym", "bv", "unique", "floordiv", "mod", "ne", "eq", "lt", "le", "not",
            "and", "or", "cvt", "nz", "nztuple", "sumof", "slice", "array", "reshape", "call"}
PURE = {"int", "numpy.unique", "numpy.max", "numpy.min", "numpy.amax", "numpy.size", "builtins.int", "numpy.union1d", "numpy.asarray", "numpy.array"}


def unrelated(a, b, path):
    """The number of nodes, and a number that is worked out from the edges or the
    triangles alone: a node without edges changes the one and not the other."""
    for x, y in ((a, b), (b, a)):
        of = y.args[0] if y.op == "len" else y
        if of.op != "sym" or of.args[0] != "nodes":
            continue
        syms = set()
        if depends(x, syms) and syms and syms <= {"edges", "triangles"} and not any(
                z.op == "sym" and z.args[0] in ("nodes", "B1") for c, _ in path for z in subterms(c)):
            return True
    return False


def depends(t, syms):
    """Collect what a number is worked out from; False if that is not known."""
    if not isinstance(t, T):
        return True
    kind = lambda z: z.args[0] if z.op == "red" and isinstance(z.args[0], str) else cval(z.args[0]) if z.op == "red" and is_const(z.args[0]) else \
        "sum" if z.op == "call" and z.args[0] == "numpy.count_nonzero" else None
    if kind(t) == "sum" and kind(t.args[1]) == "any" and t.args[1].args[1].op == "sym" and t.args[1].args[1].args[0] == "B1" and is_const(t.args[1].args[2], 1):
        syms.add("edges")                # rows that are not all zero are those of nodes with an edge
        return True
    if t.op == "sym":
        syms.add(t.args[0])
        return True
    if t.op not in COMPUTED or t.op == "call" and t.args[0] not in PURE:
        return False
    return all(depends(z, syms) for z in t.args)


def left_out(x):
    """rows of which a part is filled in, up to a number that has nothing to do
    with their length"""
    if x.op != "scatter" or len(x.args) != 2 or x.args[0].op != "zeros" or len(x.args[1].args) != 5:
        return False
    cond, key, val, _, loop = x.args[1].args
    d = shapes.shape(x.args[0])
    if cond is not TRUE or val is ZERO or d is None or len(d) != 2 or key.op != "tuple" or len(key.args) != 2 or loop.op != "bind" \
            or key.args[0] is not loop.args[1] or key.args[1].op != "slice":
        return False
    lo, hi, step = key.args[1].args
    return lo in (NONE, ZERO) and step in (NONE, ONE) and hi.op == "sym" and d[1].op in ("len", "dim") and opaque(d[1].args[0])


def nothing(a, b, path):
    """Nothing at all where one element for each of a number of things is required."""
    for x, y in ((a, b), (b, a)):
        if x.op in ("list", "set", "dict", "tuple") and not x.args:
            n = y.args[0] if y.op in ("map", "setmap") and y.args[3] is TRUE else \
                y.args[1].args[4].args[0] if y.op == "scatter" and len(y.args) == 2 and y.args[0] is x and len(y.args[1].args) == 5 \
                and y.args[1].args[0] is TRUE else None
            if n is not None and n.op in ("len", "dim") and opaque(n.args[0]):
                # the number is not known to be zero here
                about = {n, n.args[0]}
                return not any(z in about for c, _ in path for z in subterms(c))
    return False


def weak(a, b, distinct=frozenset()):
    """Differing parts that could be two spellings of one value."""
    if from_end(a, b):
        return True
    if "store" in (a.op, b.op) and {a.op, b.op} <= {"store", "scatter"} and a.args[0] is not b.args[0]:
        return True
    if a.op == b.op:
        if a.op in ("and", "or"):
            # a condition can be put in other words
            xs, ys = [x for x in a.args if x not in b.args], [y for y in b.args if y not in a.args]
            f = lambda zs: set().union(*[aggregates(z) for z in zs])
            return bool(xs) and bool(ys) and f(xs) != f(ys)
        if a.op == "rnd":
            # drawn in fewer rounds: the same numbers again in the others
            return not (a.args[0] == b.args[0] and len(a.args) != len(b.args))
        if redrawn(a, b):
            return True
        # different functions may still compute the same
        return a.op == "call" and a.args[0] != b.args[0] and not {a.args[0], b.args[0]} <= CALLS | distinct
    if {a.op, b.op} <= {"floor", "ceil", "trunc", "round", "cast", "floordiv"}:
        way = {a.op, b.op}
        return len(way) == 1 or "cast" in way or "trunc" in way or a.args[0] is not b.args[0]
    if redrawn(a, b):
        return True                    # one draw of everything, or one for every part
    for x, y in ((a, b), (b, a)):
        if x.op in COPY:
            # a copy of something
            return True if x.args[0] is y else weak(*((x.args[0], y) if x is a else (y, x.args[0])), distinct)
        if any(z.op == "exc" for z in subterms(x)) and not any(z.op == "exc" for z in subterms(y)):
            return False               # an error where a value is required
    for x, y in ((a, b), (b, a)):
        if x.op in ("mul", "add") and y in x.args:
            return False               # one more factor or addend
        if x.op not in COPY and x.op not in ("keys", "items") and any(y is z for z in x.args):
            return False               # one more operation
        if wraps(x, y):
            return False
        if x.op in ("minof", "maxof", "sorted") and y.op == "idx" and len(x.args) == 1 and y.args[0] is x.args[0] and atomic(y):
            return False               # the least of an arbitrary sequence is not its first
        if x.op in ("minof", "maxof") and x.args[0].op in ("set", "list", "tuple") and len(x.args[0].args) > 1 and y in x.args[0].args:
            return False               # the least of several is not always the same one
    if dims(a) is not None and dims(b) is not None and dims(a) != dims(b):
        return False
    if layouts(a) != layouts(b):
        return False                   # positions that are generated are not those that are given
    for op in ("mul", "add"):
        if a.op == op and b.op == op:
            return False
    if a.op in PLAIN or b.op in PLAIN:
        return False
    if atomic(a) and atomic(b):
        return False
    for x, y in ((a, b), (b, a)):
        if x.op in ("list", "set", "dict", "tuple") and not x.args and y.op == "sym":
            return False               # nothing in place of all that is given
    wa = a.op in AGG and not atomic(a)
    wb = b.op in AGG and not atomic(b)
    return wa or wb


def layouts(t):
    return any(z.op == "call" and str(z.args[0]).startswith("networkx.") and z.args[0].endswith("_layout") for z in subterms(t))


def drawn(t):
    """For every draw of numbers: the rounds it is made in and the axes of what it gives."""
    return {(len(z.args[-1].args) - 1, len(z.args) - 2) for z in subterms(t)
            if z.op == "call" and len(z.args) > 1 and isinstance(z.args[-1], T) and z.args[-1].op == "rnd"}


def redrawn(a, b):
    """Numbers drawn all at once in one and round by round in the other."""
    p, q = drawn(a), drawn(b)
    return p != q and {sum(x) for x in p} == {sum(x) for x in q}


def size(t):
    n = 0
    for _ in subterms(t):
        n += 1
    return n


def atoms(c):
    if c.op in ("and", "or", "not"):
        for x in c.args:
            yield from atoms(x)
    else:
        yield c


_closed: dict = {}


def closed(t):
    r = _closed.get(t)
    if r is None:
        r = not free(t)
        _closed[t] = r
    return r


def free(t, bound=()):
    if t.op == "bv":
        return t not in bound
    if t.op in BINDERS:
        i = BINDERS[t.op]
        bound = bound + (t.args[i],)
    if t.op == "entry":
        bound = bound + tuple(b.args[1] for b in t.args[4:])
    return any(free(a, bound) for a in t.args if isinstance(a, T))


def counts(t):
    """Symbols used as a number of applications: whole numbers that are not negative."""
    return frozenset(x.args[1] for x in subterms(t) if x.op == "matpow" and x.args[1].op == "sym")


def pinned(path, whole=()):
    """{symbol: number} where inequalities between a symbol and numbers leave one whole number."""
    lo, hi = {t: [0] for t in whole}, {}
    for c, v in path:
        if c.op not in ("lt", "le") or len(c.args) != 2:
            continue
        x, y = c.args
        z = N.NAdd([y, N.NMul([const(-1), x])])        # 0 < z or 0 <= z
        syms = [t for t in (z.args if z.op == "add" else (z,)) if not isnum(t)]
        if len(syms) != 1:
            continue
        t, sign = syms[0], 1
        if t.op == "mul" and len(t.args) == 2 and isnum(t.args[0]) and num(t.args[0].args[0]) == -1:
            t, sign = t.args[1], -1
        if t.op != "sym":
            continue
        k = sum((num(u.args[0]) for u in (z.args if z.op == "add" else ()) if isnum(u)), Fraction(0))
        if k.denominator != 1:
            continue
        # sign * t + k > 0 (or >= 0), or the opposite of it
        least = 1 if c.op == "lt" else 0
        if v:      # sign * t >= least - k
            (lo if sign > 0 else hi).setdefault(t, []).append((least - k) * sign)
        else:      # sign * t <= least - 1 - k
            (hi if sign > 0 else lo).setdefault(t, []).append((least - 1 - k) * sign)
    return {t: const(int(max(lo[t]))) for t in lo if t in hi and max(lo[t]) == min(hi[t])}


def powers_apart(t):
    """(A + B)^n = A^n + B^n for n > 0 where A B = 0 = B A."""
    m = {}
    for x in subterms(t):
        if x.op == "matpow" and x.args[0].op == "add":
            xs = x.args[0].args
            if all(N.NMat([a, b]) is ZERO for a in xs for b in xs if a is not b):
                d = shapes.dim(x.args[0], 0)
                m[x] = S.Ite(S.Eq(x.args[1], ZERO), mk("eye", d, d), N.NAdd([mk("matpow", a, x.args[1]) for a in xs]))
    return nsubst(t, m) if m else t


def assume_in(t, c, v):
    """t under the assumption that the (normal) condition c is v."""
    m = {c: TRUE if v else FALSE}
    n = S.Not(c)
    if n.op != "not":
        m[n] = FALSE if v else TRUE
    if v:
        if c.op == "eq":
            a, b = c.args
            if a.op == "const" and b.op not in ("const",):
                m[b] = a
            elif b.op == "const" and a.op != "const":
                m[a] = b
        elif c.op == "isnone":
            m[c.args[0]] = NONE
        elif c.op == "empty":
            n = mk("len", c.args[0])
            m[n] = ZERO
            for x in subterms(t):
                if x.op == "sym" and n in (shapes.SHAPES.get(x) or ()):
                    m[x] = mk("zeros", mk("tuple", *[ZERO if d is n else d for d in shapes.SHAPES[x]]))
            for x in subterms(t):
                if x.op == "idx" and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) \
                        and x.args[0] in (c.args[0], mk("keys", c.args[0]), mk("vals", c.args[0])) and (x.args[0].op == "keys" or c.args[0] in LISTS):
                    m[x] = mk("exc", "IndexError")
        elif c.op == "truthy":
            m[mk("isnone", c.args[0])] = FALSE
    else:
        if c.op == "eq":
            for a, b in (c.args, c.args[::-1]):
                if a.op == "mod" and is_const(a.args[1], 2) and b in (ZERO, ONE):
                    m[a] = ONE if b is ZERO else ZERO   # whole numbers are even or odd
    if v and c.op == "isnone":
        m[mk("truthy", c.args[0])] = FALSE
    return nsubst(t, m)


def feasible(path):
    """Discard contradictory guard combinations (equalities with constants,
    bounds of one value against constants)."""
    lo, hi, eqs, nes = {}, {}, {}, {}
    nonnone = set()
    path = [(c.args[0], not v) if c.op == "not" else (c, v) for c, v in path]
    said = dict(path)
    for c, v in path:
        if c.op == "truthy" and (mk("empty", c.args[0]) in said):
            # a sequence is true when it is not empty
            e = said[mk("empty", c.args[0])]
            if v and e or not v and not e and said.get(mk("isnone", c.args[0])) is False and shapes.rep(c.args[0]) not in ("dense", "sparse"):
                return False
    for c, v in path:
        o = c.op
        if o == "eq":
            a, b = c.args
            if a.op == "const":
                a, b = b, a
            if b.op == "const":
                if v:
                    if a in eqs and eqs[a] is not b:
                        return False
                    eqs[a] = b
                else:
                    nes.setdefault(a, set()).add(b)
        elif o == "isnone":
            a = c.args[0]
            if v:
                if a in eqs and eqs[a] is not NONE:
                    return False
                eqs[a] = NONE
            else:
                nes.setdefault(a, set()).add(NONE)
        elif o == "empty":
            l = mk("len", c.args[0])
            if v:
                if l in eqs and eqs[l] is not ZERO:
                    return False
                eqs[l] = ZERO
            else:
                nes.setdefault(l, set()).add(ZERO)
                lo[l] = max(lo.get(l, (0, False)), (0, True))
        elif o in ("lt", "le"):
            a, b = c.args
            strict = (o == "lt") == v
            if not v:
                a, b = b, a
            # a < b  or  a <= b
            if isnum(a):
                x = (num(a.args[0]), strict)
                if b not in lo or x > lo[b]:
                    lo[b] = x
            if isnum(b):
                x = (num(b.args[0]), strict)
                if a not in hi or (x[0], not x[1]) < (hi[a][0], not hi[a][1]):
                    hi[a] = x
    for a, b in list(eqs.items()):
        r = eqs.get(mk("mod", *a.args)) if a.op == "floordiv" else None
        if r is not None and isnum(b) and isnum(r) and isnum(a.args[1]):
            # quotient and remainder make up the number
            n = nf(const(num(b.args[0]) * num(a.args[1].args[0]) + num(r.args[0])))
            if eqs.setdefault(a.args[0], n) is not n:
                return False
    for a, b in eqs.items():
        if b in nes.get(a, ()):
            return False
        if isnum(b):
            x = num(b.args[0])
            if a in lo and (x < lo[a][0] or (x == lo[a][0] and lo[a][1])):
                return False
            if a in hi and (x > hi[a][0] or (x == hi[a][0] and hi[a][1])):
                return False
    fixed = {a: b for a, b in eqs.items() if a.op in ("sym", "len", "dim", "bv") and b.op == "const"}
    if fixed:
        # the other conditions for the values these have
        for c, v in path:
            if c.op in ("eq", "lt", "le") and not any(x in fixed for x in c.args) and any(x in fixed for x in subterms(c)):
                r = nsubst(c, fixed)
                if r is (FALSE if v else TRUE):
                    return False
    for a in lo:
        if a in hi:
            l, h = lo[a], hi[a]
            if l[0] > h[0] or (l[0] == h[0] and (l[1] or h[1])):
                return False
    for a in hi:
        if a.op in ("len", "dim", "count"):
            if hi[a][0] < 0 or (hi[a][0] == 0 and hi[a][1]):
                return False
    return True


def explain(why):
    if why is None:
        return ""
    v, path, (a, b) = why[:3]
    blame = f" (not compared: {short(why[3], 80) if why[3] is not None else 'two spellings'})" if len(why) > 3 else ""
    p = " and ".join(("" if x else "not ") + show(c) for c, x in path)
    return (f"when {p}: " if p else "") + blame + f"got {short(a)} where {short(b)} is required"


def short(t, n=400):
    s = show(t)
    return s if len(s) <= n else s[:n] + "..."
