"""Normal forms of value terms.

Two value numbers are compared after rewriting both to a normal form of the
algebra they live in: non-commutative polynomials over matrix atoms with
commuting scalar monomials (transposes pushed inwards, identities and format
conversions erased, products distributed over sums), boolean structure with
flattened and ordered connectives, comprehension/loop forms fused and with
canonically named bound variables.  Every rule is an identity of the algebra.
"""
from __future__ import annotations

from fractions import Fraction

from . import shapes
from . import simplify as S
from .shapes import ndim, rep, shape
from .simplify import FULL, TRUE, FALSE
from .terms import sym
from .terms import (fresh_bv, BINDERS, NONE, ONE, ZERO, T, subterms, const, contains, cval, is_const,
                    is_num, mk, occurs, rebuild)

_memo: dict = {}
# facts used by the algebra: products that vanish (set by the checks)
VANISH: set = set()
# named terms: normal form -> atom
NAMED: dict = {}

ERASE = {"csr", "dense", "asarr", "copyof", "tensor"}
FLOATY = {"builtins.float", "numpy.float64", "torch.float32", "torch.float64", "torch.float", "torch.double",
          "float", "float64", "numpy.floating"}
BITS = {"int8": 8, "int16": 16, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def reset():
    _memo.clear()


def num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


def kconst(q):
    if q.denominator == 1:
        return const(int(q))
    return mk("const", q)


def isnum(t):
    return t.op == "const" and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool) \
        and num(t.args[0]) is not None


def isscalar(t):
    if isnum(t):
        return True
    if t.op == "const":
        return False
    if rep(t) == "scalar":
        return True
    if t.op in ("mul", "add"):
        return all(isscalar(x) for x in t.args)
    if t.op == "pow":
        return isscalar(t.args[0]) and isscalar(t.args[1])
    return shape(t) == ()


# ---------------------------------------------------------------- monomials
def split(t):
    """(coefficient, [(factor, exponent)])"""
    if isnum(t):
        return num(t.args[0]), []
    if t.op == "mul":
        c, fs = Fraction(1), []
        for a in t.args:
            c2, f2 = split(a)
            c *= c2
            fs += f2
        return c, fs
    if t.op == "pow" and isnum(t.args[1]):
        return Fraction(1), [(t.args[0], num(t.args[1].args[0]))]
    return Fraction(1), [(t, Fraction(1))]


def build(c, fs):
    if c == 0:
        return ZERO
    acc = {}
    for f, e in fs:
        acc[f] = acc.get(f, Fraction(0)) + e
    out = []
    for f, e in acc.items():
        if e == 0:
            continue
        if e == 1:
            out.append(f)
        else:
            out.append(mk("pow", f, kconst(e)))
    out.sort(key=lambda x: x.uid)
    if not out:
        return kconst(c)
    if c != 1:
        out.insert(0, kconst(c))
    return out[0] if len(out) == 1 else mk("mul", *out)


def addends(t):
    return list(t.args) if t.op == "add" else [t]


def NAdd(xs):
    acc = {}
    for x in xs:
        for y in addends(x):
            c, fs = split(y)
            if c == 0:
                continue
            m = build(Fraction(1), fs)
            acc[m] = acc.get(m, Fraction(0)) + c
    items = [(m, c) for m, c in acc.items() if c != 0]
    # a zero array added to another array of the same rank disappears
    if len(items) > 1:
        keep = [(m, c) for m, c in items if not iszero(m)]
        if keep and (len(keep) < len(items)) and any(not isscalar(m) for m, _ in keep):
            items = keep
    out = [build(c, split(m)[1]) if m is not ONE else kconst(c) for m, c in items]
    if not out:
        return ZERO
    out.sort(key=lambda x: x.uid)
    return out[0] if len(out) == 1 else mk("add", *out)


def iszero(t):
    return t is ZERO or t.op == "zeros" or (t.op == "fill" and isnum(t.args[1]) and num(t.args[1].args[0]) == 0)


def NMul(xs):
    """Elementwise (broadcasting) product, distributed over sums."""
    sums = [Fraction(1)]
    acc = [(Fraction(1), [])]
    for x in xs:
        if x is ZERO:
            return ZERO
        ads = addends(x)
        if len(ads) > 1 and len(acc) * len(ads) > 64:
            acc = [(c, fs + [(x, Fraction(1))]) for c, fs in acc]
            continue
        new = []
        for c, fs in acc:
            for a in ads:
                c2, f2 = split(a)
                new.append((c * c2, fs + f2))
        acc = new
    out = []
    for c, fs in acc:
        out.append(mono(c, fs))
    return NAdd(out)


def mono(c, fs):
    """One product; scaling by a vector is a product with a diagonal matrix."""
    if c == 0:
        return ZERO
    for f, e in fs:
        if iszero(f):
            return zlike(f, fs)
    mats = [(f, e) for f, e in fs if ndim(f) == 2 and e == 1 and f.op not in ("rowscale",)]
    if len(mats) == 1:
        vecs = [(f, e) for f, e in fs if ndim(f) == 1]
        cols = [(f, e) for f, e in fs if ndim(f) == 2 and f is not mats[0][0]]
        if vecs and not cols:
            k = build(Fraction(1), vecs)
            rest = [(f, e) for f, e in fs if (f, e) not in vecs and (f, e) not in mats]
            m = NMat([mats[0][0], mk("diagm", k)])
            c2, f2 = split(m) if m.op != "add" else (Fraction(1), [(m, Fraction(1))])
            if m.op == "add":
                return NMul([build(c, rest), m])
            return build(c * c2, rest + f2)
    if len(fs) >= 2:
        # v[:, None] * M : scaling of the rows
        two = [(f, e) for f, e in fs if ndim(f) == 2]
        colv = [(f, e) for f, e in two if iscol(f)]
        m2 = [(f, e) for f, e in two if not iscol(f) and e == 1]
        if len(m2) == 1 and colv:
            k = build(Fraction(1), [(iscol(f), e) for f, e in colv])
            rest = [(f, e) for f, e in fs if (f, e) not in two]
            m = NMat([mk("diagm", k), m2[0][0]])
            return NMul([build(c, rest), m]) if m.op == "add" else build(c * split(m)[0], rest + split(m)[1])
    # |x|^even is x^even
    fs2 = []
    for f, e in fs:
        if f.op == "abs" and e.denominator == 1 and e.numerator % 2 == 0:
            fs2.append((f.args[0], e))
        else:
            fs2.append((f, e))
    # indicator factors are idempotent; powers of sums are expanded
    return build(c, fs2)


def zlike(z, fs):
    return z if all(isscalar(f) or f is z for f, _ in fs) else ZERO


def iscol(f):
    if f.op == "idx" and f.args[1].op == "tuple" and len(f.args[1].args) == 2 and f.args[1].args[0] is FULL \
            and f.args[1].args[1] is NONE and ndim(f.args[0]) == 1:
        return f.args[0]
    return None


def NPow(a, b):
    if isnum(b):
        e = num(b.args[0])
        if e == 0:
            return ONE
        if e == 1:
            return a
        if isnum(a):
            v = num(a.args[0])
            if e.denominator == 1 and (v != 0 or e > 0):
                return kconst(v ** int(e))
            if v == 1:
                return ONE
            if e.denominator == 2 and v > 0:
                p, q = (int(z ** 0.5) for z in (v.numerator, v.denominator))
                if p * p == v.numerator and q * q == v.denominator:
                    return kconst(Fraction(p, q) ** e.numerator)
            return mk("pow", kconst(v), kconst(e))
        if a.op == "add" and e.denominator == 1 and 2 <= e <= 3:
            return NMul([a] * int(e))
        if a.op == "add":
            return mk("pow", a, kconst(e))
        c, fs = split(a)
        if e.denominator == 1:
            cc = c ** int(e) if c != 0 else None
            if cc is not None:
                return mono(cc, [(f, x * e) for f, x in fs])
        if c == 1 and len(fs) == 1:
            return mono(Fraction(1), [(fs[0][0], fs[0][1] * e)]) if fs[0][1].denominator != 1 or fs[0][1] % 2 else mk("pow", a, kconst(e))
        if a.op == "mul" and c > 0:
            # factors that are never negative can be taken apart
            out = [(f, x) for f, x in fs if nonneg(f)]
            rest = [(f, x) for f, x in fs if not nonneg(f)]
            if out and len(rest) < len(fs):
                left = build(c, rest) if rest else kconst(c)
                return NMul([mono(Fraction(1), [(f, x * e) for f, x in out]), NPow(left, b)])
        return mk("pow", a, kconst(e))
    return mk("pow", a, b)


def nonneg(f):
    """f >= 0 (elementwise) by its form."""
    if isnum(f):
        return num(f.args[0]) >= 0
    if f.op in ("abs", "count", "len", "eye", "zeros"):
        return True
    if f.op == "pow" and isnum(f.args[1]):
        e = num(f.args[1].args[0])
        return (e.denominator == 1 and e % 2 == 0) or nonneg(f.args[0])
    if f.op == "red" and f.args[0] in (const("sum"), "sum"):
        return nonneg(f.args[1])
    if f.op == "mul":
        c, fs = split(f)
        return c >= 0 and all(nonneg(g) or (x.denominator == 1 and x % 2 == 0) for g, x in fs)
    if f.op == "add":
        return all(nonneg(x) for x in f.args) or square(f)
    return False


def square(f):
    """A written-out square of a sum."""
    ms, cross = [], []
    for x in f.args:
        c, fs = split(x)
        r = c.numerator ** 0.5
        if fs and c > 0 and int(r) ** 2 == c and all(e.denominator == 1 and e % 2 == 0 for _, e in fs):
            ms.append(build(Fraction(int(r)), [(g, e / 2) for g, e in fs]))
        else:
            cross.append(x)
    if not 2 <= len(ms) <= 8 or len(ms) * (len(ms) - 1) // 2 < len(cross):
        return False
    signs = [Fraction(1)]
    for m in ms[1:]:
        p = [x for x in cross if split(x)[1] == split(NMul([ms[0], m]))[1]]
        signs.append(Fraction(-1) if p and split(p[0])[0] < 0 else Fraction(1))
    t = NAdd([NMul([kconst(s), m]) for s, m in zip(signs, ms)])
    return t.op == "add" and NMul([t, t]) is f


# ---------------------------------------------------------------- matrices
def NTr(a):
    if a.op == "add":
        return NAdd([NTr(x) for x in a.args])
    if isscalar(a) or ndim(a) == 1:
        return a
    if a.op == "mul":
        return NMul([NTr(x) for x in a.args])
    if a.op == "matmul":
        if ndim(a) is not None and ndim(a) < 2:
            return a
        return NMat([NTr(x) for x in reversed(a.args)])
    if a.op == "tr":
        return a.args[0]
    if a.op in ("eye",) and a.args[0] is a.args[1]:
        return a
    if a.op in ("diagm", "proj"):
        return a
    if a.op in ("inv", "pinv") and len(a.args) == 1:
        return NInv(a.op, NTr(a.args[0]))
    if a.op == "matpow":
        return mk("matpow", NTr(a.args[0]), a.args[1])
    if a.op in ("zeros",):
        d = S.dims_of_shape(a.args[0])
        if d and len(d) == 2:
            return mk("zeros", mk("tuple", d[1], d[0]))
    if a.op == "ite":
        return S.Ite(a.args[0], NTr(a.args[1]), NTr(a.args[2]))
    return mk("tr", a)


def NInv(op, a):
    if op == "inv":
        if a.op == "inv":
            return a.args[0]
        if a.op == "diagm":
            return mk("diagm", NPow(a.args[0], const(-1)))
        if a.op == "eye":
            return a
    if op == "pinv" and a.op == "eye":
        return a
    return mk(op, a)


def chain_of(x):
    return list(x.args) if x.op == "matmul" else [x]


def broadcasts(x):
    """A sum whose terms have different numbers of dimensions: a product does
    not distribute over it."""
    if x.op != "add":
        return False
    n = {0 if isscalar(a) else ndim(a) for a in x.args}
    n.discard(None)
    return len(n) > 1


def zero_product(xs):
    """A product with a factor zero: of the shape of the product."""
    nd = [ndim(xs[0]), ndim(xs[-1])]
    if any(n not in (1, 2) for n in nd) or any(x is ZERO for x in xs):
        return ZERO
    size = ([shapes.dim(xs[0], 0)] if nd[0] == 2 else []) + ([shapes.dim(xs[-1], 1)] if nd[1] == 2 else [])
    if not size or None in size:
        return ZERO
    return mk("zeros", size[0] if len(size) == 1 else mk("tuple", *size))


def NMat(xs):
    acc = [(Fraction(1), [], [])]        # coefficient, scalar factors, chain
    for x in xs:
        if iszero(x):
            return zero_product(xs)
        new = []
        for c, sf, ch in acc:
            for a in (addends(x) if not broadcasts(x) else [x]):
                if iszero(a):
                    continue
                c2, fs = split(a) if a.op != "add" else (Fraction(1), [(a, Fraction(1))])
                sc = [(f, e) for f, e in fs if isscalar(f)]
                rest = [(f, e) for f, e in fs if not isscalar(f)]
                if not rest:
                    if isscalar(a) and len(xs) > 1:
                        # matmul with a scalar is an error at run time: opaque
                        return mk("opaque", "matmul with a scalar", *xs)
                m = build(Fraction(1), rest)
                new.append((c * c2, sf + sc, ch + chain_of(m)))
        acc = new
    out = []
    for c, sf, ch in acc:
        m = NChain(ch)
        if iszero(m):
            continue
        c3, f3 = split(m) if m.op != "add" else (Fraction(1), [(m, Fraction(1))])
        if m.op == "add":
            out.append(NMul([build(c, sf), m]))
        else:
            out.append(mono(c * c3, sf + f3))
    return NAdd(out) if out else ZERO


def NChain(ch):
    """Normal form of a product of non-sum factors."""
    changed = True
    ch = list(ch)
    while changed:
        changed = False
        # identities
        if len(ch) > 1:
            for i, x in enumerate(ch):
                if x.op == "eye" and x.args[0] is x.args[1]:
                    del ch[i]
                    changed = True
                    break
            if changed:
                continue
        for i in range(len(ch) - 1):
            a, b = ch[i], ch[i + 1]
            if VANISH and (kernel_of(a), image_of(b)) in VANISH:
                return ZERO
            if a.op == "diagm" and b.op == "diagm":
                ch[i:i + 2] = [mk("diagm", NMul([a.args[0], b.args[0]]))]
                changed = True
                break
            if a.op == "diagm" and ndim(b) == 1:
                m = NMul([a.args[0], b])
                if m.op == "add":
                    return NMat(ch[:i] + [m] + ch[i + 2:])
                c, fs = split(m)
                if c != 1:
                    return NMul([kconst(c), NChain(ch[:i] + [build(Fraction(1), fs)] + ch[i + 2:])])
                ch[i:i + 2] = [m]
                changed = True
                break
            # inverses
            if a.op == "inv" and b is a.args[0] or b.op == "inv" and a is b.args[0]:
                n = shapes.dim(a, 0)
                if len(ch) > 2:
                    del ch[i:i + 2]
                else:
                    return mk("eye", n, n)
                changed = True
                break
            # powers of one matrix
            if a is b and ndim(a) == 2 and False:
                pass
            if a.op == "proj" and b is a:
                del ch[i]
                changed = True
                break
        if changed:
            continue
        r = projections(ch)
        if r is not None:
            ch = r
            changed = True
            continue
        r = spectral(ch)
        if r is not None:
            if isinstance(r, T):
                return r
            ch = r
            changed = True
    if len(ch) == 1:
        return ch[0]
    if len(ch) == 2 and ndim(ch[0]) == 1 and ndim(ch[1]) == 1:
        return mk("red", "sum", NMul(ch), NONE)
    if ndim(ch[0]) == 1 and all(ndim(x) == 2 for x in ch[1:]):
        # v A B = B' A' v for a vector
        return NMat([top("tr", (x,)) for x in reversed(ch[1:])] + [ch[0]])
    # repeated powers  P @ P @ ... @ matpow(P, n)
    out = []
    for x in ch:
        if out and x.op == "matpow" and out[-1].op == "matpow" and x.args[0] is out[-1].args[0]:
            out[-1] = mk("matpow", x.args[0], NAdd([x.args[1], out[-1].args[1]]))
        elif out and x.op == "matpow" and chain_of(x.args[0]) == out[-len(chain_of(x.args[0])):]:
            n = len(chain_of(x.args[0]))
            del out[-n:]
            out.append(mk("matpow", x.args[0], NAdd([x.args[1], ONE])))
        else:
            out.append(x)
    if len(out) > 1:
        i = 0
        while i < len(out):
            x = out[i]
            if x.op == "matpow":
                n = len(chain_of(x.args[0]))
                if out[i + 1:i + 1 + n] == chain_of(x.args[0]) and len(out[i + 1:i + 1 + n]) == n:
                    out[i:i + 1 + n] = [mk("matpow", x.args[0], NAdd([x.args[1], ONE]))]
                    continue
            i += 1
    return out[0] if len(out) == 1 else mk("matmul", *out)


def kernel_of(a):
    """A matrix of the same kernel."""
    if a.op in ("proj", "pinv"):
        return NTr(a.args[0])
    return a


def image_of(b):
    """A matrix of the same image."""
    if b.op == "proj":
        return b.args[0]
    if b.op == "pinv":
        return NTr(b.args[0])
    return b


def projections(ch):
    """X pinv(X) and X pinv(X'X) X' are the orthogonal projection on im X."""
    for i, x in enumerate(ch):
        if x.op != "pinv" or len(x.args) != 1:
            continue
        y = x.args[0]
        cy = chain_of(y)
        n = len(cy)
        if y.op in ("add", "mul"):
            continue
        if i >= n and ch[i - n:i] == cy:
            return ch[:i - n] + [NProj(y)] + ch[i + 1:]
        if ch[i + 1:i + 1 + n] == cy:
            return ch[:i] + [NProj(NTr(y))] + ch[i + 1 + n:]
        # X pinv(X'X) X'
        if n >= 2 and n % 2 == 0:
            h = n // 2
            left, right = cy[:h], cy[h:]
            xt = NTr(NChain(right))
            if chain_of(xt) == left:         # y = Z Z' with Z = left
                z = NChain(left)
                zt = chain_of(NTr(z))
                if i >= len(zt) and ch[i - len(zt):i] == zt and ch[i + 1:i + 1 + h] == left:
                    return ch[:i - len(zt)] + [NProj(NTr(z))] + ch[i + 1 + h:]
    return None


def NProj(y):
    if iszero(y):
        n = shapes.dim(y, 0)
        return mk("zeros", mk("tuple", n, n)) if n is not None else ZERO
    cy = chain_of(y)
    n = len(cy)
    if n >= 2 and n % 2 == 0:
        h = n // 2
        if chain_of(NTr(NChain(cy[h:]))) == cy[:h]:
            return NProj(NChain(cy[:h]))
    return mk("proj", y)


def spectral(ch):
    """U'U = I, U'LU = diag(w), for the full eigen-decomposition of L."""
    for i, x in enumerate(ch):
        if x.op == "eigvecs" and len(x.args) == 1:
            t = mk("tr", x)
            if i + 1 < len(ch) and ch[i + 1] is t and len(ch) > 2:
                return ch[:i] + ch[i + 2:]
            if i > 0 and ch[i - 1] is t:
                if len(ch) > 2:
                    return ch[:i - 1] + ch[i + 1:]
                n = shapes.dim(x, 1)
                return mk("eye", n, n)
            L = x.args[0]
            if i >= 2 and ch[i - 2] is t and ch[i - 1].op == "inv" and len(ch[i - 1].args) == 1:
                r = resolvent(ch[i - 1].args[0], L)
                if r is not None:
                    return ch[:i - 2] + [mk("diagm", r)] + ch[i + 1:]
            cl = chain_of(L)
            n = len(cl)
            k = 0
            while L.op not in ("add", "mul") and i >= n * (k + 1) + 1 and ch[i - n * (k + 1):i - n * k] == cl:
                k += 1
            if k and ch[i - n * k - 1] is t:
                return ch[:i - n * k - 1] + [mk("diagm", NPow(mk("eigvals", L), const(k)))] + ch[i + 1:]
    return None


def resolvent(y, L):
    """The eigenvalues of inv(y) for y = c I + s L, on those of L."""
    c, rest = [], []
    for a in addends(y):
        k, fs = split(a)
        sc = [(f, e) for f, e in fs if isscalar(f)]
        other = [(f, e) for f, e in fs if not isscalar(f)]
        if len(other) == 1 and other[0][0].op == "eye" and other[0][1] == 1:
            c.append(build(k, sc))
        else:
            rest.append((a, k, sc))
    if not c or not rest:
        return None
    k0, f0 = split(addends(L)[0])
    for a, k, sc in rest:
        s = build(k / k0, sc)
        if NMul([s, L]) is NAdd([x for x, _, _ in rest]):
            return NPow(NAdd(c + [NMul([s, mk("eigvals", L)])]), const(-1))
    return None


# ---------------------------------------------------------------- binders
def height(t):
    return _height(t)


_hmemo: dict = {}


def _height(t):
    r = _hmemo.get(t)
    if r is not None:
        return r
    h = 0
    if t.op in BINDERS:
        b = t.args[BINDERS[t.op]]
        if isinstance(b.args[0], int) and b.args[0] < 0:
            h = -b.args[0]
    for a in t.args:
        if isinstance(a, T):
            h = max(h, _height(a))
    _hmemo[t] = h
    return h


_frmemo: dict = {}
_NONE_FREE = frozenset()


def _frees(t):
    """The canonical variables of enclosing binders that occur in t."""
    r = _frmemo.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t,)) if isinstance(t.args[0], int) and t.args[0] < 0 else _NONE_FREE
    else:
        r = _NONE_FREE
        for a in t.args:
            if isinstance(a, T):
                f = _frees(a)
                if f:
                    r = r | f if r else f
        if r:
            if t.op in BINDERS:
                r = r - {t.args[BINDERS[t.op]]}
            elif t.op == "entry":
                r = r - {b.args[1] for b in t.args[4:]}
            elif t.op == "bind":
                r = r - {t.args[1]}
    _frmemo[t] = r
    return r


def canon_bv(h):
    return mk("bv", -h)


def rename(parts, bvs):
    """Rename bound variables canonically; parts are already in normal form."""
    h = max([_height(p) for p in parts if isinstance(p, T)] + [0])
    m = {}
    taken = set()
    for p in parts:
        if isinstance(p, T):
            taken |= _frees(p)
    for b in bvs:
        h += 1
        while canon_bv(h) in taken and canon_bv(h) not in bvs:
            h += 1            # a variable of an enclosing binder
        m[b] = canon_bv(h)
    if all(k is v for k, v in m.items()):
        return list(parts), list(bvs)
    return [nsubst(p, m) if isinstance(p, T) else p for p in parts], [m[b] for b in bvs]


def nsubst(t, m, memo=None):
    """Substitution in a normal form, renormalising what changes."""
    if not m:
        return t
    memo = {} if memo is None else memo

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args):
            return x
        new = tuple(go(a) if isinstance(a, T) else a for a in x.args)
        r = x if all(p is q for p, q in zip(new, x.args)) else top(x.op, new)
        memo[x] = r
        return r

    return go(t)


def refresh(t):
    """Give the outer binder of t fresh variables again (for comparison)."""
    return t


# ---------------------------------------------------------------- driver
def nf(t):
    r = _memo.get(t)
    if r is not None:
        return r
    # iterative enough: recursion depth is bounded by term depth
    r = _nf(t)
    for _ in range(6):
        r2 = NAMED.get(r)
        if r2 is not None:
            r = r2
        break
    _memo[t] = r
    _memo[r] = r
    return r


def _nf(t):
    if not any(isinstance(a, T) for a in t.args):
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, float):
                q = num(v)
                return kconst(q) if q is not None else t
        return t
    args = tuple(nf(a) if isinstance(a, T) else a for a in t.args)
    return top(t.op, args)


def top(op, a):
    """Normal form of op(args) for args in normal form."""
    f = RULES.get(op)
    r = f(*a) if f is not None else rebuild(op, a)
    n = NAMED.get(r)
    return n if n is not None else r


UNSET = sym("uninitialised")
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


@rule("add")
def _add(*xs):
    return hoist("add", xs, lambda ys: NAdd(ys))


@rule("mul")
def _mul(*xs):
    masks = [x for x in xs if x.op in ("lt", "le") and not isscalar(x)]
    if len(masks) == 1 and len(xs) > 1:
        # a factor that is true or false keeps or clears each entry
        rest = list(xs)
        rest.remove(masks[0])
        r = rest[0] if len(rest) == 1 else top("mul", tuple(rest))
        if rep(r) == "dense" and (isscalar(r) or shape(r) is not None and shape(r) == shape(masks[0])):
            return top("select", (masks[0], r, ZERO))
    return hoist("mul", xs, lambda ys: NMul(ys))


@rule("matmul")
def _matmul(*xs):
    return hoist("matmul", xs, lambda ys: NMat(ys))


def hoist(op, xs, f):
    """Arithmetic on a guarded value is a guarded value (closed guards only
    matter for the comparison; the guard stays where it is inside loops)."""
    for i, x in enumerate(xs):
        if x.op == "ite":
            c = x.args[0]
            a = hoist(op, [under(y, c, True) for y in xs[:i]] + [x.args[1]] + [under(y, c, True) for y in xs[i + 1:]], f)
            b = hoist(op, [under(y, c, False) for y in xs[:i]] + [x.args[2]] + [under(y, c, False) for y in xs[i + 1:]], f)
            return NIte(c, a, b)
    return f(list(xs))


def under(t, c, v):
    while t.op == "ite" and t.args[0] is c:
        t = t.args[1] if v else t.args[2]
    return t


@rule("ite")
def NIte(c, a, b):
    if c.op in ("and", "or"):
        n = top("not", (c,))
        if n.op in ("and", "or") and n.uid < c.uid:
            c, a, b = n, b, a
    return S.Ite(c, a, b)


@rule("div")
def _div(a, b):
    return hoist("div", [a, b], lambda ys: NMul([ys[0], NPow(ys[1], const(-1))]))


@rule("pow")
def _pow(a, b):
    if a.op == "pow" and isnum(b) and num(b.args[0]) == -1 and not isnum(a.args[1]):
        return top("pow", (a.args[0], NMul([const(-1), a.args[1]])))
    return hoist("pow", [a, b], lambda ys: NPow(*ys))


@rule("sqrt")
def _sqrt(a):
    return hoist("pow", [a], lambda ys: NPow(ys[0], mk("const", Fraction(1, 2))))


@rule("neg")
def _neg(a):
    return NMul([const(-1), a])


@rule("tr")
def _tr(a):
    return NTr(a)


@rule("inv")
def _inv(a):
    return hoist("inv", [a], lambda ys: NInv("inv", ys[0]))


@rule("pinv")
def _pinv(a, *r):
    if a.op == "zeros" and a.args[0].op == "tuple" and len(a.args[0].args) == 2:
        return NTr(a)
    if r:
        return mk("pinv", a, *r)
    return hoist("pinv", [a], lambda ys: NInv("pinv", ys[0]))


@rule("proj")
def _proj(a):
    return NProj(a)


@rule("matpow")
def _matpow(a, n):
    if n is ONE:
        return a
    if n is ZERO:
        d = shapes.dim(a, 0)
        return mk("eye", d, d)
    if isnum(n) and num(n.args[0]).denominator == 1 and 2 <= cval(n) <= 8:
        return NMat([a] * int(cval(n)))
    if n.op == "add" and any(isnum(x) for x in n.args):
        pass
    return mk("matpow", a, n)


@rule(*ERASE)
def _erase(x, *rest):
    return x


@rule("cast")
def _cast(ty, x):
    name = ty.args[0] if isinstance(ty, T) and ty.op == "const" else ty
    if name in FLOATY:
        if isbool(x):
            return select(x, ONE, ZERO)
        return x
    if str(name).endswith(("int", "int64", "int32", "intp", "long")) and "uint" not in str(name) and whole(x):
        return x
    if isnum(x) and num(x.args[0]).denominator == 1 and "uint" in str(name) and num(x.args[0]) >= 0:
        return x
    kind = str(name).split(".")[-1]
    if isnum(x) and kind in ("bool", "bool_"):
        return ONE if num(x.args[0]) else ZERO
    if isnum(x) and kind in BITS and num(x.args[0]).denominator == 1:
        v = int(num(x.args[0])) % (1 << BITS[kind])
        return const(v - (1 << BITS[kind]) if kind[0] == "i" and v >> (BITS[kind] - 1) else v)
    if isbool(x) and str(name).endswith(("int", "int64", "int32")):
        return select(x, ONE, ZERO)
    return mk("cast", ty, x)


def whole(x):
    """x is an integer whatever the input."""
    if isnum(x):
        return num(x.args[0]).denominator == 1
    if x.op in ("floor", "ceil", "trunc", "len", "index", "bv", "count") or x.op == "round" and x.args[1] is ZERO:
        return True
    if x.op in ("add", "mul", "neg"):
        return all(whole(a) for a in x.args)
    if x.op == "select":
        return whole(x.args[1]) and whole(x.args[2])
    return False


def isbool(x):
    return x.op in S.BOOLOPS


@rule("select")
def select(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return select(c.args[0], b, a)
    if c.op == "le":
        return select(mk("lt", c.args[1], c.args[0]), b, a)
    if a is b:
        return a
    # np.where broadcast of a masked multiplication by 0/1
    return mk("select", c, a, b)


def index_array(i):
    """(length, k -> k-th entry) of a one-dimensional array of positions."""
    if i.op == "range" and i.args[0] is ZERO and i.args[2] is ONE:
        return i.args[1], lambda k: k
    if i.op == "idx" and i.args[1].op == "tuple" and len(i.args[1].args) == 2 and i.args[1].args[0] is FULL and is_const(i.args[1].args[1]) \
            and i.args[0].op in ("sym", "asarr", "listof"):
        seq, c = i.args[0], i.args[1].args[1]
        return top("len", (seq,)), lambda k: top("idx", (top("idx", (seq, k)), c))
    if i.op == "map" and i.args[3] is TRUE:
        return i.args[0], lambda k: nsubst(i.args[2], {i.args[1]: k})
    return None


def stored_at(x, i, v):
    """X[I, J] = v for index arrays I, J and a scalar v: one entry per position."""
    if i.op != "tuple" or len(i.args) < 2 or not isscalar(v) or x.op not in ("zeros", "fill", "scatter"):
        return None
    parts = [index_array(j) for j in i.args]
    if any(p is None for p in parts) or any(p[0] is not parts[0][0] for p in parts):
        return None
    k = fresh_bv()
    e = mk("entry", TRUE, mk("tuple", *[f(k) for _, f in parts]), v, NONE, mk("bind", parts[0][0], k))
    init, old = (x, ()) if x.op != "scatter" else (x.args[0], x.args[1:])
    return NScatter(init, *old, e)


def nsubst_exact(x, b, new):
    return new if x is b else mk("store", nsubst_exact(x.args[0], b, new), *x.args[1:])


@rule("store")
def _store(x, i, v):
    if isbool(i) or i.op == "nz":
        m = i.args[0] if i.op == "nz" else i
        if x.op in ("zeros", "fill") and isscalar(v) and (ndim(x) == 1 or ndim(m) is not None and ndim(m) == ndim(x)):
            x = ZERO if x.op == "zeros" else x.args[1]
        return select(m, v, x)
    r = stored_at(x, i, v)
    if r is not None:
        return r
    if i.op == "const" or (i.op == "tuple" and i.args and all(q is FULL or q.op == "const" for q in i.args)):
        # every row is written: what was there before is gone
        lead, b = [i], x
        while b.op == "store":
            lead.append(b.args[1])
            b = b.args[0]
        n = (shape(b) or (None,))[0]
        if b.op in ("zeros", "fill") and n is not None and isnum(n) and 1 <= num(n.args[0]) <= 8 and ndim(b) <= 2:
            # every row is written: the list of the rows
            row = lambda q: q.args[0] if q.op == "tuple" and all(z is FULL for z in q.args[1:]) else q
            rows, c = {row(i): v}, x
            while c.op == "store":
                rows.setdefault(row(c.args[1]), c.args[2])
                c = c.args[0]
            full = [rows.get(const(j)) for j in range(int(num(n.args[0])))]
            if len(rows) == len(full) and all(r is not None and (isscalar(r) if ndim(b) == 1 else shape(r) == tuple(shape(b))[1:]) for r in full):
                return mk("list", *full)
        if b.op == "fill" and b.args[1] is UNSET and n is not None and isnum(n):
            rows = {q.args[0] if q.op == "tuple" and all(z is FULL for z in q.args[1:]) else q for q in lead}
            if all(const(j) in rows for j in range(int(cval(n)))):
                x = nsubst_exact(x, b, mk("zeros", b.args[0]))
    if x.op == "scatter" and x.args[0].op in ("zeros", "fill"):
        for j, e in enumerate(x.args[1:], 1):
            if e.args[0] is TRUE and len(e.args) == 5:
                D, k = e.args[4].args
                if nsubst(e.args[1], {k: D}) is i and nsubst(e.args[2], {k: D}) is v:
                    # one more of the same family
                    return NScatter(x.args[0], *x.args[1:j], mk("entry", *e.args[:4], mk("bind", NAdd([D, ONE]), k)), *x.args[j + 1:])
    if i.op == "tuple" and len(i.args) == 2 and i.args[0] is FULL and x.op in ("zeros", "fill") and ndim(x) == 2 and ndim(v) == 2 \
            and i.args[1].op == "slice" and i.args[1].args[0] in (NONE, ZERO) and i.args[1].args[2] in (NONE, ONE) and i.args[1].args[1] is not NONE:
        # the leading columns of a matrix, one by one
        k = fresh_bv()
        return NScatter(x, mk("entry", TRUE, mk("tuple", FULL, k), top("idx", (v, mk("tuple", FULL, k))), NONE, mk("bind", i.args[1].args[1], k)))
    return rebuild("store", (x, i, v)) if "store" in S._smart else mk("store", x, i, v)


@rule("idx")
def _idx(s, i):
    if i.op == "tuple" and s.op == "call" and s.args[0] == "numpy.argwhere" and len(s.args) == 2 and len(i.args) == 2 and i.args[1] is ZERO:
        return top("idx", (mk("nz", s.args[1]), i.args[0]))
    if i.op == "index" and i.args[0] is s and len(i.args) == 2:
        return i.args[1]
    # index arrays of positions of true entries select like the mask itself
    if i.op == "nz":
        i = i.args[0]
    elif i.op == "tuple":
        i = mk("tuple", *[x.args[0] if x.op == "nz" else x for x in i.args])
        if all(x is FULL for x in i.args):
            return s
        ys = list(i.args)
        while len(ys) > 1 and ys[-1] is FULL:
            ys.pop()
        if len(ys) == 1:
            i = ys[0]
        else:
            i = mk("tuple", *ys)
            if len(ys) == 2 and ys[0] is FULL and s.op == "map" and s.args[3] is TRUE and isnum(ys[1]) and (
                    s.args[2].op in ("list", "tuple") or s.args[2].op == "idx" and (
                        s.args[2].args[0] in ELEMENT or s.args[2].args[0].op == "call" and str(s.args[2].args[0].args[0]).endswith("_layout"))):
                # a column of rows of known length
                return NMap(s.args[0], s.args[1], top("idx", (s.args[2], ys[1])), TRUE)
    if i.op == "ite":
        return top("ite", (i.args[0], _idx(s, i.args[1]), _idx(s, i.args[2])))
    if s.op == "call" and s.args[0] == "numpy.corrcoef" and len(s.args) == 3 and i.op == "tuple" and set(i.args) == {ZERO, ONE}:
        # the correlation of two vectors is symmetric
        return mk("idx", mk("call", s.args[0], *sorted(s.args[1:], key=lambda t: t.uid)), mk("tuple", ZERO, ONE))
    if s.op == "call" and s.args[0] == "numpy.random.permutation" and len(s.args) == 3 and i.op == "slice" and i.args[0] in (NONE, ZERO) \
            and i.args[1] is not NONE and i.args[2] in (NONE, ONE):
        return mk("call", "numpy.random.choice", s.args[1], i.args[1], FALSE, s.args[2])
    if i.op == "tuple" and any(x.op == "ite" for x in i.args) and rep(s) not in ("dense", "sparse"):
        c = next(x.args[0] for x in i.args if x.op == "ite")
        n = S.Not(c)
        pick = lambda v: mk("tuple", *[x.args[1 if v == (x.args[0] is c) else 2] if x.op == "ite" and x.args[0] in (c, n) else x for x in i.args])
        return top("ite", (c, _idx(s, pick(True)), _idx(s, pick(False))))
    if s.op == "cat" and is_const(i, -1) and len(s.args) > 1:
        rest = mk("cat", *s.args[:-1]) if len(s.args) > 2 else s.args[0]
        return top("ite", (_empty(s.args[-1]), _idx(rest, i), _idx(s.args[-1], i)))
    if s.op == "scatter" and len(s.args) == 2 and s.args[0].op == "dict" and not s.args[0].args:
        c, e, v, _, *bs = s.args[1].args
        if len(bs) == 1 and c is TRUE and v is bs[0].args[1] and e.op == "idx" and e.args[1] is v and e.args[0] in LISTS and bs[0].args[0] is mk("len", e.args[0]):
            return top("index", (e.args[0], i))       # positions of distinct elements
    if i is FULL and rep(s) in ("dense", "seq", "sparse"):
        return s
    if i.op == "slice" and i.args[0] is NONE and i.args[2] is NONE and rep(s) == "dense" and ndim(s) and i.args[1] is shape(s)[0]:
        return s
    if s.op == "vals":
        return _idx(s.args[0], S.Idx(mk("keys", s.args[0]), i))
    if s.op == "items":
        k = S.Idx(mk("keys", s.args[0]), i)
        return mk("tuple", k, _idx(s.args[0], k))
    # row/column of a transpose
    if s.op == "tr" and i.op == "tuple" and len(i.args) == 2:
        part = lambda i: _idx(s.args[0], mk("tuple", i.args[1], i.args[0]))
        if any(isscalar(x) for x in i.args):
            return part(i)
        if any(x is FULL or x.op == "slice" for x in i.args):
            return NTr(part(i))
        if all(ndim(x) == 1 for x in i.args):
            return part(i)
    if s.op == "tr" and i.op not in ("tuple", "slice") and isscalar(i):
        return _idx(s.args[0], mk("tuple", FULL, i))
    if s.op == "idx" and isscalar(i) and s.args[1].op != "slice" and s.args[1].op != "tuple" and isscalar(s.args[1]) \
            and ndim(s.args[0]) == 2:
        return _idx(s.args[0], mk("tuple", s.args[1], i))
    if i.op == "bv" and s.op == "idx" and s.args[1].op == "slice" and s.args[1].args[2] in (NONE, ONE):
        # position k of what starts at a position is that many further
        lo = s.args[1].args[0]
        if lo in (NONE, ZERO) or isnum(lo) and num(lo.args[0]) > 0:
            return _idx(s.args[0], i if lo in (NONE, ZERO) else NAdd([lo, i]))
    # elementwise structure is indexed elementwise
    if i.op not in ("slice", "tuple") and s.op in ("add", "mul", "pow", "abs", "exp", "select") and ndim(s) == 1:
        f = lambda x: _idx(x, i) if ndim(x) == 1 else x
        if all(isinstance(x, T) and (isscalar(x) or ndim(x) == 1 or (isbool(x) and ndim(x) in (0, 1))) for x in s.args):
            if s.op == "select":
                if isscalar(i):
                    return S.Ite(bidx(s.args[0], i), f(s.args[1]), f(s.args[2]))
            else:
                return top(s.op, tuple(f(x) for x in s.args))
    r = S.Idx(s, i)
    return r if r.op == "idx" else renorm(r)


def bidx(c, i):
    if c.op in ("lt", "le", "eq", "and", "or", "not"):
        return top(c.op, tuple(bidx(x, i) if isbool(x) else (_idx(x, i) if ndim(x) == 1 else x) for x in c.args))
    return mk("idx", c, i)


def renorm(r):
    """r was built by a constructor from normal parts: renormalise the top."""
    if r in _memo:
        return _memo[r]
    if not any(isinstance(a, T) for a in r.args):
        return r
    return r


@rule("nz")
def _nz(m):
    return mk("nz", m)


@rule("diag")
def _diag(x):
    n = ndim(x)
    if n == 1:
        return mk("diagm", x)
    if n == 2:
        return diagof(x)
    return mk("diag", x)


@rule("diagof")
def diagof(x):
    if x.op == "diagm":
        return x.args[0]
    return mk("diagof", x)


@rule("diagm")
def diagm(x):
    if x.op == "fill" and isscalar(x.args[1]):
        d = S.dims_of_shape(x.args[0])
        if d and len(d) == 1:
            return NMul([x.args[1], mk("eye", d[0], d[0])])
    if x.op == "mul":
        c, fs = split(x)
        sc = [(f, e) for f, e in fs if isscalar(f)]
        rest = [(f, e) for f, e in fs if not isscalar(f)]
        if (sc or c != 1) and rest:
            return NMul([build(c, sc), diagm(build(Fraction(1), rest))])
    return mk("diagm", x)


@rule("abs")
def _abs(x):
    if isnum(x):
        return kconst(abs(num(x.args[0])))
    if x.op == "mul" and isnum(x.args[0]) and num(x.args[0].args[0]) < 0:
        c, fs = split(x)
        return _abs(build(-c, fs))
    if x.op == "add":
        # |a - b| = |b - a|
        n = NMul([const(-1), x])
        if n.uid < x.uid:
            x = n
    if x.op == "abs":
        return x
    return mk("abs", x)


@rule("norm")
def _norm(x, o=NONE, ax=NONE):
    if ax is NONE and (o is NONE or is_const(o, 2)) and ndim(x) == 1 or (ax is NONE and o is NONE):
        return NPow(_red("sum", NPow(x, const(2)), NONE), mk("const", Fraction(1, 2)))
    if ax is NONE and is_const(o, 1) and ndim(x) == 1:
        return _red("sum", _abs(x), NONE)
    return mk("norm", x, o, ax)


def part0(x, i, n):
    """The i-th slice of x along the first of its n axes (after broadcasting)."""
    if isscalar(x) or isnum(x):
        return x
    m = ndim(x)
    if m is None:
        return None
    if m < n:
        return x
    if x.op in ("add", "mul"):
        ps = [part0(y, i, n) for y in x.args]
        return None if any(p is None for p in ps) else top(x.op, tuple(ps))
    d = shape(x)[0]
    if x.op == "idx" and x.args[1].op == "tuple" and x.args[1].args[0] is FULL and all(y is NONE for y in x.args[1].args[1:]):
        # x[:, None, ...] contributes one number per slice
        return _idx(x.args[0], const(i))
    if d is ONE:
        return _idx(x, ZERO)
    return _idx(x, const(i))


@rule("red")
def _red(name, x, ax):
    if isinstance(name, T):
        name = cval(name)
    if is_const(ax, -1) and (ndim(x) or 0) >= 1:
        ax = const(ndim(x) - 1)
    if ax is ZERO and ndim(x) == 1 and name != "cat":
        ax = NONE
    if name in ("min", "max") and ax is NONE and (ndim(x) == 1 or x.op in ("sym", "param", "vals") and shape(x) is None):
        return top(name + "of", (x,))
    if name == "mean" and ax is NONE and ndim(x) == 1:
        return NMul([_red("sum", x, NONE), NPow(shapes.shape(x)[0], const(-1))])
    if name == "mean" and isnum(ax) and ndim(x) == 2 and isscalar(shape(x)[int(cval(ax))]):
        return NMul([_red("sum", x, ax), NPow(shape(x)[int(cval(ax))], const(-1))])
    if name == "sum" and ax is ZERO and (ndim(x) or 0) >= 2 and isnum(shape(x)[0]) and num(shape(x)[0].args[0]) <= 16:
        # a sum over an axis of known length is the sum of its slices
        parts = [part0(x, i, ndim(x)) for i in range(int(num(shape(x)[0].args[0])))]
        if all(p is not None for p in parts):
            return NAdd(parts)
    if name == "sum":
        if x.op == "mul":
            c, fs = split(x)
            sc = [(f, e) for f, e in fs if isscalar(f)]
            rest = [(f, e) for f, e in fs if not isscalar(f)]
            if (sc or c != 1) and rest:
                return NMul([build(c, sc), _red("sum", build(Fraction(1), rest), ax)])
        if (ax is ZERO or ax is ONE) and x.op in ("mul", "pow") and ndim(x) == 2:
            # the column sums of A * B are the diagonal of A' B, the row sums that of A B'
            c, fs = split(x)
            fs = [f for f, e in fs for _ in range(int(e)) if e in (1, 2)]
            if c == 1 and len(fs) == 2 and all(chain_of(f)[-1].op == "eigvecs" for f in fs):
                return diagof(NMat([top("tr", (fs[0],)), fs[1]] if ax is ZERO else [fs[0], top("tr", (fs[1],))]))
    if ax is NONE and x.op == "map" and x.args[3] is TRUE and name == "sum":
        return NSum(x.args[0], x.args[1], x.args[2])
    return mk("red", name, x, ax)


@rule("exp")
def _exp(x):
    # e ** (ln(c) x) = c ** x
    c, fs = split(x) if x.op == "mul" else (Fraction(1), [(x, 1)])
    logs = [f for f, e in fs if f.op == "log" and e == 1 and isnum(f.args[0])]
    if len(logs) == 1:
        return NPow(logs[0].args[0], build(c, [(f, e) for f, e in fs if f is not logs[0]]))
    return mk("exp", x)


def _whole_division(op):
    def f(a, b):
        if isnum(a) and isnum(b) and num(b.args[0]) != 0:
            q, r = divmod(num(a.args[0]), num(b.args[0]))
            return kconst(Fraction(q if op == "floordiv" else r))
        return mk(op, a, b)
    return f


RULES["mod"] = _whole_division("mod")
RULES["floordiv"] = _whole_division("floordiv")


@rule("round")
def _round(x, d):
    if iszero(x):
        return x
    return mk("round", x, d)


@rule("squeeze")
def _squeeze(x, *r):
    n = ndim(x)
    if n in (0, 1):
        return x
    return mk("squeeze", x, *r)


@rule("flat")
def _flat(x, *r):
    if ndim(x) in (0, 1):
        return x if ndim(x) == 1 else mk("flat", x)
    return mk("flat", x, *r)


@rule("reshape")
def _reshape(x, *r):
    if ndim(x) == 1 and len(r) == 1 and (is_const(r[0], -1) or (r[0].op == "tuple" and len(r[0].args) == 1)):
        return x
    return mk("reshape", x, *r)


@rule("eigvals", "eigvecs")
def _eig(*a):
    raise NotImplementedError


def _eigrule(op):
    def f(L, *extra):
        # scaling and sign do not commute with the ordering; L only
        return hoist(op, [L], lambda ys: mk(op, ys[0], *extra))
    return f


RULES["eigvals"] = _eigrule("eigvals")
RULES["eigvecs"] = _eigrule("eigvecs")


# ---------------------------------------------------------------- conditions
def bool_(op):
    unit = S.And if op == "and" else S.Or

    def f(*xs):
        r = unit(*xs)
        if r.op in ("and", "or"):
            xs2 = sorted(set(r.args), key=lambda x: x.uid)
            ys = whole_bounds(xs2, r.op)
            if ys is not None:
                return f(*ys)
            # absorption
            if r.op == "or":
                xs2 = absorb(xs2, "and")
            else:
                xs2 = absorb(xs2, "or")
            if len(xs2) == 1:
                return xs2[0]
            return mk(r.op, *xs2)
        return r
    return f


def whole_bounds(xs, op):
    """Bounds of sizes are bounds of whole numbers: 2 < n and n < 4 is n = 3."""
    seen = {}
    for x in xs:
        y, neg = (x.args[0], True) if x.op == "not" else (x, False)
        if y.op not in ("lt", "le", "eq") or y.op != "eq" and neg:
            continue
        a, b = y.args
        for n, c, low in ((b, a, True), (a, b, False)):
            if n.op in ("len", "dim", "count") and isnum(c) and num(c.args[0]).denominator == 1:
                v = int(num(c.args[0]))
                if y.op == "eq":
                    seen.setdefault(n, []).append(("ne" if neg else "eq", v, x))
                elif low:
                    seen.setdefault(n, []).append(("lo", v + (y.op == "lt"), x))
                else:
                    seen.setdefault(n, []).append(("hi", v - (y.op == "lt"), x))
    for n, bs in seen.items():
        if len(bs) < 2:
            continue
        rest = [x for x in xs if all(x is not b[2] for b in bs)]
        lo = [v for k, v, _ in bs if k == "lo"]
        hi = [v for k, v, _ in bs if k == "hi"]
        eq = [v for k, v, _ in bs if k == "eq"]
        ne = [v for k, v, _ in bs if k == "ne"]
        if op == "and":
            if eq:
                v = eq[0]
                return rest + [_eq(n, const(v)) if all(v == w for w in eq) and all(v >= w for w in lo) and all(v <= w for w in hi) and v not in ne else FALSE]
            if lo and hi and max(lo) >= min(hi):
                return rest + [FALSE if max(lo) > min(hi) or max(lo) in ne else _eq(n, const(max(lo)))]
        elif ne and not eq and not lo and not hi:
            if len(set(ne)) > 1:
                return [TRUE]
        elif lo and hi and not eq and not ne:
            if min(lo) <= max(hi) + 1:
                return [TRUE]
            if min(lo) == max(hi) + 2:
                return rest + [_not(_eq(n, const(max(hi) + 1)))]
    return None


def absorb(xs, inner):
    """x or (x and y) = x ;  x or (not x and y) = x or y (and dually)."""
    out = []
    outer_not = {S.Not(x): x for x in xs if x.op != inner}
    lits = set(x for x in xs if x.op != inner)
    for x in xs:
        if x.op == inner:
            if any(y in lits for y in x.args):
                continue
            rest = [y for y in x.args if y not in outer_not]
            if len(rest) < len(x.args):
                if not rest:
                    continue
                x = rest[0] if len(rest) == 1 else mk(inner, *sorted(rest, key=lambda z: z.uid))
        if x not in out:
            out.append(x)
    return sorted(out, key=lambda x: x.uid)


RULES["and"] = bool_("and")
RULES["or"] = bool_("or")


@rule("floordiv")
def _floordiv(a, n):
    """floor((x + c) / n) with whole c: take whole multiples of n out."""
    if isnum(a) and isnum(n) and num(n.args[0]) != 0:
        return kconst(num(a.args[0]) // num(n.args[0]))
    if isnum(n) and num(n.args[0]) > 0 and num(n.args[0]).denominator == 1 and a.op == "add":
        m = int(num(n.args[0]))
        cs = [x for x in a.args if isnum(x)]
        rest = [x for x in a.args if not isnum(x)]
        c = sum((num(x.args[0]) for x in cs), Fraction(0))
        if c and c.denominator == 1:
            q, r = divmod(int(c), m)
            x = NAdd(rest)
            if m == 2 and r == 1:
                # for whole numbers, (x + 1) // 2 = x // 2 + x % 2
                return NAdd([const(q), mk("floordiv", x, n), mk("mod", x, n)])
            if q:
                return NAdd([const(q), mk("floordiv", NAdd([x, const(r)]), n)])
    return mk("floordiv", a, n)


@rule("slice")
def _slice(lo, hi, step):
    if step is ONE:
        step = NONE
    if lo is ZERO and step is NONE:
        lo = NONE
    return mk("slice", lo, hi, step)


@rule("truthy")
def _truthy(x):
    r = S.truth(x)
    if r.op != "truthy":
        return nf(r) if r.op not in ("not",) else _not(nf(r.args[0]))
    if x.op in ("mod", "floordiv") or x.op in ("add", "mul", "matpow", "pow") and isscalar(x):
        return _not(_eq(x, ZERO))
    return r


@rule("not")
def _not(c):
    r = S.Not(c)
    if r.op in ("and", "or"):
        return top(r.op, tuple(r.args))
    return r


def order(op):
    base = S.Lt if op == "lt" else S.Le

    def f(a, b):
        if isnum(a) and isnum(b):
            x, y = num(a.args[0]), num(b.args[0])
            return const(x < y if op == "lt" else x <= y)
        if op == "lt" and a is ZERO and b.op == "countof" or op == "le" and a is ONE and b.op == "countof":
            return _in(b.args[1], b.args[0])
        if op == "lt" and b is ONE and a.op == "countof" or op == "le" and b is ZERO and a.op == "countof":
            return S.Not(_in(a.args[1], a.args[0]))
        # a maximum is below x when every member is
        for x, y, name, conn, flip in ((a, b, "maxof", "and", 0), (a, b, "minof", "or", 0), (b, a, "minof", "and", 1), (b, a, "maxof", "or", 1)):
            if x.op == name and x.args[0].op in ("set", "list", "tuple") and x.args[0].args:
                return top(conn, tuple(f(y, z) if flip else f(z, y) for z in x.args[0].args))
        return base(a, b)
    return f


RULES["lt"] = order("lt")
RULES["le"] = order("le")


@rule("countof")
def _countof(s, x):
    """How often x is in s."""
    if s.op in ("list", "tuple") and x.op == "const" and all(y.op == "const" for y in s.args):
        return const(sum(1 for y in s.args if _eq(x, y) is TRUE))
    return mk("countof", s, x)


@rule("eq")
def _eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "countof" and y is ZERO:
            return S.Not(_in(x.args[1], x.args[0]))
    if isnum(a) and isnum(b):
        return const(num(a.args[0]) == num(b.args[0]))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return top("and", tuple(_eq(x, y) for x, y in zip(a.args, b.args))) if a.args else TRUE
    return S.Eq(a, b)


@rule("in")
def _in(x, s):
    if x.op == "idx" and x.args[0].op == "mcall" and x.args[0].args[1] == "edges" and len(x.args[0].args) == 2:
        g = x.args[0].args[0]
        if g.op == "mcall" and g.args[1] == "add_edges_from" and len(g.args) == 3 and g.args[0] is mk("call", "networkx.DiGraph") \
                and g.args[2] in (s, mk("keys", s)):
            return TRUE               # an edge of the graph made of them
    if s.op == "map":
        d, k, body, c = s.args
        return NQuant("any", d, k, top("and", (c, _eq(x, body))))
    if s.op in ("setof", "listof", "sorted", "tupleof", "reversed", "setmap") and s.op != "setmap":
        return _in(x, s.args[0])
    if s.op == "setmap":
        d, k, body, c = s.args
        return NQuant("any", d, k, top("and", (c, _eq(x, body))))
    if s.op == "union":
        return top("or", tuple(_in(x, y) for y in s.args))
    if s.op == "sadd" and len(s.args) == 2:
        return top("or", (_eq(x, s.args[1]), _in(x, s.args[0])))
    r = S.In(x, s)
    if r.op in ("or", "and"):
        return top(r.op, tuple(r.args))
    return r


@rule("empty")
def _empty(s):
    if s.op == "map":
        return NQuant("all", s.args[0], s.args[1], top("not", (s.args[3],))) if s.args[3] is not TRUE else _eq(s.args[0], ZERO)
    if s.op in ("sorted", "listof", "tupleof", "setof", "keys", "vals", "items", "reversed"):
        return _empty(s.args[0])
    if s.op in ("list", "tuple", "set", "dict"):
        return const(not s.args)
    if s.op == "cat":
        return top("and", tuple(_empty(x) for x in s.args))
    return mk("empty", s)


# ---------------------------------------------------------------- sequences
ORDERLESS = {"sorted", "reversed", "listof", "tupleof", "sortedby"}


def fuse(d, k, parts, orderless=False):
    """Iterating over len(X) where X is itself a comprehension.

    Returns (domain, bv, parts, extra condition) or None."""
    if d.op != "len":
        return None
    X = d.args[0]
    pat = mk("idx", X, k)
    if X.op in ("listof", "tupleof") or (orderless and X.op in ORDERLESS):
        Y = X.args[0]
        if X.op not in ("listof", "tupleof") and any(occurs(k, nsubst(p, {pat: NONE})) for p in parts):
            return None
        return top("len", (Y,)), k, [nsubst(p, {pat: top("idx", (Y, k))}) for p in parts], TRUE
    if X.op == "map":
        D, j, b, c = X.args
        if c is TRUE:
            return None
        nk = mk("bv", S_fresh())
        b2, c2 = nsubst(b, {j: nk}), nsubst(c, {j: nk})
        new = [nsubst(p, {pat: b2}) for p in parts]
        if any(occurs(k, p) for p in new):
            return None
        return D, nk, new, c2
    return None


def S_fresh():
    from .terms import fresh_id
    return fresh_id()


def guard_split(body):
    return body


@rule("map")
def NMap(d, k, body, cond):
    if cond is FALSE:
        return mk("list")
    r = fuse(d, k, [body, cond])
    if r is not None:
        d2, k2, (b2, c2), extra = r
        return NMap(d2, k2, b2, top("and", (extra, c2)))
    if d is ZERO:
        return mk("list")
    if body.op == "idx" and cond is TRUE and body.args[1].op == "idx" and body.args[1].args[1] is k and d.op == "len" \
            and body.args[1].args[0].op == "keys" and body.args[1].args[0].args[0] is body.args[0] and d.args[0] in (body.args[0], body.args[1].args[0]):
        return top("vals", (body.args[0],))
    if isnum(d) and cval(d) == 1 and cond is TRUE:
        return mk("list", nsubst(body, {k: ZERO}))
    if d.op == "add":
        X = next((x.args[0] for p in (body, cond) for x in subterms(p)
                  if x.op == "idx" and x.args[1] is k and x.args[0].op == "cat" and _len(x.args[0]) is d), None)
        if X is not None:
            # over a concatenation, part by part
            out = []
            for p in X.args:
                j = mk("bv", S_fresh())
                m = {mk("idx", X, k): _idx(p, j)}
                b, c = nsubst(body, m), nsubst(cond, m)
                if occurs(k, b) or occurs(k, c):
                    out = None
                    break
                out.append(NMap(_len(p), j, b, c))
            if out is not None:
                return mk("cat", *out)
    if body.op in ("tuple", "list") and body.args and all(x.op == "idx" and is_const(x.args[1], i) and x.args[0] is body.args[0].args[0]
                                                           for i, x in enumerate(body.args)):
        # all parts of something of known size
        y = body.args[0].args[0]
        z = y
        while z.op in ("sorted", "listof", "tupleof") and len(z.args) == 1:
            z = z.args[0]
        if _eq(const(len(body.args)), mk("len", z)) in (cond.args if cond.op == "and" else (cond,)):
            return NMap(d, k, y, cond)
    if d.op == "len" and d.args[0].op in ("sadd", "set"):
        # over the members of a set that is written out
        el = members(d.args[0])
        if el is not None:
            out = []
            for e in el:
                m = {mk("idx", d.args[0], k): e}
                c, b = nsubst(cond, m), nsubst(body, m)
                if c is FALSE:
                    continue
                if c is not TRUE or occurs(k, b):
                    out = None
                    break
                out.append(b)
            if out is not None:
                return mk("list", *out)
    # identity map over a sequence
    if cond is TRUE and body.op == "idx" and body.args[1] is k and not occurs(k, body.args[0]) \
            and d is S.Len(body.args[0]):
        return _listof(body.args[0])
    if cond is TRUE and body is k:
        return mk("range", ZERO, d, ONE)
    if cond is TRUE and body.op in ("red", "mul"):
        # sums of the rows of a matrix
        c, fs = split(body)
        dep = [f for f, e in fs if occurs(k, f)]
        if len(dep) == 1 and (dep[0], 1) in [(f, e) for f, e in fs] and dep[0].op == "red" and dep[0].args[2] is NONE:
            y = dep[0].args[1]
            if y.op == "idx" and y.args[1] is k and not occurs(k, y.args[0]) and ndim(y.args[0]) == 2 and shape(y.args[0])[0] is d:
                return NMul([build(c, [(f, e) for f, e in fs if f is not dep[0]]), _red(dep[0].args[0], y.args[0], ONE)])
    if cond is TRUE:
        v = lift(d, k, body)
        if v is not None:
            return v
        v = quadratic(d, k, body)
        if v is not None:
            return v
    elif body is k:
        # the positions where an elementwise condition holds
        v = lift(d, k, cond)
        if v is not None:
            return top("nz", (v,))
    elif body.op == "idx" and body.args[1] is k and not occurs(k, body.args[0]) and shape(body.args[0]) is not None and len(shape(body.args[0])) == 1 \
            and shape(body.args[0])[0] is d:
        v = lift(d, k, cond)
        if v is not None:
            return _idx(body.args[0], top("nz", (v,)))
    (d, body, cond), (k,) = rename2(d, k, [body, cond])
    return mk("map", d, k, body, cond)


def quadratic(d, k, body):
    """p_k' M q_k for the k-th columns (or rows) is the diagonal of P' M Q."""
    if body.op == "red" and body.args[0] == "sum" and body.args[2] is NONE and body.args[1].op == "mul" and len(body.args[1].args) == 2:
        ch = list(body.args[1].args)
    elif body.op == "matmul":
        ch = list(body.args)
    else:
        return None
    ends = []
    for x in (ch[0], ch[-1]):
        if x.op == "tr":
            x = x.args[0]
        if x.op != "idx" or ndim(x.args[0]) != 2 or occurs(k, x.args[0]):
            return None
        ix = x.args[1]
        if ix is k:
            ends.append((NTr(x.args[0])))
        elif ix.op == "tuple" and len(ix.args) == 2 and ix.args[1] is k and ix.args[0] is mk("slice", NONE, NONE, NONE):
            ends.append(x.args[0])
        else:
            return None
        if shapes.dim(ends[-1], 1) is not d:
            return None
    if any(occurs(k, y) for y in ch[1:-1]):
        return None
    return diagof(NMat([NTr(ends[0])] + ch[1:-1] + [ends[1]]))


def rename2(d, k, parts):
    ps, bv = rename(parts, [k])
    return [d] + ps, bv


def members(t):
    """The members of a set built by adding known elements."""
    out = []
    while t.op == "sadd":
        if t.args[1] not in out:
            out.append(t.args[1])
        t = t.args[0]
    if t.op != "set":
        return None
    for x in t.args:
        if x not in out:
            out.append(x)
    return out[::-1]


LIFT = {"add", "mul", "pow", "abs", "exp", "log", "lt", "le", "eq", "and", "or", "not", "select", "cast"}


def lift(d, k, body):
    """An elementwise comprehension over vectors is an array expression."""
    hit = [False]
    bad = [False]

    def ok(x):
        s = shape(x)
        return s is not None and len(s) == 1 and s[0] is d

    def go(x):
        if bad[0]:
            return x
        if not occurs(k, x):
            if not isscalar(x) and not isbool(x):
                bad[0] = True
            return x
        if x.op == "idx" and x.args[1] is k and not occurs(k, x.args[0]) and ok(x.args[0]):
            hit[0] = True
            return x.args[0]
        if x.op == "ite":
            return select(go(x.args[0]), go(x.args[1]), go(x.args[2]))
        if x.op in LIFT:
            return top(x.op, tuple(go(y) if isinstance(y, T) else y for y in x.args))
        bad[0] = True
        return x

    r = go(body)
    if bad[0] or not hit[0]:
        return None
    return r


@rule("flatmap")
def NFlat(d, k, seq, cond):
    if cond is FALSE:
        return mk("list")
    r = fuse(d, k, [seq, cond])
    if r is not None:
        d2, k2, (b2, c2), extra = r
        return NFlat(d2, k2, b2, top("and", (extra, c2)))
    if seq.op == "list" and len(seq.args) == 1:
        return NMap(d, k, seq.args[0], cond)
    if seq.op == "ite" and seq.args[2].op == "list" and not seq.args[2].args:
        return NFlat(d, k, seq.args[1], top("and", (cond, seq.args[0])))
    if seq.op == "ite" and seq.args[1].op == "list" and not seq.args[1].args:
        return NFlat(d, k, seq.args[2], top("and", (cond, top("not", (seq.args[0],)))))
    (d, seq, cond), (k,) = rename2(d, k, [seq, cond])
    return mk("flatmap", d, k, seq, cond)


@rule("setmap")
def NSetmap(d, k, e, cond):
    r = fuse(d, k, [e, cond], True)
    if r is not None:
        d2, k2, (b2, c2), extra = r
        return NSetmap(d2, k2, b2, top("and", (extra, c2)))
    if cond is TRUE and e.op == "idx" and e.args[1] is k and not occurs(k, e.args[0]) and d is S.Len(e.args[0]):
        return setof(e.args[0])
    (d, e, cond), (k,) = rename2(d, k, [e, cond])
    return mk("setmap", d, k, e, cond)


@rule("setof")
def setof(x):
    if x.op in ORDERLESS or x.op == "setof" or x.op == "keys" and False:
        return setof(x.args[0])
    if x.op == "map":
        return NSetmap(*x.args)
    if x.op == "flatmap" and x.args[2].op in ("list", "tuple"):
        return top("union", tuple(NSetmap(x.args[0], x.args[1], y, x.args[3]) for y in x.args[2].args))
    if x.op in ("list", "tuple"):
        return mk("set", *sorted(set(x.args), key=lambda y: y.uid))
    if x.op == "flatmap" and x.args[3] is TRUE:
        # the parts of all rows of an array
        y = x.args[2].args[0] if x.args[2].op == "listof" else x.args[2]
        if y.op == "idx" and y.args[1] is x.args[1] and not occurs(x.args[1], y.args[0]) and y.args[0].op == "idx" and y.args[0].args[0].op == "map":
            return setof(y.args[0])
    if x.op in ("setmap", "set", "union"):
        return x
    if x.op == "cat":
        return top("union", tuple(setof(y) for y in x.args))
    return mk("setof", x)


@rule("union")
def union(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == "union" else (x,)):
            if y.op == "set" and not y.args:
                continue
            if y not in out:
                out.append(y)
    if not out:
        return mk("set")
    if len(out) == 1:
        return out[0]
    plain = [y for y in out if y.op == "set"]
    if plain and len(plain) < len(out):
        # members that are written out are added one by one
        r = union(*[y for y in out if y.op != "set"])
        for y in plain:
            for z in y.args:
                r = top("sadd", (r, z))
        return r
    return mk("union", *sorted(out, key=lambda y: y.uid))


@rule("sorted")
def _sorted(x, *r):
    if not r:
        while x.op in ORDERLESS and x.op != "sortedby" or x.op in ("listof", "tupleof"):
            x = x.args[0]
        if x.op == "sorted":
            return x
        if x.op == "setof" and ndim(x.args[0]) == 1 and rep(x.args[0]) == "dense":
            return mk("call", "numpy.unique", x.args[0])
    return mk("sorted", x, *r)


LISTS: set = set()                # symbols that stand for lists


@rule("listof", "tupleof")
def _listof(x):
    if x.op in ("list", "map", "sorted", "cat", "listof", "flatmap", "keys", "range") or x in LISTS:
        return x
    if x.op == "idx" and x.args[0] in DICTVALS:
        return mk("keys", x)
    if x.op == "idx" and x.args[0] in ELEMENT and x.args[1].op not in ("slice", "tuple"):
        return top("list", tuple(top("idx", (x, const(i))) for i in range(ELEMENT[x.args[0]])))
    return mk("listof", x)


@rule("tupleof")
def _tupleof(x):
    if x.op in ("tuple", "list"):
        return mk("tuple", *x.args)
    if x.op == "idx" and x.args[0] not in ELEMENT and x.args[0].op in ("sorted", "listof", "reversed", "map", "rec", "cat") \
            and x.args[1].op not in ("slice", "tuple") and width(x.args[0]):
        return x              # a tuple already
    return mk("tupleof", x.args[0] if x.op in ("listof", "tupleof") else x)



@rule("sum")
def NSum(d, k, body):
    if body is ZERO or d is ZERO:
        return ZERO
    r = fuse(d, k, [body], True)
    if r is not None:
        d2, k2, (b2,), extra = r
        return NSum(d2, k2, top("ite", (extra, b2, ZERO)))
    if body.op == "add":
        return NAdd([NSum(d, k, x) for x in body.args])
    if not occurs(k, body):
        return NMul([d, body])
    c, fs = split(body)
    outer = [(f, e) for f, e in fs if not occurs(k, f)]
    inner = [(f, e) for f, e in fs if occurs(k, f)]
    if (c != 1 or outer) and inner:
        if all(isscalar(f) for f, _ in outer) or not any(f.op == "matmul" for f, _ in inner):
            return NMul([build(c, outer), NSum(d, k, build(Fraction(1), inner))])
    if body.op == "matmul":
        pre, post, mid = [], [], list(body.args)
        while len(mid) > 1 and not occurs(k, mid[0]):
            pre.append(mid.pop(0))
        while len(mid) > 1 and not occurs(k, mid[-1]):
            post.insert(0, mid.pop())
        if pre or post:
            return NMat(pre + [NSum(d, k, mid[0] if len(mid) == 1 else mk("matmul", *mid))] + post)
    if len(inner) >= 1 and any(f.op == "matmul" and e == 1 for f, e in inner):
        (mm, _), = [x for x in inner if x[0].op == "matmul" and x[1] == 1][:1]
        sc = [x for x in inner if x[0] is not mm]
        if all(isscalar(f) for f, _ in sc):
            pre, post, mid = [], [], list(mm.args)
            while len(mid) > 1 and not occurs(k, mid[0]):
                pre.append(mid.pop(0))
            while len(mid) > 1 and not occurs(k, mid[-1]):
                post.insert(0, mid.pop())
            if pre or post:
                m = mid[0] if len(mid) == 1 else mk("matmul", *mid)
                return NMat(pre + [NSum(d, k, NMul([build(Fraction(1), sc), m]))] + post)
    # sum over a fixed small domain
    if isnum(d) and num(d.args[0]).denominator == 1 and 0 < cval(d) <= 8:
        return NAdd([nsubst(body, {k: const(i)}) for i in range(int(cval(d)))])
    v = lift(d, k, body)
    if v is not None:
        return _red("sum", v, NONE)
    (d, body), (k,) = rename2(d, k, [body])
    return mk("sum", d, k, body)


def NQuant(op, d, k, body):
    r = fuse(d, k, [body], True)
    if r is not None:
        d2, k2, (b2,), extra = r
        if op == "any":
            return NQuant(op, d2, k2, top("and", (extra, b2)))
        return NQuant(op, d2, k2, top("or", (top("not", (extra,)), b2)))
    if not occurs(k, body):
        if op == "any":
            return top("and", (body, top("not", (_eq(d, ZERO),))))
        return top("or", (body, _eq(d, ZERO)))
    if isnum(d) and num(d.args[0]).denominator == 1 and 0 <= cval(d) <= 8:
        return top("or" if op == "any" else "and", tuple(nsubst(body, {k: const(i)}) for i in range(int(cval(d)))))
    if d.op == "add":
        X = next((x.args[0] for x in subterms(body)
                  if x.op == "idx" and x.args[1] is k and x.args[0].op == "cat" and _len(x.args[0]) is d), None)
        if X is not None:
            # over a concatenation, part by part
            out = []
            for q in X.args:
                j = mk("bv", S_fresh())
                b = nsubst(body, {mk("idx", X, k): _idx(q, j)})
                if occurs(k, b):
                    break
                out.append(NQuant(op, _len(q), j, b))
            else:
                return top("or" if op == "any" else "and", tuple(out))
    if op == "any" and body.op == "or":
        return top("or", tuple(NQuant(op, d, k, x) for x in body.args))
    if op == "all" and body.op == "and":
        return top("and", tuple(NQuant(op, d, k, x) for x in body.args))
    # membership:  any k: x == seq[k]
    if op == "any" and body.op == "eq":
        for x, y in (body.args, tuple(reversed(body.args))):
            if y.op == "idx" and y.args[1] is k and not occurs(k, y.args[0]) and not occurs(k, x) and d is S.Len(y.args[0]):
                return _in(x, y.args[0])
    if op == "all" and body.op == "not" and body.args[0].op == "eq":
        return top("not", (NQuant("any", d, k, body.args[0]),))
    (d, body), (k,) = rename2(d, k, [body])
    return S.rebuild_q(op, d, k, body)


RULES["any"] = lambda d, k, b: NQuant("any", d, k, b)
RULES["all"] = lambda d, k, b: NQuant("all", d, k, b)


@rule("scatter")
def NScatter(init, *entries):
    out = []
    for e in entries:
        cond, idx, val, mode, *binds = e.args
        ds = [b.args[0] for b in binds]
        bvs = [b.args[1] for b in binds]
        if cond is FALSE or any(d is ZERO for d in ds):
            continue
        if len(binds) == 1:
            r = fuse(ds[0], bvs[0], [cond, idx, val], True)
            if r is not None:
                d2, k2, (c2, i2, v2), extra = r
                cond, idx, val, ds, bvs = top("and", (extra, c2)), i2, v2, [d2], [k2]
        # full fill of a vector
        if len(binds) == 1 and idx is bvs[0] and cond is TRUE and init.op in ("zeros", "fill", "map") and len(entries) == 1 \
                and (shape(init) or (None,))[0] is ds[0] and ndim(init) == 1:
            return NMap(ds[0], bvs[0], val, TRUE)
        # the rows of a matrix
        if len(binds) == 1 and cond is TRUE and init.op in ("zeros", "fill") and len(entries) == 1 and ndim(init) == 2 and shape(init)[0] is ds[0] \
                and (idx is bvs[0] or idx.op == "tuple" and idx.args[0] is bvs[0] and all(q is FULL for q in idx.args[1:])) \
                and shape(val) == tuple(shape(init))[1:]:
            return NMap(ds[0], bvs[0], val, TRUE)
        if idx.op == "tuple" and len(idx.args) > 1 and idx.args[-1] is FULL:
            q = list(idx.args)
            while len(q) > 1 and q[-1] is FULL:
                q.pop()
            idx = q[0] if len(q) == 1 else mk("tuple", *q)
        parts, nb = rename([cond, idx, val], bvs)
        out.append(mk("entry", parts[0], parts[1], parts[2], mode, *[mk("bind", d, b) for d, b in zip(ds, nb)]))
    if not out:
        return init
    if init.op == "fill" and init.args[1] is UNSET and any(
            e.args[0] is TRUE and all(q is FULL or any(q is b.args[1] for b in e.args[4:])
                                      for q in (e.args[1].args if e.args[1].op == "tuple" else (e.args[1],))) for e in out):
        init = mk("zeros", init.args[0])       # every cell is written: what was there before is gone
    if init.op in ("zeros", "fill", "dict"):
        # independent cells: the order of the entry families is immaterial
        out = sorted(set(out), key=lambda x: x.uid)
    return S.Scatter(init, *out)


@rule("entry")
def _entry(*a):
    return mk("entry", *a)


@rule("bind")
def _bind(*a):
    return mk("bind", *a)


@rule("dictmap")
def _dictmap(d, k, key, val, cond):
    (d, key, val, cond), (k,) = rename2(d, k, [key, val, cond])
    return mk("dictmap", d, k, key, val, cond)


@rule("first")
def _first(d, k, cond, val):
    if cond is TRUE:
        # there is a first one where the loop is entered at all
        return nsubst(val, {k: ZERO})
    (d, cond, val), (k,) = rename2(d, k, [cond, val])
    return mk("first", d, k, cond, val)


@rule("lam")
def _lam(k, body):
    (body,), (k,) = rename([body], [k])
    return mk("lam", k, body)


@rule("prod")
def _prod(d, k, body):
    (d, body), (k,) = rename2(d, k, [body])
    return mk("prod", d, k, body)


_rlmemo: dict = {}


def _rec_level(t):
    """Nesting depth of the recurrences in t."""
    r = _rlmemo.get(t)
    if r is None:
        r = max([_rec_level(a) for a in t.args if isinstance(a, T)] + [0])
        if t.op == "rec":
            r += 1
        _rlmemo[t] = r
    return r


def _once_each(d, k, ph, ini, stp):
    """A dictionary filled once for every distinct element, with what is determined
    by the element: the same as filling it for every element."""
    if len(ph) != 2 or ini[1] not in (mk("set"), mk("list"), mk("dict")):
        return None
    D, V = ph
    a, b = stp
    if a.op == b.op == "ite" and a.args[0] is b.args[0] and a.args[0].op == "in" and a.args[1] is D and b.args[1] is V:
        c, a, b = a.args[0], a.args[2], b.args[2]
    else:
        return None
    if a.op != "store" or a.args[0] is not D or c.args[1] is not V or occurs(V, c.args[0]):
        return None
    if b.op not in ("sadd", "cat", "append", "store") or b.args[0] is not V:
        return None
    if b.op == "cat" and not (len(b.args) == 2 and b.args[1].op == "list" and len(b.args[1].args) == 1):
        return None
    mark = b.args[1] if b.op != "cat" else b.args[1].args[0]
    key, val = a.args[1], a.args[2]
    if mark is not c.args[0] or occurs(D, key) or occurs(D, val) or occurs(V, key) or occurs(V, val):
        return None
    parts = {mark: mk("sym", "<element>")}
    if mark.op == "tuple":
        for x in mark.args:
            y = x
            if x.op == "add":
                rest = [z for z in x.args if not isnum(z)]
                if len(rest) != 1:
                    continue
                y = rest[0]
            if y.op == "idx":
                parts[y] = mk("sym", f"<part {len(parts)}>")
                if y.args[0].op == "idx" and width(y.args[0].args[0]) == len(mark.args) and all(
                        occurs(mk("idx", y.args[0], mk("const", i)), mark) for i in range(len(mark.args))):
                    parts[y.args[0]] = mk("sym", "<element>")
    if occurs(k, nsubst(mk("tuple", key, val), parts)):
        return None
    return NScatter(ini[0], mk("entry", TRUE, key, val, NONE, mk("bind", d, k)))


def _unordered(t):
    """(way, (p, q)) of a value that tells two things apart from others but not their order."""
    if t.op == "set" and len(t.args) == 2:
        return "set", t.args
    if t.op in ("tupleof", "listof") and t.args[0].op == "sorted" and len(t.args[0].args) == 1 and t.args[0].args[0].op in ("tuple", "list", "set") \
            and len(t.args[0].args[0].args) == 2:
        return t.op, t.args[0].args[0].args
    if t.op == "tuple" and len(t.args) == 2 and {x.op for x in t.args} == {"minof", "maxof"} and t.args[0].args == t.args[1].args \
            and len(t.args[0].args) == 1 and t.args[0].args[0].op in ("set", "tuple", "list") and len(t.args[0].args[0].args) == 2:
        return t.args[0].op, t.args[0].args[0].args
    return None


def _shadows(ph, ini, stp):
    """A set kept beside a list and grown with it: asking the set is asking the list."""
    if len(ph) < 2:
        return stp
    def grown(i, op):
        x = stp[i]
        if x.op != "ite":
            return None
        for c, a, b in ((x.args[0], x.args[1], x.args[2]), (top("not", (x.args[0],)), x.args[2], x.args[1])):
            if a is ph[i] and b.op == op and len(b.args) == 2 and b.args[0] is ph[i]:
                e = b.args[1]
                if op == "cat":
                    e = e.args[0] if e.op == "list" and len(e.args) == 1 else None
                return (c, e) if e is not None else None
        return None
    lists = [(i, g) for i in range(len(ph)) if ini[i] is mk("list") for g in [grown(i, "cat")] if g]
    for s in range(len(ph)):
        g = grown(s, "sadd") if ini[s] is mk("set") and lists else None
        if g is None:
            continue
        c, f = g
        for l, (c2, e) in lists:
            if c2 is not c:
                continue
            asked = {x for y in stp for x in subterms(y) if x.op == "in" and x.args[1] is ph[s]}
            m = {}
            for x in asked:
                q = x.args[0]
                if occurs(ph[s], q):
                    break
                if f is e:
                    m[x] = _in(q, ph[l])
                elif e.op == "tuple" and len(e.args) == 2 and _unordered(f) and _unordered(q) and _unordered(f)[0] == _unordered(q)[0] \
                        and set(_unordered(f)[1]) == set(e.args):
                    a, b = _unordered(q)[1]
                    m[x] = top("or", (_in(mk("tuple", a, b), ph[l]), _in(mk("tuple", b, a), ph[l])))
                else:
                    break
            else:
                new = [nsubst(y, m) if i != s else y for i, y in enumerate(stp)]
                if not any(occurs(ph[s], y) for i, y in enumerate(new) if i != s):
                    return new
    return stp


@rule("rec")
def _rec(d, k, j, phis, inits, steps, irregular):
    """Keep what the value depends on and name the carried values by the order
    in which they are needed."""
    from . import shapes
    if phis.op != "tuple" or steps.op != "tuple" or inits.op != "tuple" or not phis.args:
        return mk("rec", d, k, j, phis, inits, steps, irregular)
    ph, ini, stp = list(phis.args), list(inits.args), list(steps.args)
    if irregular is FALSE:
        stp = _shadows(ph, ini, stp)
    order, todo = [], [ph[cval(j)]]
    while todo:
        p = todo.pop(0)
        if p in order:
            continue
        order.append(p)
        seen = []
        for x in subterms(stp[ph.index(p)]):
            if x.op == "phi" and x in ph and x not in order and x not in seen:
                seen.append(x)
        todo += seen
    ini = [ini[ph.index(p)] for p in order]
    stp = [stp[ph.index(p)] for p in order]
    level = max([_rec_level(x) for x in ini + stp] + [0]) + 1
    ren = {}
    for i, p in enumerate(order):
        s = shapes.shape(p)
        s = NONE if s is None or any(x is None for x in s) else mk("tuple", *[nf(x) for x in s])
        ren[p] = mk("phi", "rec", f"{level}.{i}", s, shapes.rep(p))
    if len(order) == 1 and irregular is FALSE:
        x = stp[0]
        if x.op == "mcall" and x.args[1] == "add_edge" and x.args[0] is order[0] and len(x.args) == 4 \
                and not any(occurs(order[0], y) for y in x.args[2:]):
            # adding the edges one by one
            return mk("mcall", ini[0], "add_edges_from", NMap(d, k, _tuple(*x.args[2:]), TRUE))
        es, y = [], x
        while y.op == "sadd" and not occurs(order[0], y.args[1]):
            es.append(y.args[1])
            y = y.args[0]
        if es and y is order[0]:
            # adding members round by round
            r = ini[0]
            for e in reversed(es):
                j2 = mk("bv", S_fresh())
                r = top("union", (r, top("setmap", (d, j2, nsubst(e, {k: j2}), TRUE))))
            return r
    r = _once_each(d, k, order, ini, stp) if irregular is FALSE else None
    if r is not None:
        return r
    if any(a is not b for a, b in ren.items()):
        stp = [nsubst(x, ren) for x in stp]
    (d, *stp), (k,) = rename2(d, k, stp)
    return mk("rec", d, k, ZERO, mk("tuple", *[ren[p] for p in order]), mk("tuple", *ini), mk("tuple", *stp), irregular)


# what the elements of an input look like (set by the checks):
ELEMENT: dict = {}                # sequence -> number of parts of every element
DICTVALS: set = set()             # dictionaries whose values are dictionaries


def extremum(name):
    def f(x):
        if x.op in ("setof", "listof", "sorted", "tupleof"):
            return f(x.args[0])
        if x.op == "flatmap":
            y = setof(x)
            if y.op != "setof":
                return f(y)
        if x.op in ("map", "setmap") and x.args[3] is TRUE and x.args[2].op == name and x.args[2].args[0].op in ("set", "list", "tuple"):
            # the largest of the largest
            n, k = x.args[:2]
            ys = x.args[2].args[0].args
            if ys:
                return f(top("union", tuple(top("setmap", (n, k, y, TRUE)) for y in ys)))
        if x.op == "cat":
            parts = []
            for p in x.args:
                if p.op == "list" and p.args and all(isnum(y) for y in p.args):
                    v = (max if name == "maxof" else min)(num(y.args[0]) for y in p.args)
                    parts.append((v, FALSE))
                elif p.op == "map" and p.args[3] is TRUE and isnum(p.args[2]):
                    parts.append((num(p.args[2].args[0]), _eq(p.args[0], ZERO)))
                else:
                    return mk(name, x)
            parts.sort(key=lambda q: q[0], reverse=name == "minof")
            r = kconst(parts[0][0])
            for v, none in parts[1:]:
                r = top("ite", (none, r, kconst(v)))
            return r
        if x.op in ("list", "set") and x.args and all(isnum(y) for y in x.args):
            return kconst((max if name == "maxof" else min)(num(y.args[0]) for y in x.args))
        if x.op == "map" and x.args[3] is TRUE and isnum(x.args[2]):
            return x.args[2]
        return mk(name, x)
    return f


RULES["maxof"], RULES["minof"] = extremum("maxof"), extremum("minof")


BACKWARDS = mk("slice", NONE, NONE, const(-1))


@rule("len")
def _len(x):
    if x.op in ("sorted", "reversed", "listof", "tupleof", "sortedby"):
        return _len(x.args[0])
    if x.op == "attr" and x.args[1] == "T" or x.op == "tr":
        n = shape(x.args[0])
        return n[1] if n is not None and len(n) == 2 else mk("dim", x.args[0], ONE)
    if x.op == "idx" and x.args[1] is BACKWARDS:
        return _len(x.args[0])
    if x.op == "map" and x.args[3] is not TRUE:
        return mk("len", x)
    if x.op == "idx" and x.args[0] in ELEMENT and x.args[1].op not in ("slice", "tuple"):
        return const(ELEMENT[x.args[0]])
    if x.op == "idx" and x.args[0].op in ("sorted", "rec", "map") and x.args[1].op not in ("slice", "tuple") and width(x.args[0]):
        return const(width(x.args[0]))
    if x.op == "ite":
        return top("ite", (x.args[0], _len(x.args[1]), _len(x.args[2])))
    if x.op == "call" and x.args[0] in ("max", "min") and len(x.args) == 3 and x.args[2].op == "kw" and x.args[2].args[0] == "key":
        g = x.args[2].args[1]
        if g.op == "lam" and g.args[1].op == "len" and g.args[1].args[0] is g.args[0]:
            k = mk("bv", S_fresh())
            return top(x.args[0] + "of", (NMap(_len(x.args[1]), k, _len(_idx(x.args[1], k)), TRUE),))
    n = shape(x)
    if n is not None and len(n) >= 1 and x.op not in ("sym",):
        return n[0]
    r = S.Len(x)
    if r.op == "add":
        return NAdd(list(r.args))
    return r


@rule("dim")
def _dim(x, i):
    if is_const(i):
        s = shape(x)
        if s is not None and -len(s) <= cval(i) < len(s):
            return s[cval(i)]
    return mk("dim", x, i)


@rule("vals")
def _vals(x):
    return mk("vals", x)


@rule("str")
def _str(*xs):
    from .models import concat_str
    return concat_str([x.args[0] if x.op == "fmt" and isstr(x.args[0]) else x for x in xs])


STRINGS: set = set()              # symbols that stand for strings
PATHS = {"pkg_resources.resource_filename", "os.path.join", "os.path.dirname", "os.path.abspath"}


def isstr(t):
    return t.op == "const" and isinstance(cval(t), str) or t.op == "str" or t in STRINGS or t.op == "call" and t.args[0] in PATHS


@rule("removed")
def _removed(s, x):
    y = s.args[0] if s.op == "listof" else s
    if y.op == "list" and x in y.args and all(z.op == "const" for z in y.args):
        n = y.args.index(x)
        return mk("list", *y.args[:n], *y.args[n + 1:])
    if y.op == "attr" and y.args[1] == "columns" or y.op == "map" and s.op == "map" and y.args[2].op == "idx" and y.args[2].args[1] is y.args[1] \
            and y.args[2].args[0].op == "attr" and y.args[2].args[0].args[1] == "columns":
        # every column is there once
        k = mk("bv", S_fresh())
        e, c, n = (mk("idx", y, k), TRUE, S.Len(y)) if y.op == "attr" else (nsubst(y.args[2], {y.args[1]: k}), nsubst(y.args[3], {y.args[1]: k}), y.args[0])
        return NMap(n, k, e, top("and", (c, S.Not(_eq(*sorted((x, e), key=lambda t: t.uid))))))
    return mk("removed", s, x)


def chosen(sel, n=None):
    """The 0/1 vector of what a selection keeps."""
    if sel.op == "nz":
        return sel.args[0] if not isbool(sel.args[0]) else chosen(sel.args[0])
    if sel.op == "not" and sel.args[0].op == "eq" and ZERO in sel.args[0].args:
        return next(x for x in sel.args[0].args if x is not ZERO)
    if sel.op == "lt" and sel.args[0] is ZERO:
        return sel.args[1]
    if sel.op == "red" and sel.args[0] in ("any", const("any")) and sel.args[1].op == "diagm":
        return sel.args[1].args[0]
    if sel.op == "eq" and ONE in sel.args:
        return next((x for x in sel.args if x is not ONE), None)
    return None


def zero_one(s):
    return s.op == "store" and s.args[0].op == "zeros" and s.args[2] is ONE


def constraint(c):
    """Equality on the marked entries, however the entries are picked."""
    if c.op != "eq" or len(c.args) != 2:
        return c
    a, b = c.args
    mark = None
    if a.op == b.op == "matmul" and len(a.args) == len(b.args) == 2 and a.args[0] is b.args[0]:
        m, x, y = a.args[0], a.args[1], b.args[1]
        if m.op == "diagm":
            mark = m.args[0]
        elif m.op == "idx" and m.args[0].op == "diagm":
            mark = m.args[0].args[0]
            if chosen(m.args[1]) is not mark and not (zero_one(mark) and mark.args[1] is m.args[1]):
                return c
    elif a.op == b.op == "idx" and a.args[1] is b.args[1]:
        x, y, sel = a.args[0], b.args[0], a.args[1]
        mark = chosen(sel)
        if mark is None and sel.op == "call" and str(sel.args[0]).startswith("numpy.random.choice"):
            n = next((shape(z)[0] for z in (x, y) if ndim(z) == 1), None)
            mark = None if n is None else top("store", (top("zeros", (n,)), sel, ONE))
    if mark is None or not zero_one(mark):
        return c

    def plain(t):
        # s * s = s for zeros and ones
        return NMul([z for z in t.args if z is not mark]) if t.op == "mul" and mark in t.args else t
    return mk("eqon", mark, *sorted((plain(x), plain(y)), key=lambda t: t.uid))


@rule("call")
def _call(name, *xs):
    if name == "networkx.Graph" and len(xs) == 1 and (xs[0] in LISTS or xs[0].op in ("listof", "map")):
        return mk("mcall", mk("call", name), "add_edges_from", xs[0])
    if name == "os.path.join" and xs:
        parts = [xs[0]]
        for x in xs[1:]:
            parts += [const("/"), x]
        return _str(*parts)
    if name == "int" and len(xs) == 1 and whole(xs[0]):
        return xs[0]
    if name == "cvxpy.Problem" and len(xs) == 2 and xs[1].op == "list":
        cs = sorted({constraint(c) for c in xs[1].args}, key=lambda c: c.uid)
        return mk("call", name, xs[0], mk("list", *cs)) if cs else mk("call", name, xs[0])
    if name == "numpy.random.choice" and len(xs) > 1 and xs[1].op in ("call", "cast", "trunc") and str(xs[1].args[0]) in ("int", "numpy.trunc"):
        # a number of draws is not negative
        xs = (xs[0], top("floor", (xs[1].args[1],)), *xs[2:])
    if name == "numpy.linspace" and len(xs) == 3 and xs[0] is ZERO and xs[1] is not ONE and isscalar(xs[1]):
        return NMul([xs[1], mk("call", name, ZERO, ONE, xs[2])])
    if name == "numpy.unique" and len(xs) == 1 and not (ndim(xs[0]) == 1 and rep(xs[0]) == "dense"):
        return top("sorted", (top("setof", (xs[0],)),))
    if name == "pandas.read_csv":
        # the separator has two names, and comma is what it is without one
        ys = [mk("kw", "sep", x.args[1]) if x.op == "kw" and x.args[0] == "delimiter" else x for x in xs]
        ys = [x for x in ys if not (x.op == "kw" and (x.args[0] == "sep" and is_const(x.args[1], ",") or x.args[0] == "header" and is_const(x.args[1], "infer")))]
        return mk("call", name, *[x for x in ys if x.op != "kw"], *sorted((x for x in ys if x.op == "kw"), key=lambda x: x.args[0]))
    if name.startswith("str.") and xs and not any(isinstance(x, T) and x.op == "kw" for x in xs):
        return top("mcall", (xs[0], name[4:], *xs[1:]))
    return mk("call", name, *xs)


_width: dict = {}


def width(t):
    """Number of parts of every element of a sequence of tuples."""
    if t in ELEMENT:
        return ELEMENT[t]
    r = _width.get(t, 0)
    if r == 0:
        r = _width[t] = width_of(t)
    return r


def width_of(t, own=None):
    if t in ELEMENT:
        return ELEMENT[t]
    if t.op in ("sorted", "listof", "reversed") and len(t.args) == 1:
        return width_of(t.args[0], own)
    if t.op == "map":
        return len(t.args[2].args) if t.args[2].op == "tuple" else None
    ws = None
    if t.op == "list":
        ws = {len(x.args) if x.op == "tuple" else None for x in t.args}
    elif t.op == "cat":
        ws = {width_of(x, own) for x in t.args if x is not own and not (x.op == "list" and not x.args)}
    elif t.op == "ite":
        ws = {width_of(x, own) for x in t.args[1:] if x is not own and not (x.op == "list" and not x.args)}
    elif t.op == "rec" and len(t.args[3].args) == 1 and t.args[6] is FALSE:
        ini = t.args[4].args[0]
        ws = {width_of(t.args[5].args[0], t.args[3].args[0])}
        if not (ini.op == "list" and not ini.args):
            ws.add(width_of(ini))
    if ws and len(ws) == 1:
        return next(iter(ws))
    return None


@rule("tuple")
def _tuple(*xs):
    if xs and xs[0].op == "idx" and xs[0].args[0].op == "idx":
        y = xs[0].args[0]
        if width(y.args[0]) == len(xs) and all(x.op == "idx" and x.args[0] is y and is_const(x.args[1], i) for i, x in enumerate(xs)):
            return y
    return _whole("tuple", xs) or mk("tuple", *xs)


def _whole(kind, xs):
    """Every element of an ordered thing of known length, in order, is that thing."""
    if xs and xs[0].op == "idx":
        y = xs[0].args[0]
        if y.op == "sorted" and len(y.args) == 1 and y.args[0].op in ("tuple", "list") and len(y.args[0].args) == len(xs) and \
                all(x.op == "idx" and x.args[0] is y and is_const(x.args[1], i) for i, x in enumerate(xs)):
            return mk(kind + "of", y) if kind == "tuple" else y
    return None


@rule("apply")
def _apply(f, *xs):
    if f.op == "lam" and len(xs) == 1:
        return nsubst(f.args[1], {f.args[0]: xs[0]})
    return mk("apply", f, *xs)
