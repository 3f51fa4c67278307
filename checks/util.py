"""Shared helpers of the checks."""
from __future__ import annotations

import contextlib
import traceback

from sa import compare as C
from sa import normal as N
from sa import shapes
from sa import simplify as S
from sa.framework import AnchorLost, BAD, OK, UNDECIDED
from sa.interp import (ClassV, Dead, ExtV, FuncV, MethV, Phi, PropV, Ref, StaticV)
from sa.simplify import FULL, Uniq
from sa.terms import (FALSE, NONE, ONE, TRUE, ZERO, T, const, contains, cval, is_const,
                      mk, occurs, show, subst, subterms, sym)


@contextlib.contextmanager
def guarded(ctx, rule, construct, where=""):
    """An internal failure of the analysis leaves the obligation undecided."""
    try:
        yield
    except AnchorLost:
        raise
    except Dead:
        ctx.ob(rule, construct, UNDECIDED, where, "the analysed path ends early")
    except Exception as e:       # noqa: BLE001 - reported, never silent
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.ob(rule, construct, UNDECIDED, where, f"analysis gave up: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")


def uniq(name="?"):
    """A string different from every literal of the program."""
    return const(Uniq("<" + name + ">"))


SC_MOD = "simplicial_complex.simplicial_complex"


class Complex:
    """A constructed complex with atoms B1 (nodes x edges), B2 (edges x triangles)."""

    def __init__(self, ctx):
        W = self.W = ctx.W
        self.ctx = ctx
        self.cls = W.get(SC_MOD, "SimplicialComplex")
        self.sc, self.st = W.complex()
        self.B1, self.B2 = sym("B1"), sym("B2")
        for s, d in ((self.B1, (W.nV, W.nE)), (self.B2, (W.nE, W.nT))):
            shapes.SHAPES[s] = d
            shapes.REPS.setdefault(s, "dense")
        N.VANISH.add((self.B1, self.B2))
        N.VANISH.add((mk("tr", self.B2), mk("tr", self.B1)))
        self.named = set(W.named)

    def flow(self, st, name="flow"):
        return self.W.parr(st, name, (self.W.nE,))

    def call(self, name, args=(), kw=None, st=None):
        return self.W.meth(self.sc, name, list(args), dict(kw or {}), self.st if st is None else st)

    def where(self, name):
        return self.ctx.method_where(self.cls, name)


def L1l(B1):
    return mk("matmul", mk("tr", B1), B1)


def term_roots(ctx, st, v):
    """Origins of the objects a value may be (part of)."""
    out = set()

    def go(v):
        if isinstance(v, Phi):
            go(v.a)
            go(v.b)
        elif isinstance(v, Ref):
            c = st.heap[v.cid]
            for (o, cid) in ctx.I.roots(st, v.cid):
                out.add(o)
            if c.kind in ("tuple", "list") and c.items is not None:
                for x in c.items:
                    go(x)
    go(v)
    return out


def public_methods(cls):
    for n, v in cls.env.items():
        f = v
        if isinstance(f, PropV):
            f = f.fget
        elif isinstance(f, StaticV):
            f = f.fn
        if isinstance(f, FuncV) and not n.startswith("_"):
            yield n, v, f


def params_of(f, skip_self=True):
    a = f.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    if skip_self and f.cls is not None and "static" not in f.flags:
        ps = ps[1:]
    return ps
