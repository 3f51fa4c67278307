"""Analysis contexts: abstract entry states for the public API."""
from __future__ import annotations

import sys

from . import simplify as S
from .interp import (ClassV, ExtV, FuncV, Interp, ModV, Outcome, Phi, PropV,
                     Ref, Cell, Dead)
from .project import Project
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, T, const, contains, is_const, mk, show,
                    subst, sym)
from . import normal, shapes, tables  # noqa: F401

sys.setrecursionlimit(30000)


class AnchorLost(Exception):
    """A public construct the property is stated over is gone."""


class World:
    def __init__(self, root):
        self.P = Project(root)
        self.I = Interp(self.P)
        for n in sorted(self.P.modules):
            self.I.module(n)

    # ---------------------------------------------------------- resolution
    def get(self, module, name):
        env = self.I.module("pytspl" + ("." + module if module else ""))
        if env is None:
            raise AnchorLost(f"module pytspl.{module}")
        v = env.get(name)
        if v is None:
            raise AnchorLost(f"{name} in pytspl.{module}")
        return v

    def base(self):
        return self.I.base_state()

    # ---------------------------------------------------------- parameters
    def param(self, st, name, kind="unk"):
        """An input object of the caller: mutating it is an observable effect."""
        return self.I.alloc(st, kind, sym(name), origin=("param", name))

    def plist(self, st, name):
        normal.LISTS.add(sym(name))
        return self.param(st, name, "list")

    def pdict(self, st, name):
        shapes.REPS[sym(name)] = "dict"
        return self.param(st, name, "dict")

    def parr(self, st, name, shape, rep="dense"):
        shapes.SHAPES[sym(name)] = shape
        shapes.REPS[sym(name)] = rep
        return self.param(st, name, "arr")

    def call(self, fn, args=(), kw=None, st=None):
        return self.I.run(fn, list(args), dict(kw or {}), st)

    def meth(self, recv, name, args=(), kw=None, st=None):
        """Analyse recv.name(*args) from (a copy of) the given state."""
        s = st.copy()
        I = self.I
        I.fresh_run()
        try:
            f = I.getattr(recv, name, s)
        except Dead:
            raise AnchorLost(f"method {name}")
        if not isinstance(f, (FuncV, Phi)) and not hasattr(f, "uid"):
            raise AnchorLost(f"method {name}")
        return I.run(f, list(args), dict(kw or {}), s)

    def prop(self, recv, name, st):
        s = st.copy()
        self.I.fresh_run()
        v = self.I.getattr(recv, name, s)
        return Outcome(v, self.I.tm(v, s), s, list(self.I.exc), list(self.I.events), list(self.I.effects), False)

    # ---------------------------------------------------------- complexes
    def raw_complex(self):
        """SimplicialComplex(nodes, edges, triangles, node_features, edge_features)."""
        st = self.base()
        SC = self.get("simplicial_complex.simplicial_complex", "SimplicialComplex")
        o = self.call(SC, [self.plist(st, "nodes"), self.plist(st, "edges"), self.plist(st, "triangles"),
                           self.pdict(st, "node_features"), self.pdict(st, "edge_features")], {}, st)
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost("SimplicialComplex cannot be constructed")
        return o

    def complex(self):
        """A constructed complex whose incidence matrices are the atoms B1, B2."""
        o = self.raw_complex()
        st, sc = o.state, o.value
        nV, nE, nT = (S.Len(sym(x)) for x in ("nodes", "edges", "triangles"))
        self.nV, self.nE, self.nT = nV, nE, nT
        self.named = {}
        c = st.heap[sc.cid]
        for k, v in list(c.attrs.items()):
            if not isinstance(v, Ref):
                continue
            t = self.I.tm(v, st)
            sh = shapes.shape(t)
            for nm, want in (("B1", (nV, nE)), ("B2", (nE, nT))):
                if sh == want and nm not in self.named:
                    s = sym(nm)
                    shapes.SHAPES[s] = want
                    shapes.REPS[s] = "sparse" if shapes.rep(t) == "sparse" else "dense"
                    self.named[nm] = t
                    st.heap[v.cid] = st.heap[v.cid].rep(val=s, items=None)
        st.facts = ()
        self.mark_state(st, sc, "complex")
        return sc, st

    def mark_state(self, st, v, name, seen=None):
        """The objects held by an instance belong to its state from now on."""
        seen = set() if seen is None else seen
        if isinstance(v, Phi):
            self.mark_state(st, v.a, name, seen)
            self.mark_state(st, v.b, name, seen)
            return
        if not isinstance(v, Ref) or v.cid in seen:
            return
        seen.add(v.cid)
        c = st.heap[v.cid]
        if c.origin == ("alloc",) and not c.base:
            st.heap[v.cid] = c.rep(origin=("state", name))
        if c.attrs:
            for k, x in c.attrs.items():
                self.mark_state(st, x, f"{name}.{k}", seen)
        if c.items:
            for x in (c.items.values() if isinstance(c.items, dict) else c.items):
                self.mark_state(st, x, name + "[]", seen)
