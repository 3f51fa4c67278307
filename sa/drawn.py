"""Normal forms used by the check of the drawings: lists without repeated elements.

Imported by that check alone."""
from __future__ import annotations

from . import normal as N
from .terms import NONE, TRUE, mk, occurs

DISTINCT: set = set()        # lists whose elements are all different


def filled(t):
    """{L[k]: v for k}: (L, k, v)."""
    if t.op != "scatter" or len(t.args) != 2 or t.args[0] is not mk("dict"):
        return None
    cond, i, v, mode, *binds = t.args[1].args
    if cond is not TRUE or mode is not NONE or len(binds) != 1:
        return None
    D, k = binds[0].args
    if i.op == "idx" and i.args[0] in DISTINCT and i.args[1] is k and D is N._len(i.args[0]):
        return i.args[0], k, v
    return None


_keys0, _vals0, _index0 = N.RULES.get("keys"), N.RULES.get("vals"), N.RULES.get("index")


def keys(d):
    f = filled(d)
    if f:
        return f[0]
    return _keys0(d) if _keys0 else mk("keys", d)


def vals(d):
    f = filled(d)
    if f:
        L, k, v = f
        if v.op == "idx" and v.args[1] is k and not occurs(k, v.args[0]):
            return v.args[0]
        return N.top("map", (N._len(L), k, v, TRUE))
    return _vals0(d) if _vals0 else mk("vals", d)


def index(s, x):
    if s in DISTINCT and x.op == "idx" and x.args[0] is s:
        return x.args[1]
    return _index0(s, x) if _index0 else mk("index", s, x)


_len0 = N.RULES["len"]


def length(x, *r):
    f = filled(x) if x.op == "scatter" else None
    return _len0(f[0] if f else x, *r)


N.RULES.update({"keys": keys, "vals": vals, "index": index, "len": length})

_attr0 = N.RULES.get("attr")


def attr(x, name, *r):
    """The edges of a graph, as a view or by a call."""
    if name in ("edges", "nodes") and not r:
        b = x
        while b.op == "mcall" and str(b.args[1]).startswith("add_"):
            b = b.args[0]
        if b.op == "call" and b.args[0] in ("networkx.Graph", "networkx.DiGraph"):
            return N.top("mcall", (x, name))
    return _attr0(x, name, *r) if _attr0 else mk("attr", x, name, *r)


N.RULES["attr"] = attr
