"""Normal forms for networkx graphs that carry edge attributes.

Setting attributes changes neither the nodes nor the edges of a graph, and an
attribute that is set on every edge is found again on each of them.
"""
from __future__ import annotations

from . import normal as N
from .terms import NONE, TRUE, T, const, is_const, mk

BARE = ("networkx.erdos_renyi_graph", "networkx.gnp_random_graph", "networkx.fast_gnp_random_graph", "networkx.binomial_graph",
        "networkx.gnm_random_graph", "networkx.random_geometric_graph", "networkx.watts_strogatz_graph", "networkx.barabasi_albert_graph")
STRUCTURE = ("edges", "nodes", "number_of_edges", "number_of_nodes", "is_directed", "has_edge", "neighbors", "degree")


def drawn(t):
    return t.op == "call" and t.args[0] in BARE


def path(t):
    """[G, k1, k2, ..] of a chain of subscripts."""
    out = []
    while t.op == "idx":
        out.append(t.args[1])
        t = t.args[0]
    return [t] + out[::-1]


def through(g, e):
    return N._idx(N._idx(g, N._idx(e, N.ZERO)), N._idx(e, N.ONE))


def stored(body, v):
    """The (keys, value) of the one nested store in the body of a loop over the graph v."""
    keys, cur = [], v
    if body.op == "setattr" and body.args[0] is v and body.args[1] in ("edges", "adj"):
        # G.edges[u, v][name] = value
        cur, body = mk("attr", v, body.args[1]), body.args[2]
        if body.op == "store" and body.args[0] is cur and cur.args[1] == "edges":
            e, inner = body.args[1], body.args[2]
            at = (N.top("idx", (cur, e)), mk("idx", cur, e))
            if inner.op != "store" or not (inner.args[0] in at or inner.args[0] is through(v, e)):
                return None
            return [N._idx(e, N.ZERO), N._idx(e, N.ONE), inner.args[1]], inner.args[2]
    while True:
        if body.op != "store" or body.args[0] is not cur:
            return None
        keys.append(body.args[1])
        cur = N.top("idx", (cur, body.args[1]))
        nxt = body.args[2]
        if nxt.op != "store":
            return (keys, nxt) if len(keys) > 1 else None
        body = nxt


def marked(t):
    """(graph, loop length, loop variable, u, v, name, value) of a graph with an attribute set in a loop."""
    if t.op == "call" and t.args[0] == "networkx.set_edge_attributes":
        return given(t)
    if t.op != "rec" or len(t.args[3].args if isinstance(t.args[3], T) else t.args[3]) != 1:
        return None
    ph, ini, body = [list(x.args) if isinstance(x, T) else list(x) for x in t.args[3:6]]
    if len(ini) != 1 or len(body) != 1 or base(ini[0]) is None or t.args[2] is not N.ZERO and not is_const(t.args[2], 0):
        return None
    s = stored(body[0], ph[0])
    if s is None:
        return None
    keys, val = s
    if val.op == "dict" and len(val.args) == 1 and len(keys) == 2 and False:
        return None
    if len(keys) != 3 or not (is_const(keys[2]) and isinstance(keys[2].args[0], str)):
        return None
    if any(p in set(N.subterms(x)) for p in ph for x in keys + [val]):
        return None
    return ini[0], t.args[0], t.args[1], keys[0], keys[1], keys[2], val


def given(t):
    """The same, of networkx.set_edge_attributes(G, {edge: value}, name)."""
    kw = {x.args[0]: x.args[1] for x in t.args[1:] if isinstance(x, T) and x.op == "kw"}
    a = [x for x in t.args[1:] if not (isinstance(x, T) and x.op == "kw")] + [None] * 3
    g, vals, name = kw.get("G", a[0]), kw.get("values", a[1]), kw.get("name", a[2])
    if g is None or vals is None or name is None or base(g) is None or vals.op != "scatter" or vals.args[0] is not mk("dict") or len(vals.args) != 2:
        return None
    if not (is_const(name) and isinstance(name.args[0], str)):
        return None
    cond, i, v, mode, *binds = vals.args[1].args
    if cond is not TRUE or mode is not NONE or len(binds) != 1:
        return None
    n, k = binds[0].args
    return g, n, k, N._idx(i, N.ZERO), N._idx(i, N.ONE), name, v


def base(t):
    """The drawn graph below any attributes."""
    while not drawn(t):
        m = marked(t) if t.op in ("rec", "call") else None
        if m is None:
            return None
        t = m[0]
    return t


def edges_of(g):
    return N.top("mcall", (g, "edges"))


def attributes(t):
    """{name: value of edge k} with the variable k, when every edge of the graph has just these."""
    out = {}
    k0 = None
    while not drawn(t):
        m = marked(t)
        if m is None:
            return None
        g, n, k, u, v, name, val = m
        b = base(t)
        E = edges_of(b)
        if n is not N._len(E) or u is not N._idx(N._idx(E, k), N.ZERO) or v is not N._idx(N._idx(E, k), N.ONE):
            return None
        if k0 is None:
            k0 = k
        elif k is not k0:
            val = N.nsubst(val, {k: k0})
        out.setdefault(name, val)
        t = g
    return out, k0


_len0 = N.RULES["len"]
_idx0, _mcall0, _scatter0 = N.RULES["idx"], N.RULES["mcall"], N.RULES["scatter"]


def idx(s, i):
    if s.op == "attr" and s.args[1] in ("edges", "nodes", "adj"):
        if s.args[1] == "edges" and (i.op == "tuple" and len(i.args) == 2 or i.op == "idx" and base(s.args[0]) is not None and i.args[0] is edges_of(base(s.args[0]))):
            return through(s.args[0], i)
        if s.args[1] == "adj":
            return N._idx(s.args[0], i)
        return N._idx(N.top("mcall", (s.args[0], s.args[1])), i)
    if s.op == "mcall" and s.args[1] == "edges" and len(s.args) == 3 and isinstance(s.args[2], T) and s.args[2].op == "kw" and s.args[2].args == ("data", TRUE) \
            and base(s.args[0]) is not None and i.op == "bv":
        e = N._idx(edges_of(base(s.args[0])), i)
        return mk("tuple", N._idx(e, N.ZERO), N._idx(e, N.ONE), through(s.args[0], e))
    if s.op == "idx":
        g = s.args[0]
        b = base(g) if g.op in ("rec", "call") else None
        if b is not None:
            a = attributes(g)
            E = edges_of(b)
            u = s.args[1]
            if a is not None and u.op == "idx" and u.args[0].op == "idx" and u.args[0].args[0] is E:
                j = u.args[0].args[1]
                if u is N._idx(N._idx(E, j), N.ZERO) and i is N._idx(N._idx(E, j), N.ONE):
                    return mk("dict", *[mk("kv", n, N.nsubst(x, {a[1]: j})) for n, x in sorted(a[0].items(), key=lambda y: str(y[0]))])
    return _idx0(s, i)


def mcall(x, name, *r):
    if name in STRUCTURE and not any(isinstance(y, T) and y.op == "kw" and y.args[0] == "data" for y in r):
        b = base(x) if x.op in ("rec", "call") else None
        if b is not None and b is not x:
            return N.top("mcall", (b, name, *r))
        if name == "number_of_edges" and not r and drawn(x):
            return N._len(edges_of(x))
    return _mcall0(x, name, *r) if _mcall0 else mk("mcall", x, name, *r)


def plainly(f):
    """Iterating the view, or the graph, goes through its edges, or nodes."""
    def g(x, *r):
        if x.op == "attr" and x.args[1] in ("edges", "nodes") and base(x.args[0]) is not None:
            x = N.top("mcall", (x.args[0], x.args[1]))
        elif x.op in ("rec", "call") and base(x) is not None:
            x = N.top("mcall", (x, "nodes"))
        elif x.op == "mcall" and x.args[1] == "edges" and x.args[2:] == (mk("kw", "data", TRUE),) and f is _len0 and base(x.args[0]) is not None:
            x = edges_of(base(x.args[0]))
        return f(x, *r)
    return g


def scatter(init, *entries):
    """A copy of a dictionary, value by value."""
    if init is mk("dict") and len(entries) == 1:
        cond, i, v, mode, *binds = entries[0].args
        if cond is TRUE and mode is NONE and len(binds) == 1 and i.op == "idx" and i.args[0].op == "keys" and i.args[1] is binds[0].args[1]:
            d = i.args[0].args[0]
            if v.op == "idx" and v.args[0] is d and v.args[1] is i and d.op == "dict" and binds[0].args[0] is N._len(d):
                return d
    return _scatter0(init, *entries)


N.RULES.update({"idx": idx, "mcall": mcall, "scatter": scatter})
for _op in ("listof", "sorted", "tupleof", "setof", "len"):
    N.RULES[_op] = plainly(N.RULES[_op])
N._idx, N._len = idx, N.RULES["len"]
