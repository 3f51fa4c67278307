"""Checks of the builder and of the enumeration queries of a complex."""
from __future__ import annotations

from itertools import combinations

from .util import *

B_MOD = "simplicial_complex.scbuilder"
CLIQUES = {"networkx.enumerate_all_cliques", "networkx.find_cliques", "networkx.Graph", "networkx.DiGraph", "networkx.simple_cycles",
           "networkx.cycle_basis"}


def cmp_graph():
    return C.Cmp(calls=CLIQUES, mcalls={"add_edges_from", "add_edge"}, distinct=CLIQUES)


class Builder:
    def __init__(self, ctx):
        W = self.W = ctx.W
        self.ctx = ctx
        self.cls = W.get(B_MOD, "SCBuilder")
        st = W.base()
        self.args = [W.plist(st, "nodes"), W.plist(st, "edges"), W.pdict(st, "node_features"), W.pdict(st, "edge_features")]
        o = W.call(self.cls, self.args, {}, st)
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost("SCBuilder cannot be constructed")
        self.b, self.st = o.value, o.state

    def build(self, st=None, **kw):
        o = self.W.meth(self.b, "to_simplicial_complex", [], kw, self.st if st is None else st)
        return o

    def part(self, o, name):
        """A stored list or dictionary of the built complex."""
        return self.W.I.tm(self.W.I.getattr(o.value, name, o.state), o.state)


def simplices_known():
    """Edges are pairs, triangles triples, features are dictionaries."""
    N.ELEMENT.update({sym("edges"): 2, sym("triangles"): 3, sym("given"): 3})
    N.DICTVALS.update({sym("edge_features"), sym("node_features")})


# ------------------------------------------------------------------ C10
def triangles(ctx):
    X = Builder(ctx)
    W = X.W
    simplices_known()
    EDGES, FEAT = sym("edges"), sym("edge_features")
    col, eps = sym("column"), sym("threshold")
    shapes.REPS[eps] = "scalar"
    shapes.SHAPES[eps] = ()
    edges, feats = X.args[1], X.args[3]
    sp = lambda n, *a: ctx.spec("builder", n, *a, st=X.st)
    all3 = sp("cliques", edges)
    near = [sp(n, edges, feats, col, eps) for n in ("near", "near_tuples")]
    w = ctx.method_where(X.cls, "to_simplicial_complex")
    tri = ctx.method_where(X.cls, "triangles")
    dist = ctx.method_where(X.cls, "triangles_dist_based")

    def field(o, name, want, rule, what, where):
        if o.dead or not isinstance(o.value, Ref):
            ctx.ob(rule, what, BAD if o.dead else UNDECIDED, where, f"no complex is returned; raises {sorted({e.exc for e in o.exits})}")
            return
        got = X.part(o, name)
        if rule == "given" and any(x.op == "call" and str(x.args[0]).startswith("networkx.") for x in subterms(N.nf(got))):
            ctx.ob(rule, what, BAD, where, f"computed from the edge graph instead: {C.short(N.nf(got))}")
            return
        if want is all3:
            got = unhelped(got)
            if got.op == "list" and not got.args:
                ctx.ob(rule, what, BAD, where, "no triangle is selected where the edges are stored the other way round or have no features of their own")
                return
        ctx.equal(rule, what, got, want, where, cmp=cmp_graph())

    def unhelped(t):
        """Membership questions answered for a complex with features of other edges, and edges stored the other way round."""
        t = N.nf(t)
        asked = {x for x in subterms(t) if x.op == "in" and x.args[1] in (FEAT, EDGES)}
        m = {x: FALSE for x in asked if x.args[1] is FEAT}
        if m:
            m[N.top("empty", (FEAT,))] = FALSE
            m[mk("empty", FEAT)] = FALSE
        for x in asked:
            q = x.args[0]
            # a pair of nodes asked for in one direction only
            if x.args[1] is EDGES and q.op in ("tuple", "tupleof") and (q.op == "tupleof" or not any(
                    y is not x and y.op == "in" and y.args[1] is EDGES and y.args[0].op == "tuple" and set(y.args[0].args) == set(q.args) for y in asked)):
                m[x] = FALSE
        return N.nsubst(t, m) if m else t

    with guarded(ctx, "cliques", "triangles()", tri):
        o = W.meth(X.b, "triangles", [], {}, X.st)
        ctx.equal("cliques", "triangles() is every 3-clique of the edges, sorted", unhelped(o.term), all3, tri, cmp=cmp_graph())
        ctx.clean("builder-kept", "triangles()", o, tri)
    with guarded(ctx, "distance", "triangles_dist_based()", dist):
        o = W.meth(X.b, "triangles_dist_based", [], {"dist_col_name": col, "epsilon": eps}, X.st)
        ctx.equal("distance", "triangles_dist_based() keeps the 3-cliques with three values below the threshold", o.term, near, dist, cmp=cmp_graph())
        ctx.clean("builder-kept", "triangles_dist_based()", o, dist)
    built = {}
    for label, kw, want in (("condition omitted", {}, all3), ("condition 'all'", {"condition": const("all")}, all3),
                            ("condition 'distance'", {"condition": const("distance"), "dist_col_name": col, "dist_threshold": eps}, near)):
        with guarded(ctx, "selection", label, w):
            o = built[label] = X.build(**kw)
            field(o, "triangles", want, "selection", f"{label}: triangles of the complex", w)
            ctx.clean("builder-kept", label, o, w)
    with guarded(ctx, "selection", "defaults", w):
        o = X.build(condition=const("distance"))
        dflt = [sp(n, edges, feats, const("distance"), const(1.5)) for n in ("near", "near_tuples")]
        field(o, "triangles", dflt, "selection", "omitted column and threshold are 'distance' and 1.5", w)
    with guarded(ctx, "given", "triangles given", w):
        for label, kw in (("", {}), (" with condition 'distance'", {"condition": const("distance")})):
            st = X.st.copy()
            o = built["given"] = X.build(st, triangles=W.plist(st, "given"), **kw)
            field(o, "triangles", sym("given"), "given", f"given triangles are used as they are{label}", w)
            ctx.clean("builder-kept", f"given triangles{label}", o, w)
            st = X.st.copy()
            o = X.build(st, triangles=W.I.alloc(st, "list", items=[]), **kw)
            field(o, "triangles", mk("list"), "given", f"an empty list of triangles is used as it is{label}", w)
    for label, o in built.items():
        for name in ("nodes", "edges", "node_features", "edge_features"):
            with guarded(ctx, "passed-on", f"{label}: {name}", w):
                field(o, name, sym(name), "passed-on", f"{label}: {name} of the builder reach the complex", w)
    with guarded(ctx, "passed-on", "omitted features", w):
        st = W.base()
        o = W.call(X.cls, [W.plist(st, "nodes"), W.plist(st, "edges")], {}, st)
        for name in ("node_features", "edge_features"):
            ctx.equal("passed-on", f"omitted {name} are empty", W.I.tm(W.I.getattr(o.value, name, o.state), o.state), mk("dict"),
                      ctx.method_where(X.cls, "__init__"))


# ------------------------------------------------------------------ C11
def enumeration(ctx):
    X = Complex(ctx)
    W, sc, st = X.W, X.sc, X.st
    simplices_known()
    lists = [W.plist(st, n) for n in ("nodes", "edges", "triangles")]
    feats = W.pdict(st, "edge_features")
    sp = lambda n, *a: ctx.spec("builder", n, *a, st=st)
    for p in ("shape", "simplices", "max_dim"):
        w = X.where(p)
        with guarded(ctx, p, p, w):
            o = W.prop(sc, p, st)
            ctx.equal(p, f"{p} describes the stored simplices", o.term, sp(p, *lists), w)
    printed(ctx, X, sp, lists)
    w = X.where("edge_feature_names")
    with guarded(ctx, "feature-names", "edge_feature_names", w):
        ctx.equal("feature-names", "edge_feature_names() are the keys of the stored features, none without features",
                  X.call("edge_feature_names").term, sp("feature_names", feats), w)
    w = X.where("get_edge_features")
    with guarded(ctx, "feature", "get_edge_features", w):
        ctx.equal("feature", "get_edge_features() are the stored features", X.call("get_edge_features").term, sym("edge_features"), w)
        name = const("some feature")
        o = X.call("get_edge_features", [name])
        ctx.equal("feature", "get_edge_features(name) gives each edge its own value", o.term, sp("feature", feats, name), w)
        kinds = sorted({e.exc.split(":")[0] for e in o.exits})
        ctx.require("missing-feature", "a feature that does not exist raises KeyError", True if kinds == ["KeyError"] else
                    (False if kinds else None), w, f"raises {kinds}")
        if kinds == ["KeyError"]:
            guard = [g for e in o.exits for g in e.guard]
            has = sp("has_feature", feats, name)
            for e in o.exits:
                if any(g.op == "raises" for x in e.guard for g in subterms(x)):
                    continue
                c = S.And(*e.guard) if e.guard else TRUE
                ctx.equal("missing-feature", "KeyError exactly when an edge lacks the feature", c, S.Not(has), w)
    w = X.where("get_node_features")
    with guarded(ctx, "feature", "get_node_features", w):
        ctx.equal("feature", "get_node_features() are the stored features", X.call("get_node_features").term, sym("node_features"), w)
    w = X.where("get_faces")
    for k in range(2, 7 if ctx.thorough else 6):
        with guarded(ctx, "faces", f"{k} nodes", w):
            names = [sym(f"node_{i}") for i in range(k)]
            s = st.copy()
            o = X.call("get_faces", [mk("tuple", *names)], {}, s)
            faces(ctx, k, names, N.nf(o.term), w)
    with guarded(ctx, "faces", "argument kept", w):
        s = st.copy()
        ctx.clean("faces", "get_faces leaves the simplex unchanged", X.call("get_faces", [W.plist(s, "simplex")], {}, s), w)


def printed(ctx, X, sp, lists):
    """print_summary() prints each number under its own name."""
    w = X.where("print_summary")
    with guarded(ctx, "summary", "print_summary", w):
        o = X.call("print_summary")
        known = not o.exits
        pairs = []
        for e in o.events:
            if e.name != "builtins.print":
                known = False
                continue
            if e.guard or e.loops:
                known = False
            label = ""
            for a in e.args:
                t = W_term(X, a, o)
                for x in (t.args if t.op == "str" else [t]):
                    if x.op == "const" and isinstance(x.args[0], str):
                        label = x.args[0] if any(c.isalpha() for c in x.args[0]) else label
                        continue
                    while x.op in ("fmt", "str") and len(x.args) == 1:
                        x = x.args[0]
                    pairs.append((label.split(chr(10))[-1].lower(), x))
                    label = ""
        shape = sp("shape", *lists)
        wants = {"node": sp("count", lists[0]), "edge": sp("count", lists[1]), "triangle": sp("count", lists[2]),
                 "shape": shape, "dim": sp("max_dim", *lists)}
        for word, want in wants.items():
            mine = [x for l, x in pairs if [k for k in wants if k in l] == [word]]
            what = f"print_summary prints the {'dimension' if word == 'dim' else word if word == 'shape' else 'number of ' + word + 's'}"
            if mine and not any(N.nf(x) is N.nf(want) for x in mine):
                ctx.equal("summary", what, mine[0], want, w)
            elif any(N.nf(x) is N.nf(want) for _, x in pairs):
                ctx.require("summary", what, True, w)
            else:
                plain = known and all(sum(k in l for k in wants) == 1 for l, _ in pairs)
                ctx.require("summary", what, False if plain else None, w, "it is printed nowhere")


def W_term(X, v, o):
    return X.W.I.tm(v, o.state)


def faces(ctx, k, names, t, where):
    what = f"faces of a simplex with {k} nodes are its {k} sub-simplices with {k - 1} nodes"
    is_sorted = t.op == "sorted"
    c = t.args[0] if is_sorted and len(t.args) == 1 else t
    if c.op not in ("list", "set", "tuple") or not (is_sorted or t.op == "list"):
        ctx.ob("faces", what, UNDECIDED, where, f"not an explicit collection: {C.short(t)}")
        return
    got = []
    for e in c.args:
        raw = e
        ordered = False
        while e.op in ("tupleof", "listof", "sorted"):
            ordered = ordered or e.op == "sorted"
            e = e.args[0]
        if e.op == "sortedby" and len(e.args[0].args) > 1 and e.args[1].op == "lam" and e.args[1].args[1].op in ("str", "mul"):
            ctx.ob("faces", what, BAD, where, f"the nodes of {C.short(raw)} are in another order")
            return
        if e.op not in ("tuple", "list", "set"):
            if e.op == "sortedby" and len(e.args[0].args) == 1:
                e = e.args[0]              # one node has one order
            else:
                ctx.ob("faces", what, UNDECIDED, where, f"face {C.short(raw)}")
                return
        stat = [rank_of(x, names) for x in e.args]
        if all(x in names for x in e.args):
            if not ordered and len(e.args) > 1:
                ctx.ob("faces", what, BAD, where, f"the nodes of {C.short(raw)} are not sorted")
                return
            got.append(("node",) + tuple(sorted(names.index(x) for x in e.args)))
        elif all(x is not None for x in stat):
            if not ordered and stat != sorted(stat):
                ctx.ob("faces", what, BAD, where, f"the nodes of {C.short(raw)} are not sorted")
                return
            got.append(("rank",) + tuple(sorted(stat)))
        else:
            ctx.ob("faces", what, UNDECIDED, where, f"face {C.short(raw)}")
            return
    for kind in ("node", "rank"):
        want = [(kind,) + x for x in combinations(range(k), k - 1)]
        if sorted(got) == sorted(want):
            if kind == "node" and not is_sorted:
                ctx.ob("faces", what, BAD, where, "the faces are not in sorted order")
                return
            ctx.ob("faces", what, OK if is_sorted or got == want else BAD, where, "the faces are not in sorted order")
            return
    if len({g[0] for g in got}) > 1:
        ctx.ob("faces", what, UNDECIDED, where, "mixed enumeration")
        return
    ctx.ob("faces", what, BAD, where, f"gives {[g[1:] for g in got]} (positions in the simplex)")


def rank_of(x, names):
    """i for the i-th smallest node."""
    if x.op == "idx" and is_const(x.args[1]) and x.args[0].op in ("sorted", "listof", "tupleof"):
        y = x.args[0]
        srt = False
        while y.op in ("sorted", "listof", "tupleof"):
            srt = srt or y.op == "sorted"
            y = y.args[0]
        if srt and y.op in ("tuple", "list") and set(y.args) == set(names):
            return cval(x.args[1])
    return None
