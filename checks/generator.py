"""Check of the random complexes."""
from __future__ import annotations

from .builder import CLIQUES, simplices_known  # noqa: F401
from sa.terms import fresh_bv

from .util import *

G_MOD = "io.sc_generator"
NAME = "generate_random_simplicial_complex"
# networkx functions that draw random numbers, with the position of their seed
SEEDED = {"erdos_renyi_graph": 2, "gnp_random_graph": 2, "binomial_graph": 2, "fast_gnp_random_graph": 2, "gnm_random_graph": 2,
          "random_geometric_graph": 4, "watts_strogatz_graph": 3, "barabasi_albert_graph": 2, "random_regular_graph": 2, "spring_layout": 10,
          "fruchterman_reingold_layout": 10, "random_layout": 3, "arf_layout": None, "forceatlas2_layout": None, "random_tree": 1}
CLOCKS = ("time.", "datetime.", "os.urandom", "uuid.", "os.getpid", "id", "builtins.id", "secrets.", "hash", "os.environ")
UNIT = {"random"}                       # draws from [0, 1)
OUTSIDE = {"gauss", "normalvariate", "lognormvariate", "expovariate", "randint", "randrange", "normal", "standard_normal", "randn", "integers",
           "paretovariate", "weibullvariate", "vonmisesvariate", "gammavariate", "choice", "sample", "getrandbits", "exponential", "poisson"}
OBJECTS = ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState")


def cmp_gen():
    return C.Cmp(calls=CLIQUES | {"networkx." + x for x in SEEDED} | set(OBJECTS),
                 mcalls={"add_edges_from", "add_edge", "edges", "nodes", "random"}, distinct=CLIQUES, extra={"rnd"})


def none_inside(t):
    """Can the value be None?"""
    t = N.nf(t)
    if t is NONE:
        return True
    if t.op == "ite":
        return none_inside(t.args[1]) or none_inside(t.args[2])
    return False


def draws(t):
    return {x for x in subterms(t) if x.op == "mcall" and x.args[0].op == "call" and x.args[0].args[0] in OBJECTS}


def generated(ctx):
    from sa import graphs  # the normal forms of graphs with attributes
    W = ctx.W
    I = W.I
    fn = W.get(G_MOD, NAME)
    w = ctx.where(fn)
    n, p, thr, seed = (sym(x) for x in ("num_of_nodes", "p", "dist_threshold", "seed"))
    for x in (n, p, thr, seed):
        shapes.REPS[x] = "scalar"
        shapes.SHAPES[x] = ()
    st = W.base()
    o = W.call(fn, [], dict(num_of_nodes=n, p=p, dist_threshold=thr, seed=seed), st)
    if o.dead:
        ctx.ob("result", NAME, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
        return
    randomness(ctx, o, seed, w)
    with guarded(ctx, "result", "the generated complex", w):
        its = o.state.heap[o.value.cid].items if isinstance(o.value, Ref) and o.state.heap[o.value.cid].kind == "tuple" else None
        if its is None or len(its) != 2 or not isinstance(its[0], Ref):
            ctx.ob("result", "a complex and coordinates", UNDECIDED, w, "not a pair of a complex and coordinates")
            return
        part = lambda x: N.nf(I.tm(I.getattr(its[0], x, o.state), o.state))
        edges, feats = part("edges"), part("edge_features")
        # one graph, its nodes and edges
        gs = [x for x in subterms(edges) if graphs.drawn(x)]
        if len(set(gs)) != 1:
            ctx.ob("graph", "the edges are those of one random graph", UNDECIDED, w, C.short(edges))
            return
        g = gs[0]
        N.ELEMENT.update({graphs.edges_of(g): 2})
        N._memo.clear()
        edges, feats = N.nf(edges), N.nf(feats)
        ctx.equal("graph", "the edges are those of the random graph", edges, ctx.spec("generator", "edges", g), w, cmp=cmp_gen())
        ctx.equal("graph", "the nodes are those of the random graph", part("nodes"), ctx.spec("generator", "nodes", g), w, cmp=cmp_gen(),
                  wrong=[("these are the nodes with an edge", ctx.spec("generator", "linked", g)),
                         ("these are the nodes with an edge", ctx.spec("generator", "linked_2", g))])
        size = g.args[1:]
        kw = {x.args[0]: x.args[1] for x in size if isinstance(x, T) and x.op == "kw"}
        pos = [x for x in size if not (isinstance(x, T) and x.op == "kw")]
        if g.args[0].endswith(("erdos_renyi_graph", "gnp_random_graph", "binomial_graph")):
            ctx.equal("graph", "it has the given number of nodes", kw.get("n", pos[0] if pos else NONE), n, w)
            ctx.equal("graph", "an edge has the given probability", kw.get("p", pos[1] if len(pos) > 1 else NONE), p, w)
            ctx.require("graph", "it is undirected", N.nf(kw.get("directed", pos[3] if len(pos) > 3 else FALSE)) is FALSE, w, "the graph is directed")
        # one distance per edge
        ds = draws(feats)
        if len(ds) != 1:
            k = [x for x in subterms(feats) if x.op == "kv"]
            if not ds and all(is_const(y) for x in k for y in x.args) and not [x for x in subterms(feats) if x.op == "idx" and x.args[0] is not graphs.edges_of(g)
                                                                                and not (x.args[0].op == "idx" and x.args[0].args[0] is graphs.edges_of(g))]:
                ctx.ob("distance", "every edge has one drawn distance", BAD, w, f"the features are {C.short(feats)}")
            else:
                ctx.ob("distance", "every edge has one drawn distance", UNDECIDED, w, f"{len(ds)} draws, {len(k)} values: {C.short(feats)}")
        else:
            d = next(iter(ds))
            E = graphs.edges_of(g)
            vs = [y for x in d.args if isinstance(x, T) and x.op == "rnd" for y in x.args if isinstance(y, T) and y.op == "bv"]
            k = fresh_bv()
            values = mk("map", N._len(E), k, N.nsubst(d, {v: k for v in vs}), TRUE)
            ctx.equal("distance", "every edge has its one distance and nothing else", feats, ctx.spec("generator", "distances", E, values), w, cmp=cmp_gen(),
                      wrong=[("the distance has another name", ctx.spec("generator", "weights", E, values)),
                             ("an edge is filed under its reverse", ctx.spec("generator", "reversed_edges", E, values))])
            m = d.args[1]
            a = [x for x in d.args[2:] if isinstance(x, T) and x.op not in ("rnd",)]
            if m in UNIT:
                ok = True
            elif m == "uniform":
                b = [x.args[1] if x.op == "kw" else x for x in a]
                ok = None
                if len(b) == 2 and all(is_const(x) and isinstance(cval(x), (int, float)) for x in b):
                    ok = 0 <= cval(b[0]) <= cval(b[1]) <= 1
                elif not b and d.args[0].args[0] != "random.Random":
                    ok = True
            else:
                ok = False if m in OUTSIDE else None
            inside = [x for x in subterms(feats) if d in set(subterms(x)) and x.op in ("add", "mul", "neg", "div", "pow", "call", "fn")]
            ctx.require("distance", "distances are between zero and one", ok if not inside else None, w, f"they are drawn by {m}({', '.join(map(C.short, a))})")
        # the triangles
        if feats.op == "scatter":
            ctx.equal("triangles", "the triangles are those within the threshold", part("triangles"), [ctx.spec("builder", x, edges, feats, const("distance"), thr) for x in ("near", "near_tuples")],
                      w, cmp=cmp_gen(), wrong=[("all cliques are triangles", ctx.spec("builder", "cliques", edges))])
        # coordinates for the nodes of that graph
        co = N.nf(I.tm(its[1], o.state))
        lay = [x for x in subterms(co) if x.op == "call" and str(x.args[0]).startswith("networkx.") and x.args[0].endswith("_layout")]
        if len(lay) != 1 or lay[0] is not co:
            ctx.ob("coordinates", "coordinates of every node of the graph", UNDECIDED, w, C.short(co))
        else:
            h = lay[0].args[1] if len(lay[0].args) > 1 else NONE
            while h.op == "kw":
                h = h.args[1]
            b = graphs.base(h)
            made = h.op in ("call", "mcall") and not (graphs.drawn(h) or b is not None) and "networkx.Graph" in C.short(h) and "add_nodes_from" not in C.short(h)
            gone = {y for y in subterms(h) if y.op == "mcall" and str(y.args[1]).startswith("remove_node")} - set(subterms(part("nodes")))
            made = made or bool(gone)
            ctx.require("coordinates", "coordinates of every node of the graph", True if b is g else (False if made else None), w,
                        ("nodes without edges have no coordinates: " if not gone else "nodes were removed from it: ") + C.short(h))


def randomness(ctx, o, seed, w):
    """Every random number comes from a source created in the call with a seed that is not None."""
    count = 0
    ctx.ob("global", "no number is drawn from a global generator", OK, w)
    for e in o.events:
        name = str(e.name)
        at = f"{e.loc[0]}:{e.loc[1]}" if e.loc else w
        if name.startswith("globalrng:"):
            ctx.ob("global", f"{name[10:]}()", BAD, at, "draws from the global random state, so the result depends on what was drawn before")
        elif name.startswith("globalseed:"):
            ctx.ob("global", f"{name[11:]}()", BAD, at, "sets the global random state")
        elif name.startswith("entropy:"):
            ctx.ob("global", f"{name[8:]}()", BAD, at, "is seeded by the system, so two calls differ")
        elif name.startswith(CLOCKS) and not name.startswith(("id.", "hash.")) and (name in CLOCKS or "." in name):
            ctx.ob("global", f"{name}()", BAD, at, "differs from call to call")
        elif name.startswith("networkx.") and name[9:] in SEEDED:
            pos = SEEDED[name[9:]]
            s = e.kw.get("seed") if e.kw else None
            if s is None and pos is not None and len(e.args) > pos:
                s = e.args[pos]
            count += 1
            what = f"{name[9:]}() is given a seed"
            if s is None:
                ctx.ob("seeded", what, BAD, at, "no seed is given: it draws from the global random state")
            else:
                ctx.require("seeded", what, not none_inside(s), at, f"the seed can be None: {C.short(N.nf(s))}")
    for t in {x for e in o.events for y in list(e.args or []) + list((e.kw or {}).values()) + ([e.recv] if e.recv is not None else [])
              if isinstance(y, T) for x in subterms(y)} | set(subterms(o.term)):
        if t.op == "call" and t.args[0] in OBJECTS:
            a = [x.args[1] if x.op == "kw" else x for x in t.args[1:]]
            count += 1
            ctx.require("seeded", f"{t.args[0]}() is given a seed", bool(a) and not none_inside(a[0]), w, f"its seed can be None: {C.short(t)}")
            for x in {y for z in a[:1] for y in subterms(z)}:
                if x.op == "call" and str(x.args[0]).split(".")[-1] in ("id", "hash"):
                    words = any(y.op == "const" and isinstance(cval(y), str) or y.op in ("str", "fmt") for z in x.args[1:] if isinstance(z, T) for y in subterms(z))
                    ctx.require("seeded", f"{t.args[0]}() is given the same seed every time", False if words or str(x.args[0]).endswith("id") else True, w,
                                f"{C.short(x)} differs from process to process")
    for e in o.effects:
        if isinstance(e.root, tuple) and e.root[0] in ("global", "default", "memo") and "random" in str(e.val) + str(e.what):
            ctx.ob("kept", f"{e.root}", BAD, f"{e.loc[0]}:{e.loc[1]}", f"{e.what}: a generator kept between calls is advanced")
    ctx.clean("kept", NAME, o, w, roots=("global", "default"))
    ctx.require("seeded", "random sources are found", count > 0 or None, w, "no source of random numbers is known here")
