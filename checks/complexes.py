"""Checks of the simplicial complex: operators, spectra, decomposition."""
from __future__ import annotations

from itertools import product

from .util import *

cmp0 = C.Cmp()


# ------------------------------------------------------------------ C01
def boundary(ctx):
    W, I = ctx.W, ctx.I
    o = W.raw_complex()
    sc, st = o.value, o.state
    cls = W.get(SC_MOD, "SimplicialComplex")
    st = st.copy()
    st.facts = ()
    nodes, edges, triangles = sym("nodes"), sym("edges"), sym("triangles")
    b1 = b2 = None
    w1 = ctx.method_where(cls, "incidence_matrix")
    with guarded(ctx, "edge-column", "incidence_matrix(1)", w1):
        r = W.meth(sc, "incidence_matrix", [], {"rank": ONE}, st)
        b1 = r.term
        spec = ctx.spec("complex", "B1", W.plist(st, "nodes"), W.plist(st, "edges"), st=st)
        ctx.equal("edge-column", "incidence_matrix(1) is -1 at the first and +1 at the second endpoint", b1, spec,
                  ctx.method_where(cls, "edges_to_B1") if "edges_to_B1" in cls.env else w1)
    w2 = ctx.method_where(cls, "triangles_to_B2") if "triangles_to_B2" in cls.env else w1
    with guarded(ctx, "cycle", "incidence_matrix(2)", w2):
        r = W.meth(sc, "incidence_matrix", [], {"rank": const(2)}, st)
        b2 = N.nf(r.term)
        cycles(ctx, b2, w2)
    with guarded(ctx, "helpers", "edges_to_B1", w2):
        # the public helpers agree with what the complex stores
        for nm, args, ref in (("edges_to_B1", {"edges": W.plist(st, "edges"), "num_nodes": S.Len(nodes)}, b1),
                              ("triangles_to_B2", {"triangles": W.plist(st, "triangles"), "edges": W.plist(st, "edges")}, b2)):
            if nm in cls.env and ref is not None:
                r = W.meth(sc, nm, [], args, st)
                ctx.equal("stored-operator", f"{nm} is what incidence_matrix returns", r.term, ref, ctx.method_where(cls, nm))
    with guarded(ctx, "rank", "incidence_matrix", w1):
        for rk in (-1, 3, 7):
            r = W.meth(sc, "incidence_matrix", [], {"rank": const(rk)}, st)
            ctx.raises("invalid-rank", f"incidence_matrix({rk})", r, where=w1)
        r = W.meth(sc, "incidence_matrix", [], {"rank": ZERO}, st)
        got = {S.Len(N.nf(r.term)), shapes.dim(N.nf(r.term), 0)}
        other = {S.Len(edges), S.Len(triangles)}
        ctx.require("rank-0", "incidence_matrix(0) has one entry per node",
                    True if S.Len(nodes) in got else False if got & other else None, w1)


def cycles(ctx, b2, where):
    """B1 B2 = 0 for each of the 8 ways the three edges of a triangle can be stored."""
    edges, tri = sym("edges"), sym("triangles")
    if b2.op != "scatter" or b2.args[0].op != "zeros":
        ctx.ob("cycle", "incidence_matrix(2)", UNDECIDED, where, "not built by stores into a zero matrix")
        return
    dims = S.dims_of_shape(b2.args[0].args[0])
    ctx.require("shape", "incidence_matrix(2) is edges x triangles",
                dims == [S.Len(edges), S.Len(tri)], where, f"shape is {dims}")
    entries = b2.args[1:]
    names = ["a", "b", "c"]
    pairs = [(0, 1), (1, 2), (0, 2)]
    for orient in product((True, False), repeat=3):
        label = ", ".join(f"({names[p]},{names[q]}) stored {'forwards' if f else 'backwards'}" for (p, q), f in zip(pairs, orient))
        col = {}
        bad = None
        for e in entries:
            cond, idx, val, mode, *binds = e.args
            if len(binds) != 1 or binds[0].args[0] is not S.Len(tri) or idx.op != "tuple" or len(idx.args) != 2 \
                    or idx.args[1] is not binds[0].args[1]:
                bad = "entries are not one column per triangle"
                break
            k = binds[0].args[1]
            v = [mk("idx", mk("idx", tri, k), const(i)) for i in range(3)]
            row, x, c = idx.args[0], val, cond
            for (p, q), f in zip(pairs, orient):
                for (s, t, truth_) in ((p, q, f), (q, p, not f)):
                    m = mk("in", mk("tuple", v[s], v[t]), edges)
                    row, x, c = (C.assume_in(y, m, truth_) for y in (row, x, c))
            if c is FALSE:
                continue
            if c is not TRUE or not N.isnum(x):
                bad = f"value {C.short(x, 120)} under condition {C.short(c, 120)}"
                break
            hit = None
            for (p, q), f in zip(pairs, orient):
                s, t = (p, q) if f else (q, p)
                if row is mk("index", edges, mk("tuple", v[s], v[t])):
                    hit = (s, t)
            if hit is None:
                wrongdir = any(row is mk("index", edges, mk("tuple", v[t], v[s])) for (p, q), f in zip(pairs, orient)
                               for s, t in [((p, q) if f else (q, p))])
                moved = [x for x in N.subterms(row) if x.op == "idx" and x.args[1] is k and x.args[0].op in ("sorted", "reversed", "sortedby") and x.args[0].args[0] is tri]
                bad = ("!" if wrongdir or moved else "") + f"row {C.short(row, 160)}"
                break
            col[hit] = N.num(x.args[0])
        if bad is not None:
            ctx.ob("cycle", label, BAD if bad.startswith("!") else UNDECIDED, where, bad)
            continue
        tot = [0, 0, 0]
        for (s, t), x in col.items():
            tot[s] -= x
            tot[t] += x
        good = len(col) == 3 and all(abs(x) == 1 for x in col.values()) and tot == [0, 0, 0]
        ctx.require("cycle", label, good, where,
                    f"column entries {{{', '.join(f'({names[s]},{names[t]}): {x}' for (s, t), x in col.items())}}} give B1@B2 = "
                    f"{[str(x) for x in tot]} on (a, b, c)")


# ------------------------------------------------------------------ C02
def laplacians(ctx):
    X = Complex(ctx)
    B1, B2 = X.B1, X.B2
    sp = lambda n, *a: ctx.spec("complex", n, *a)
    table = [
        ("laplacian_matrix", None, sp("up", B1)),
        ("lower_laplacian_matrix", 1, sp("down", B1)),
        ("lower_laplacian_matrix", 2, sp("down", B2)),
        ("upper_laplacian_matrix", 0, sp("up", B1)),
        ("upper_laplacian_matrix", 1, sp("up", B2)),
        ("hodge_laplacian_matrix", 0, sp("up", B1)),
        ("hodge_laplacian_matrix", 1, sp("hodge", B1, B2)),
        ("hodge_laplacian_matrix", 2, sp("down", B2)),
    ]
    for name, rk, want in table:
        w = X.where(name)
        lab = f"{name}({'' if rk is None else rk})"
        with guarded(ctx, "definition", lab, w):
            o = X.call(name, [], {} if rk is None else {"rank": const(rk)})
            ctx.equal("definition", lab, o.term, want, w)
            sparse(ctx, lab, o, w)
    for name, default in (("lower_laplacian_matrix", sp("down", B1)), ("upper_laplacian_matrix", sp("up", B2)),
                          ("hodge_laplacian_matrix", sp("hodge", B1, B2))):
        with guarded(ctx, "default-rank", name, X.where(name)):
            ctx.equal("default-rank", f"{name}()", X.call(name).term, default, X.where(name))
    for name, bad in (("lower_laplacian_matrix", (-1, 0, 3)), ("upper_laplacian_matrix", (-1, 2, 3)),
                      ("hodge_laplacian_matrix", (-1, 3, 4))):
        for rk in bad:
            with guarded(ctx, "invalid-rank", f"{name}({rk})", X.where(name)):
                ctx.raises("invalid-rank", f"{name}({rk})", X.call(name, [], {"rank": const(rk)}), where=X.where(name))
    w = X.where("adjacency_matrix")
    with guarded(ctx, "adjacency", "adjacency_matrix()", w):
        o = X.call("adjacency_matrix")
        want = [ctx.spec("complex", "adjacency_from_B1", B1),
                ctx.spec("complex", "adjacency", X.W.plist(X.st, "nodes"), X.W.plist(X.st, "edges"), st=X.st)]
        ctx.equal("adjacency", "adjacency_matrix() is symmetric 0/1 with one pair per edge", o.term, want, w,
                  cmp=C.Cmp(forbid={"matmul", "abs", "pow", "mul", "add", "select"}))
        sparse(ctx, "adjacency_matrix()", o, w)


def sparse(ctx, label, o, where):
    """The query gives a sparse matrix: callers go on with .toarray() or hand it to sparse solvers."""
    r = shapes.rep(N.nf(o.term)) if shapes.rep(o.term) not in ("sparse", "dense") else shapes.rep(o.term)
    ctx.require("sparse", f"{label} is a sparse matrix", True if r == "sparse" else False if r in ("dense", "seq", "tuple", "scalar") else None, where, f"the result is {r}")


# ------------------------------------------------------------------ C03
def shifting(ctx):
    X = Complex(ctx)
    B1, B2 = X.B1, X.B2
    st = X.st.copy()
    f = X.flow(st)
    k = sym("steps")
    shapes.REPS[k] = "scalar"
    for name, spec, args, dflt in (("apply_lower_shifting", "lower_shift", (B1,), 1), ("apply_upper_shifting", "upper_shift", (B2,), 1),
                                   ("apply_k_step_shifting", "k_step", (B1, B2), 2)):
        w = X.where(name)
        with guarded(ctx, "k-steps", name, w):
            o = X.call(name, [f], {"steps": k}, st)
            ctx.equal("k-steps", f"{name}(f, k) for every k", o.term, ctx.spec("complex", spec, *args, sym("flow"), k), w)
        for n in (0, 1, 2, 3):
            with guarded(ctx, "n-steps", f"{name}(f, {n})", w):
                o = X.call(name, [f], {"steps": const(n)}, st)
                ctx.equal("n-steps", f"{name}(f, {n})", o.term, ctx.spec("complex", spec, *args, sym("flow"), const(n)), w)
        with guarded(ctx, "default-steps", name, w):
            o = X.call(name, [f], {}, st)
            ctx.equal("default-steps", f"{name}(f)", o.term, ctx.spec("complex", spec, *args, sym("flow"), const(dflt)), w)
        with guarded(ctx, "argument-kept", name, w):
            o = X.call(name, [f], {"steps": k}, st)
            ctx.clean("argument-kept", f"{name} leaves the flow and the complex unchanged", o, w)


# ------------------------------------------------------------------ C04
def flow_operators(ctx):
    X = Complex(ctx)
    B1, B2 = X.B1, X.B2
    st = X.st.copy()
    f = X.flow(st)
    F = sym("flow")
    sp = lambda n, *a: ctx.spec("complex", n, *a)
    for name, want in (("get_divergence", sp("divergence", B1, F)), ("get_curl", sp("curl", B2, F))):
        w = X.where(name)
        with guarded(ctx, "definition", name, w):
            ctx.equal("definition", name, X.call(name, [f], {}, st).term, want, w)
    w = X.where("get_total_variance")
    with guarded(ctx, "definition", "get_total_variance", w):
        ctx.equal("definition", "get_total_variance", X.call("get_total_variance").term, sp("total_variance", B1), w)
    # embeddings: coordinates in the eigenvectors of the pair query, in the documented order
    w = X.where("get_simplicial_embeddings")
    with guarded(ctx, "embedding", "get_simplicial_embeddings", w):
        o = X.call("get_simplicial_embeddings", [f], {}, st)
        t = N.nf(o.term)
        if t.op != "tuple":
            ctx.ob("embedding", "get_simplicial_embeddings", UNDECIDED, w, "result is not a known tuple")
        else:
            ctx.require("embedding-arity", "three embeddings", len(t.args) == 3, w, f"{len(t.args)} values are returned")
            if len(t.args) == 3:
                for i, comp in enumerate(("harmonic", "curl", "gradient")):
                    p = X.call("get_component_eigenpair", [], {"component": const(comp)}, st)
                    pt = N.nf(p.term)
                    want = sp("embed", S.Idx(pt, ZERO), F)
                    # the embedding is U' f with U the eigenvectors of that component
                    ctx.equal("embedding", f"value {i} is the {comp} embedding", t.args[i], want, w)
    env = ctx.I.module("pytspl.decomposition.eigendecomposition") or {}
    for name, a, want in (("get_divergence", (B1, F), sp("divergence", B1, F)), ("get_curl", (B2, F), sp("curl", B2, F))):
        if name in env:
            with guarded(ctx, "definition", "decomposition." + name, ctx.where(env[name])):
                s = X.W.base()
                ctx.equal("definition", "decomposition." + name, X.W.call(env[name], list(a), {}, s).term, want, ctx.where(env[name]))


# ------------------------------------------------------------------ C05
EIG = C.Cmp(calls={"numpy.sort"})


def cleaned(t, spec):
    """The required value, with or without the rounding of tiny eigenvalues to
    zero, as the code has it."""
    has = any(x.op in ("select", "ite") and any(y.op == "eigvals" for y in N.subterms(x)) for x in N.subterms(N.nf(t)))
    return spec("" if has else "plain_")


def spectral_split(ctx):
    X = Complex(ctx)
    B1, B2 = X.B1, X.B2
    st = X.st.copy()
    tol = sym("tolerance")
    shapes.REPS[tol] = "scalar"
    shapes.SHAPES[tol] = ()
    sp = lambda n, *a: ctx.spec("complex", n, *a)
    w = X.where("get_component_eigenpair")
    ops = {"gradient": sp("down", B1), "curl": sp("up", B2), "harmonic": sp("hodge", B1, B2)}
    kept = {}
    for comp, L in ops.items():
        kind = "zero_pairs" if comp == "harmonic" else "nonzero_pairs"
        with guarded(ctx, "split", comp, w):
            o = X.call("get_component_eigenpair", [], {"component": const(comp), "tolerance": tol}, st)
            ctx.equal("split", f"{comp} pairs: operator, threshold rule and tolerance", o.term, cleaned(o.term, lambda p: sp(p + kind, L, tol)), w, cmp=EIG)
            kept[comp] = o.term
        with guarded(ctx, "default-tolerance", comp, w):
            o = X.call("get_component_eigenpair", [], {"component": const(comp)}, st)
            o2 = X.call("get_component_eigenpair", [const(comp), const(1e-3)], {}, st)
            ctx.equal("default-tolerance", f"{comp}: omitted tolerance is 1e-3", o.term, o2.term, w)
    with guarded(ctx, "default-component", "get_component_eigenpair()", w):
        o = X.call("get_component_eigenpair", [], {"tolerance": tol}, st)
        ctx.equal("default-component", "no component means harmonic", o.term, kept["harmonic"], w)
    env = ctx.I.module("pytspl.decomposition.eigendecomposition") or {}
    Ls = sym("L")
    n = sym("n")
    shapes.SHAPES[Ls] = (n, n)
    shapes.REPS[Ls] = "dense"
    for fn, kind in (("get_gradient_eigenpair", "nonzero_pairs"), ("get_curl_eigenpair", "nonzero_pairs"), ("get_harmonic_eigenpair", "zero_pairs")):
        f = env.get(fn)
        if f is None:
            raise AnchorLost(fn)
        with guarded(ctx, "split", fn, ctx.where(f)):
            o = X.W.call(f, [X.W.parr(st, "L", (n, n)), tol], {}, st.copy())
            ctx.equal("split", f"{fn}(L, tolerance)", o.term, cleaned(o.term, lambda p: sp(p + kind, Ls, tol)), ctx.where(f), cmp=EIG)
            ctx.clean("argument-kept", f"{fn} leaves the matrix unchanged", o, ctx.where(f))
    f = env.get("get_eigendecomposition")
    if f is not None:
        with guarded(ctx, "pairs", "get_eigendecomposition", ctx.where(f)):
            o = X.W.call(f, [X.W.parr(st, "L", (n, n))], {}, st.copy())
            t = N.nf(o.term)
            ctx.equal("pairs", "get_eigendecomposition(L) gives vectors and values of L in matching order", t,
                      cleaned(t, lambda p: sp(p + "spectrum", Ls)), ctx.where(f), cmp=EIG)


# ------------------------------------------------------------------ C06
def hodge(ctx):
    X = Complex(ctx)
    B1, B2 = X.B1, X.B2
    st = X.st.copy()
    f = X.flow(st)
    F = sym("flow")
    sp = lambda n, *a: ctx.spec("complex", n, *a)
    exact = {"gradient": sp("gradient_flow", B1, F), "curl": sp("curl_flow", B2, F), "harmonic": sp("harmonic_flow", B1, B2, F)}
    w = X.where("get_component_flow")
    d = sym("digits")
    shapes.REPS[d] = "scalar"
    got = {}
    for comp, want in exact.items():
        with guarded(ctx, "projection", comp, w):
            o = X.call("get_component_flow", [f], {"component": const(comp), "round_fig": FALSE}, st)
            got[comp] = o.term
            ctx.equal("projection", f"{comp} part is the least-squares projection", o.term, want, w)
            ctx.clean("argument-kept", f"{comp}: the flow and the complex are unchanged", o, w)
        with guarded(ctx, "rounding", comp, w):
            o = X.call("get_component_flow", [f], {"component": const(comp), "round_fig": TRUE, "round_sig_fig": d}, st)
            ctx.equal("rounding", f"{comp}: rounding only rounds the exact part to the requested digits", o.term, sp("rounded", want, d), w)
        with guarded(ctx, "default-rounding", comp, w):
            o = X.call("get_component_flow", [f], {"component": const(comp)}, st)
            ctx.equal("default-rounding", f"{comp}: by default rounded to two digits", o.term, sp("rounded", want, const(2)), w)
    with guarded(ctx, "partition", "sum of the parts", w):
        if len(got) == 3:
            ctx.equal("partition", "gradient + curl + harmonic = flow", S.Add(*got.values()), F, w)
    with guarded(ctx, "default-component", "get_component_flow", w):
        o = X.call("get_component_flow", [f], {"round_fig": FALSE}, st)
        wantd = None
        ctx.require("default-component", "the default component is one of the three",
                    any(cmp0(o.term, t) == C.EQUAL for t in exact.values()) or None, w)
    env = ctx.I.module("pytspl.decomposition.hodge_decomposition") or {}
    s = X.W.base()
    ff = X.W.parr(s, "flow", (X.W.nE,))
    b1, b2 = X.W.parr(s, "B1", (X.W.nV, X.W.nE)), X.W.parr(s, "B2", (X.W.nE, X.W.nT))
    for fn, a, comp in (("get_gradient_flow", {"B1": b1}, "gradient"), ("get_curl_flow", {"B2": b2}, "curl"),
                        ("get_harmonic_flow", {"B1": b1, "B2": b2}, "harmonic")):
        g = env.get(fn)
        if g is None:
            raise AnchorLost(fn)
        with guarded(ctx, "projection", fn, ctx.where(g)):
            o = X.W.call(g, [], {**a, "flow": ff, "round_fig": FALSE}, s.copy())
            ctx.equal("projection", fn, o.term, exact[comp], ctx.where(g))
            o = X.W.call(g, [], {**a, "flow": ff, "round_fig": TRUE, "round_sig_fig": d}, s.copy())
            ctx.equal("rounding", fn, o.term, sp("rounded", exact[comp], d), ctx.where(g))
            o = X.W.call(g, [], {**a, "flow": ff}, s.copy())
            ctx.equal("default-rounding", f"{fn}: by default rounded to two digits", o.term, sp("rounded", exact[comp], const(2)), ctx.where(g))
            ctx.clean("argument-kept", fn, o, ctx.where(g))
