"""C08, C09, C25, C26, C35: mutation, aliasing and side effects."""
from __future__ import annotations

from .filters import FILTERS, Filters
from .util import *

PUBLIC = ("nodes", "edges", "triangles", "node_features", "edge_features", "B1", "B2")
# by design hand out the stored dictionaries / draw a random layout
STORED = {"get_node_features", "get_edge_features", "generate_coordinates"}
NUMERIC = {"incidence_matrix", "adjacency_matrix", "laplacian_matrix", "lower_laplacian_matrix", "upper_laplacian_matrix",
           "hodge_laplacian_matrix", "identity_matrix", "apply_lower_shifting", "apply_upper_shifting", "apply_k_step_shifting",
           "get_simplicial_embeddings", "get_component_eigenpair", "get_total_variance", "get_divergence", "get_curl",
           "get_component_flow", "edges_to_B1", "triangles_to_B2"}


def reach(st, v, out=None):
    """Cells reachable from a value (through attributes, items and views)."""
    out = set() if out is None else out
    todo = [v]
    while todo:
        v = todo.pop()
        if isinstance(v, Phi):
            todo += [v.a, v.b]
        elif isinstance(v, Ref) and v.cid not in out and v.cid in st.heap:
            out.add(v.cid)
            c = st.heap[v.cid]
            todo += [Ref(b) for b in c.base]
            todo += list((c.attrs or {}).values())
            if c.items is not None:
                todo += list(c.items.values() if isinstance(c.items, dict) else c.items)
        elif isinstance(v, T):
            for x in subterms(v):
                if x.op == "obj" and x.args[0] in st.heap:
                    todo.append(Ref(x.args[0]))
    return out


def mutable(c):
    return c.kind not in ("tuple", "str") or c.kind == "tuple" and False


def queries(X):
    """(label, is property, name, args builder) of every query of a complex."""
    comps = ("gradient", "curl", "harmonic")
    for n, v, f in public_methods(X.cls):
        if isinstance(v, PropV):
            yield n, n, None
            continue
        ps = params_of(f)
        variants = [{}]
        if "component" in ps:
            variants = [{"component": const(c)} for c in comps]
        elif "rank" in ps:
            variants = [{"rank": const(r)} for r in (0, 1, 2)]
        for kw in variants:
            label = n + (f"({list(kw.values())[0].args[0]})" if kw else "")
            yield label, n, kw
            a = f.node.args
            opt = [p.arg for p in a.args][len(a.args) - len(a.defaults):] if a.defaults else []
            extra = {p: const(False) if p == "round_fig" else sym("other " + p) for p in opt if p not in kw and p not in ("name",)}
            if extra:
                yield label + " with other options", n, {**kw, **extra}


def arguments(X, name, kw, st):
    """Fill in the required arguments."""
    W = X.W
    fn, _ = X.cls.lookup(name)
    fn = fn.fn if isinstance(fn, StaticV) else fn
    a = fn.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    ps = ps[1:] if "static" not in fn.flags else ps
    need = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
    out = dict(kw)
    for p in need:
        if p in out:
            continue
        if p == "flow":
            out[p] = X.flow(st)
        elif p == "edges":
            out[p] = W.plist(st, "other_edges")
        elif p in ("triangles", "simplex"):
            out[p] = W.plist(st, "other_" + p)
        elif p == "matrix":
            out[p] = W.parr(st, "matrix", (sym("rows"), sym("columns")))
        elif p == "num_nodes":
            out[p] = S.Len(sym("other_nodes"))
        else:
            s = sym(p)
            out[p] = s
    return out


# ------------------------------------------------------------------ C08
def complex_queries(ctx):
    X = Complex(ctx)
    W, I = X.W, X.W.I
    N.ELEMENT.update({sym("edges"): 2, sym("triangles"): 3, sym("other_edges"): 2, sym("other_triangles"): 3})
    Q = list(queries(X))

    def ask(name, kw, st):
        s = st.copy()
        s.facts = ()
        if kw is None:
            return W.prop(X.sc, name, s)
        return W.meth(X.sc, name, [], arguments(X, name, kw, s), s)

    fresh, dirty = {}, {}
    for label, name, kw in Q:
        w = X.where(name)
        with guarded(ctx, "pure", label, w):
            before = {p: I.tm(I.getattr(X.sc, p, X.st), X.st) for p in PUBLIC if p in X.st.heap[X.sc.cid].attrs}
            o = ask(name, kw, X.st)
            if o.dead:
                continue
            fresh[label] = o
            bad = [e for e in o.effects if e.root[0] in ("param", "default")]
            ctx.require("arguments", f"{label} leaves its arguments unchanged", not bad, f"{bad[0].loc[0]}:{bad[0].loc[1]}" if bad else w,
                        f"{bad[0].what} on {bad[0].root}" if bad else "")
            for p, t in before.items():
                t2 = I.tm(I.getattr(X.sc, p, o.state), o.state)
                if t2 is not t and N.nf(t2) is not N.nf(t):
                    ctx.equal("state", f"{label} leaves {p} of the complex unchanged", t2, t, w)
                    break
            else:
                ctx.ob("state", f"{label} leaves the data of the complex unchanged", OK, w)
            if [e for e in o.effects if e.root[0] in ("state", "global", "memo")] or set(o.state.globs) - set(X.st.globs) or o.effects:
                dirty[label] = o
            if name in NUMERIC:
                mine = reach(o.state, X.sc)
                held = set(mine)
                for g in o.state.globs.values():
                    if isinstance(g, (Ref, Phi)):
                        reach(o.state, g, held)
                got = {c for c in reach(o.state, o.value) if o.state.heap[c].kind != "tuple"}
                shared = {c for c in got if c in held or any(r[0] in ("state", "memo", "global", "default") for r, _ in I.roots(o.state, c))}
                what = ", ".join(sorted({fmt(o.state.heap[c].origin) if c not in mine else "an array kept by the complex" for c in shared}))
                ctx.require("fresh", f"the result of {label} belongs to the caller", not shared, w, f"the result shares its data with {what}")
    # a query that writes somewhere: every query asked after it must answer as before
    for l1, o1 in dirty.items():
        for label, name, kw in Q:
            if label not in fresh or name in STORED:
                continue
            w = X.where(name)
            with guarded(ctx, "repeat", f"{label} after {l1}", w):
                o = ask(name, kw, o1.state)
                if o.dead:
                    ctx.ob("repeat", f"{label} after {l1}", BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                else:
                    ctx.equal("repeat", f"{label} after {l1} answers as before", o.term, fresh[label].term, w)
    if not dirty:
        ctx.ob("repeat", f"no query writes anything: {len(fresh)} queries commute", OK if fresh else UNDECIDED, ctx.where(X.cls))
    ctx.notes.append(f"{len(fresh)} queries analysed, {len(dirty)} of them write to state of the complex")


def fmt(o):
    return " ".join(map(str, o))


# ------------------------------------------------------------------ C09
def ownership(ctx):
    W, I = ctx.W, ctx.W.I
    cls = W.get(SC_MOD, "SimplicialComplex")
    bcls = W.get("simplicial_complex.scbuilder", "SCBuilder")
    w = ctx.method_where(cls, "__init__")
    wb = ctx.method_where(bcls, "to_simplicial_complex")

    def data(st):
        """Small explicit containers of the caller."""
        p = lambda kind, items, name: I.alloc(st, kind, items=items, origin=("param", name))
        n = [const(i) for i in range(3)]
        e = [mk("tuple", n[0], n[1]), mk("tuple", n[1], n[2]), mk("tuple", n[0], n[2])]
        feats = lambda keys, name: p("dict", {k: p("dict", {const("distance"): sym(f"{name} value {i}"), const("deep"): p("list", [sym(f"{name} {i}")], "value of " + name)},
                                               "entry of " + name) for i, k in enumerate(keys)}, name)
        return [p("list", list(n), "nodes"), p("list", list(e), "edges"), p("list", [mk("tuple", *n)], "triangles"),
                feats(n, "node_features"), feats(e, "edge_features")]

    names = ("nodes", "edges", "triangles", "node_features", "edge_features")

    def owned(rule, what, st, v, where, roots=("param", "default", "global"), attrs=names):
        for a in attrs:
            got = reach(st, I.getattr(v, a, st))
            bad = sorted({fmt(r) for c in got for r, _ in I.roots(st, c) if r[0] in roots})
            ctx.require(rule, f"{what}: {a}", not bad, where, f"{a} holds an object of the caller: {', '.join(bad)}")

    def disjoint(rule, what, st, a, b, where):
        shared = [c for c in reach(st, a) & reach(st, b) if st.heap[c].kind not in ("tuple",)]
        names_ = sorted({k for k, v in (st.heap[a.cid].attrs or {}).items() if reach(st, v) & set(shared)})
        ctx.require(rule, what, not shared, where, f"both hold the same object in {', '.join(names_)}")

    with guarded(ctx, "inputs", "explicit inputs", w):
        st = W.base()
        o = W.call(cls, data(st), {}, st)
        owned("inputs", "a complex built from caller data owns it at every depth", o.state, o.value, w)
        ctx.clean("inputs", "building leaves the inputs unchanged", o, w)
    with guarded(ctx, "inputs", "symbolic inputs", w):
        o = W.raw_complex()
        owned("inputs", "a complex of any size owns its data", o.state, o.value, w)
        ctx.clean("inputs", "building (any size) leaves the inputs unchanged", o, w)
    with guarded(ctx, "defaults", "no arguments", w):
        st = W.base()
        o = W.call(cls, [], {}, st)
        if o.dead:
            ctx.ob("defaults", "a complex without arguments can be built", UNDECIDED, w, "")
        else:
            owned("defaults", "a complex built without arguments owns its data", o.state, o.value, w)
            o2 = W.call(cls, [], {}, o.state)
            disjoint("defaults", "two complexes built without arguments share nothing", o2.state, o.value, o2.value, w)
    with guarded(ctx, "separate", "same inputs twice", w):
        st = W.base()
        d = data(st)
        o = W.call(cls, d, {}, st)
        o2 = W.call(cls, d, {}, o.state)
        disjoint("separate", "two complexes built from the same data share nothing", o2.state, o.value, o2.value, w)

    # builder
    with guarded(ctx, "builder", "built complex", wb):
        for label, kw in (("", {}), (" with distance condition", {"condition": const("distance")}), (" with given triangles", None)):
            st = W.base()
            d = data(st)
            b = W.call(bcls, [d[0], d[1], d[3], d[4]], {}, st)
            k = {"triangles": d[2]} if kw is None else kw
            s = b.state
            W.mark_state(s, b.value, "builder")
            o = W.meth(b.value, "to_simplicial_complex", [], k, s)
            owned("builder", f"a built complex{label} owns its data", o.state, o.value, wb, roots=("param", "default", "global", "state", "memo"))
            ctx.clean("builder", f"building{label} leaves builder and inputs unchanged", o, wb)
            o2 = W.meth(b.value, "to_simplicial_complex", [], k, o.state)
            disjoint("builder", f"two complexes of one builder{label} share nothing", o2.state, o.value, o2.value, wb)
            disjoint("builder", f"a complex{label} shares nothing with its builder", o2.state, o.value, b.value, wb)
    wi = ctx.method_where(bcls, "__init__")
    with guarded(ctx, "defaults", "builder without features", wi):
        st = W.base()
        n, e = W.plist(st, "nodes"), W.plist(st, "edges")
        b1 = W.call(bcls, [n, e], {}, st)
        n2, e2 = W.plist(b1.state, "nodes2"), W.plist(b1.state, "edges2")
        b2 = W.call(bcls, [n2, e2], {}, b1.state)
        disjoint("defaults", "two builders without features share nothing", b2.state, b1.value, b2.value, wi)
        for a in ("node_features", "edge_features"):
            bad = [r for c in reach(b1.state, I.getattr(b1.value, a, b1.state)) for r, _ in I.roots(b1.state, c) if r[0] in ("default", "global")]
            ctx.require("defaults", f"omitted {a} of a builder are its own", not bad, wi, "the dictionary is the default argument, shared by every builder")
    # incidence matrices describe the stored lists
    with guarded(ctx, "consistent", "incidence matrices", w):
        o = W.raw_complex()
        t = {a: I.tm(I.getattr(o.value, a, o.state), o.state) for a in ("nodes", "edges", "triangles")}
        for a, t_ in t.items():
            ctx.equal("consistent", f"{a} stored are the {a} given", t_, sym(a), w)
