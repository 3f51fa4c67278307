"""C07: choices by name."""
from __future__ import annotations

import ast
import re

from .filters import Filters
from .util import *

COMP = ("gradient", "curl", "harmonic")
MATRIX = ("L1", "L1L", "L1U")
TREND = ("divergence", "curl")
# (module, class, method) -> {parameter: accepted names}
FILTER_ENTRIES = {
    ("ls_filter_design", "LSFilterDesign"): {
        "get_true_signal": {"component": COMP}, "get_p_matrix": {"p_choice": MATRIX}, "get_component_coefficients": {"component": COMP},
        "subcomponent_extraction_type_one": {"component": COMP}, "subcomponent_extraction_type_two": {"component": ("gradient", "curl")}},
    ("grid_based_filter_design", "GridBasedFilterDesign"): {
        "denoise": {"p_choice": MATRIX}, "subcomponent_extraction": {"p_choice": MATRIX, "component": COMP}},
    ("edge_flow_denoising", "EdgeFlowDenoising"): {"denoise": {"p_choice": MATRIX}, "plot_desired_frequency_response": {"p_choice": MATRIX}},
    ("chebyshev_filter_design", "ChebyshevFilterDesign"): {
        "get_alpha": {"p_choice": MATRIX}, "get_chebyshev_frequency_approx": {"p_choice": MATRIX},
        "apply": {"p_choice": MATRIX, "component": COMP}, "plot_chebyshev_series_approx": {"p_choice": MATRIX}},
    ("simplicial_trend_filter", "SimplicialTrendFilter"): {
        "get_shift_operator": {"component": TREND}, "denoising_l2_regularizer": {"component": TREND},
        "denoising_l1_regularizer": {"component": TREND}, "interpolation_l1_regularizer": {"component": TREND}},
}
FLOWS = {"f", "flow", "f_true", "noisy_flow"}
LISTS = {"mu_vals", "snr_db", "ratio", "mu"}


def literals(P, modules):
    """Every short word written as a string in these modules."""
    out = set()
    for m in P.modules.values():
        if not any(m.name.startswith("pytspl." + x) for x in modules):
            continue
        docs = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and re.fullmatch(r"[\w\-]{0,24}", n.value):
                out.add(n.value)
    return out


def spoilt(names):
    """Strings close to a documented name that are not one."""
    out = set()
    for n in names:
        out |= {n.upper(), n.capitalize(), n + " ", " " + n, n[:-1], n + "s", n[:4], n.lower(), n.replace("_", "-"), n + "_"}
    return {x for x in out if x not in names}


def first_of(o):
    return sorted({e.exc.split(":")[0] for e in o.exits})


def holds_result(v):
    """Anything but None and empty containers is written."""
    if v is NONE:
        return False
    if v.op in ("dict", "list", "tuple"):
        return any(holds_result(x.args[1] if x.op == "kv" else x) for x in v.args)
    return True


class Table:
    def __init__(self, ctx):
        self.ctx = ctx

    def entry(self, rule, label, where, call, names, wrong, record=None):
        """call(value) -> Outcome.  Accepts the names, refuses the rest."""
        ctx = self.ctx
        for n in names:
            with guarded(ctx, rule, f"{label}: '{n}' is accepted", where):
                o = call(const(n))
                ctx.ob(rule, f"{label}: '{n}' is accepted", BAD if o.dead else OK, where, f"ends in {first_of(o)}")
        for v, text in [(uniq("any other name"), "any other name")] + [(const(w), f"'{w}'") for w in sorted(wrong)]:
            what = f"{label}: {text} is refused"
            with guarded(ctx, rule, what, where):
                o = call(v)
                ctx.raises(rule, what, o, "ValueError", where)
                if text == "any other name":
                    ctx.clean(rule, f"{label}: a refused call changes nothing", o, where, roots=("param", "state", "default", "global"),
                              allow=record[1:] if record else ())
                    if record:
                        record[0](o)


def rejected(ctx):
    X = Filters(ctx)
    W = X.W
    T_ = Table(ctx)
    words = literals(W.P, ("simplicial_complex", "decomposition", "filters")) if ctx.thorough else set(COMP + MATRIX + TREND + ("all", "distance"))

    def wrong(names):
        return (spoilt(names) | words | {""}) - set(names)

    # the complex
    flow = X.flow(X.st)
    for m, args in (("get_component_flow", {"flow": flow}), ("get_component_eigenpair", {})):
        T_.entry("component", m, X.where(m), lambda v, m=m, args=args: X.call(m, [], {**args, "component": v}), COMP, wrong(COMP))

    # the filters
    for (mod, cname), table in FILTER_ENTRIES.items():
        cls, flt, st0 = X.make(mod, cname)
        W.mark_state(st0, flt, "filter")
        for meth, choices in table.items():
            fn, _ = cls.lookup(meth)
            if fn is None:
                raise AnchorLost(f"{cname}.{meth}")
            while not isinstance(fn, FuncV):
                fn = fn.fn if isinstance(fn, StaticV) else fn.fget
            a = fn.node.args
            ps = [p.arg for p in a.posonlyargs + a.args][1:] + [p.arg for p in a.kwonlyargs]
            opt = set(ps[len(ps) - len(a.kwonlyargs) - len(a.defaults):len(ps) - len(a.kwonlyargs)]) if a.defaults else set()
            where = ctx.method_where(cls, meth)
            for pname, names in choices.items():
                if pname not in ps:
                    ctx.ob("filter", f"{cname}.{meth}: {pname}", UNDECIDED, where, "the parameter is not named in the signature")
                    continue

                def call(v, ps=ps, opt=opt, pname=pname, choices=choices, meth=meth, flt=flt, st0=st0):
                    st = st0.copy()
                    kw = {}
                    for p in ps:
                        if p == pname:
                            kw[p] = v
                        elif p in choices:
                            kw[p] = const(choices[p][0])
                        elif p in opt:
                            continue
                        elif p in FLOWS:
                            kw[p] = X.flow(st)
                        elif p in LISTS:
                            kw[p] = W.parr(st, p, (S.Len(sym(p)),))
                        else:
                            kw[p] = X.scalar(p)
                    if meth == "plot_desired_frequency_response":
                        past = W.parr(st, "past", (sym("runs"), W.nE))
                        W.I.setitem_dict = None
                        h = W.I.getattr(flt, "history", st)
                        c = st.heap[h.cid]
                        st.heap[h.cid] = c.rep(items={**c.items, const("frequency_responses"): past})
                    return W.meth(flt, meth, [], kw, st)

                def kept(o, flt=flt, label=f"{cname}.{meth}({pname})", where=where, meth=meth):
                    if meth == "plot_desired_frequency_response":
                        return
                    what = f"{label}: a refused call records no result"
                    full = set()
                    for e in o.exits:
                        if e.state is not None and flt.cid in e.state.heap:
                            full |= {str(k) for k, t in X.hist(flt, e.state).items() if holds_result(N.nf(t))}
                    ctx.ob("filter", what, BAD if full else OK, where, f"recorded: {sorted(full)}")

                mine = lambda e: e.root[0] == "state" and str(e.root[1]).startswith("filter")
                T_.entry("filter", f"{cname}.{meth}({pname})", where, call, names, wrong(names), (kept, mine))

    # triangle condition
    from .builder import Builder
    B = Builder(ctx)
    w = ctx.method_where(B.cls, "to_simplicial_complex")
    cond = ("all", "distance")
    T_.entry("condition", "to_simplicial_complex", w, lambda v: B.build(condition=v), cond, wrong(cond))

    # kernels
    K = W.get("hogde_gp.kernel_serializer", "KernelSerializer")
    w = ctx.method_where(K, "serialize")
    st = W.base()
    ser = W.call(K, [], {}, st)
    kinds = ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian")

    def kernel(**kw):
        s = ser.state.copy()
        pairs = W.I.alloc(s, "list", items=[W.param(s, f"pair_{i}", "arr") for i in range(6)], origin=("param", "eigenpairs"))
        return W.meth(ser.value, "serialize", [], {"eigenpairs": pairs, **{"kernel_type": const("matern"), "data_name": const("forex"), **kw}}, s)
    kw_ = literals(W.P, ("hogde_gp",)) if ctx.thorough else {"laplacian_non_hc", "forex"}
    T_.entry("kernel", "serialize(kernel_type)", w, lambda v: kernel(kernel_type=v), kinds, (spoilt(kinds) | kw_ | {""}) - set(kinds))
    T_.entry("kernel", "serialize(data_name)", w, lambda v: kernel(data_name=v), ("forex",), (spoilt(("forex",)) | kw_ | {""}) - {"forex"})

    # datasets
    load = W.get("io.dataset_loader", "load_dataset")
    w = ctx.where(load)
    with guarded(ctx, "dataset", "load_dataset: any other name is refused", w):
        name = sym("dataset name")
        listed = W.call(W.get("io.dataset_loader", "list_datasets"), [], {}, W.base()).term
        o = W.call(load, [], {"dataset": name}, W.base())
        refused = [e for e in o.exits if e.exc.split(":")[0] == "ValueError" and not e.implicit]
        if not refused:
            ctx.ob("dataset", "load_dataset: a name that is not listed is refused", BAD, w, "no ValueError is raised")
        else:
            c = S.Or(*[S.And(*e.guard) if e.guard else TRUE for e in refused])
            ctx.equal("dataset", "load_dataset: a name that is not listed is refused", c, S.Not(S.In(name, listed)), w,
                      cmp=C.Cmp(calls={"os.listdir", "pkg_resources.resource_filename"}, mcalls={"lower", "upper", "strip", "casefold", "capitalize"}))
        ctx.clean("dataset", "load_dataset changes nothing", o, w)

    # eigenvector drawing goes through the same choice
    P = W.get("plot.plot", "SCPlot")
    for meth, args in (("draw_eigenvectors", {}), ("draw_hodge_decomposition", {"flow": flow})):
        w = ctx.method_where(P, meth)
        with guarded(ctx, "drawing", f"{meth}: any other component is refused", w):
            po = W.call(P, [X.sc], {}, X.st.copy())
            o = W.meth(po.value, meth, [], {**args, "component": uniq("any other name")}, po.state)
            ctx.raises("drawing", f"{meth}: any other component is refused", o, "ValueError", w)
