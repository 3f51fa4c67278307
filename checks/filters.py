"""Checks of the filters."""
from __future__ import annotations

from .util import *

COMPS = ("gradient", "curl", "harmonic")
PS = ("L1", "L1L", "L1U")


class Filters(Complex):
    """Filters over a constructed complex."""

    def __init__(self, ctx):
        super().__init__(ctx)
        sp = lambda n, *a: ctx.spec("complex", n, *a)
        self.L = {"L1": sp("hodge", self.B1, self.B2), "L1L": sp("down", self.B1), "L1U": sp("up", self.B2)}
        self.F = sym("flow")
        self.true = {"gradient": sp("gradient_flow", self.B1, self.F), "curl": sp("curl_flow", self.B2, self.F),
                     "harmonic": sp("harmonic_flow", self.B1, self.B2, self.F)}
        self.eig = self.W.get("decomposition.eigendecomposition", "get_eigendecomposition")
        self._sp = {}

    def cls_of(self, mod, name):
        return self.W.get("filters." + mod, name)

    def make(self, mod, name):
        """A fresh filter object on the complex: (class, value, state)."""
        cls = self.cls_of(mod, name)
        o = self.W.call(cls, [self.sc], {}, self.st.copy())
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost(f"{name} cannot be constructed")
        return cls, o.value, o.state

    def spectrum(self, L):
        """(U, w) of the package's own eigen-decomposition of L."""
        if L not in self._sp:
            t = N.nf(self.W.call(self.eig, [L], {}, self.W.base()).term)
            self._sp[L] = (S.Idx(t, ZERO), S.Idx(t, ONE))
        return self._sp[L]

    def pair(self, comp):
        t = N.nf(self.call("get_component_eigenpair", [], {"component": const(comp)}).term)
        return S.Idx(t, ZERO), S.Idx(t, ONE)

    def scalar(self, name):
        s = sym(name)
        shapes.REPS[s] = "scalar"
        shapes.SHAPES[s] = ()
        return s

    def size(self, name="L"):
        """A filter size: an integer of at least one."""
        return self.scalar(name)

    def hist(self, flt, st):
        """{name: term} of the recorded results."""
        v = self.W.I.getattr(flt, "history", st)
        return self.items(v, st)

    def items(self, v, st):
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.kind == "dict" and isinstance(c.items, dict):
                return Record({(k.args[0] if isinstance(k, T) and k.op == "const" else k): self.W.I.tm(x, st) for k, x in c.items.items()})
        t = N.nf(self.W.I.tm(v, st))
        out = Record()
        if t.op == "dict":
            for kv in t.args:
                if kv.op == "kv" and kv.args[0].op == "const":
                    out[kv.args[0].args[0]] = kv.args[1]
        return out


class Record(dict):
    """Recorded results by name; one that is not known stands for itself."""

    def __missing__(self, key):
        return mk("opaque", f"recorded {key}")

    def get(self, key, default=None):
        return self[key]


def hist_get(ctx, h, key, rule, construct, where):
    if key not in h:
        ctx.ob(rule, construct, BAD if h else UNDECIDED, where, f"no recorded result '{key}' (found {sorted(map(str, h))})" if h
               else "the record is not a known dictionary")
        return None
    return h[key]


def dict_of(t):
    t = N.nf(t)
    return {kv.args[0].args[0]: kv.args[1] for kv in t.args if kv.op == "kv"}


def recorded(ctx, rule, label, h, want, where, facts=(), cmp=None, wrong={}):
    """Every recorded result equals the reference."""
    for key, w in want.items():
        got = hist_get(ctx, h, key, rule, f"{label}: {key}", where)
        if got is not None:
            ctx.equal(rule, f"{label}: {key}", got, w, where, facts=facts, cmp=cmp, wrong=wrong.get(key, ()))


FCMP = lambda: C.Cmp(calls={"numpy.argsort", "numpy.unique", "numpy.linspace"})
# the stated convex problem and the noise are compared as expressions
RCMP = lambda: C.Cmp(calls={"cvxpy.Variable", "cvxpy.Problem", "cvxpy.Minimize", "cvxpy.solution", "numpy.random.randn", "numpy.random.rand", "numpy.random.choice"}, extra={"rnd"},
                     distinct={"numpy.random.randn", "numpy.random.rand", "numpy.random.laplace", "numpy.random.exponential", "numpy.random.poisson"})


# ------------------------------------------------------------------ C12
def learned(ctx):
    X = Filters(ctx)
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    L = X.size()
    pos = [mk("le", ONE, L)]
    base = X.cls_of("base_filter", "BaseFilter")

    def coeffs(comp, listed=False):
        (uh, eh), (uc, ec), (_, eg) = X.pair("harmonic"), X.pair("curl"), X.pair("gradient")
        return sp("coefficients", const(comp), X.L["L1"], uh, eh, uc, ec, eg, const(listed))

    # shared ingredients
    cls, flt, st0 = X.make("ls_filter_design", "LSFilterDesign")
    f0 = X.flow(st0)
    for comp in COMPS:
        w = ctx.method_where(base, "get_true_signal")
        with guarded(ctx, "true-signal", comp, w):
            o = W.meth(flt, "get_true_signal", [], {"f": f0, "component": const(comp)}, st0)
            ctx.equal("true-signal", f"the reference signal is the exact {comp} part", o.term, X.true[comp], w)
        w = ctx.method_where(base, "get_component_coefficients")
        with guarded(ctx, "mask", comp, w):
            o = W.meth(flt, "get_component_coefficients", [], {"component": const(comp)}, st0)
            ctx.equal("mask", f"desired response: one on the {comp} part, in spectral order", o.term, [coeffs(comp), coeffs(comp, True)], w, cmp=FCMP())
    w = ctx.method_where(base, "calculate_error_NRMSE")
    with guarded(ctx, "error", "calculate_error_NRMSE", w):
        a, b = W.parr(st0, "estimate", (W.nE,)), W.parr(st0, "truth", (W.nE,))
        o = W.meth(flt, "calculate_error_NRMSE", [a, b], {}, st0)
        ctx.equal("error", "NRMSE is |estimate - truth| / |truth|", o.term, sp("nrmse", sym("estimate"), sym("truth")), w)
    for pc in PS:
        w = ctx.method_where(base, "get_p_matrix")
        with guarded(ctx, "matrix", pc, w):
            ctx.equal("matrix", f"matrix choice {pc}", W.meth(flt, "get_p_matrix", [const(pc)], {}, st0).term, X.L[pc], w)

    # least squares, type one
    w = ctx.method_where(cls, "subcomponent_extraction_type_one")
    U1, w1 = X.spectrum(X.L["L1"])
    for comp in COMPS:
        with guarded(ctx, "type-one", comp, w):
            o = W.meth(flt, "subcomponent_extraction_type_one", [f0, const(comp), L], {}, st0)
            h = X.hist(flt, o.state)
            alpha = W.meth(flt, "get_component_coefficients", [], {"component": const(comp)}, st0).term
            want = dict_of(sp("learned", X.F, X.true[comp], X.L["L1"], U1, w1, alpha, L))
            recorded(ctx, "type-one", f"least squares on the Hodge Laplacian, {comp}", h, want, w, pos, FCMP())
    # least squares, type two
    tol = X.scalar("tolerance")
    w = ctx.method_where(cls, "subcomponent_extraction_type_two")
    for comp, pc in (("gradient", "L1L"), ("curl", "L1U")):
        with guarded(ctx, "type-two", comp, w):
            o = W.meth(flt, "subcomponent_extraction_type_two", [f0, const(comp), L], {"tolerance": tol}, st0)
            h = X.hist(flt, o.state)
            U, ev = X.spectrum(X.L[pc])
            x = sp("distinct", ev, tol)
            want = dict_of(sp("learned", X.F, X.true[comp], X.L[pc], U, x, sp("above_zero", x), L))
            recorded(ctx, "type-two", f"least squares on {pc}, {comp}", h, want, w, pos, FCMP())
            o1 = W.meth(flt, "subcomponent_extraction_type_two", [f0, const(comp), L], {}, st0)
            o2 = W.meth(flt, "subcomponent_extraction_type_two", [f0, const(comp), L], {"tolerance": const(1e-6)}, st0)
            h1, h2 = X.hist(flt, o1.state), X.hist(flt, o2.state)
            ctx.equal("default", f"{comp}: omitted tolerance is 1e-6", h1.get("filter"), h2.get("filter"), w, facts=pos, cmp=FCMP())

    # grid based
    cls, flt, st0 = X.make("grid_based_filter_design", "GridBasedFilterDesign")
    f0 = X.flow(st0)
    ft = W.parr(st0, "f_true", (W.nE,))
    mu, cut, steep, ns = (X.scalar(n) for n in ("mu", "cut_off_frequency", "steep", "num_of_samples"))
    w = ctx.method_where(cls, "denoise")
    for pc in PS:
        P = X.L[pc]
        U, _ = X.spectrum(P)
        with guarded(ctx, "grid-denoise", pc, w):
            o = W.meth(flt, "denoise", [], {"f": f0, "f_true": ft, "p_choice": const(pc), "L": L, "mu": mu}, st0)
            x = sp("grid", P, W.nE, const(50))
            want = dict_of(sp("learned", X.F, sym("f_true"), P, U, x, sp("low_pass", x, mu), L))
            recorded(ctx, "grid-denoise", f"grid-based denoising on {pc}", X.hist(flt, o.state), want, w, pos, FCMP())
    w = ctx.method_where(cls, "subcomponent_extraction")
    for pc in PS:
        P = X.L[pc]
        U, _ = X.spectrum(P)
        for comp in COMPS:
            with guarded(ctx, "grid-extract", f"{comp} on {pc}", w):
                o = W.meth(flt, "subcomponent_extraction", [], {"f": f0, "component": const(comp), "p_choice": const(pc), "L": L,
                           "num_of_samples": ns, "mu": mu, "cut_off_frequency": cut, "steep": steep}, st0)
                x = sp("grid", P, ns, const(50))
                want = dict_of(sp("learned", X.F, X.true[comp], P, U, x, sp("logistic", x, cut, steep), L))
                recorded(ctx, "grid-extract", f"grid-based extraction of {comp} on {pc}", X.hist(flt, o.state), want, w, pos, FCMP())
    with guarded(ctx, "default", "subcomponent_extraction", w):
        kw = {"f": f0, "component": const("gradient"), "p_choice": const("L1L"), "L": L}
        o1 = W.meth(flt, "subcomponent_extraction", [], kw, st0)
        o2 = W.meth(flt, "subcomponent_extraction", [], {**kw, "num_of_samples": const(10), "cut_off_frequency": const(0.01),
                                                         "steep": const(100)}, st0)
        ctx.equal("default", "documented defaults: 10 samples, cut-off 0.01, steepness 100", X.hist(flt, o1.state).get("filter"),
                  X.hist(flt, o2.state).get("filter"), w, facts=pos, cmp=FCMP())
    w = ctx.method_where(cls, "denoise")
    with guarded(ctx, "default", "denoise", w):
        kw = {"f": f0, "f_true": ft, "p_choice": const("L1L"), "L": L}
        o1 = W.meth(flt, "denoise", [], kw, st0)
        o2 = W.meth(flt, "denoise", [], {**kw, "mu": const(0.5)}, st0)
        ctx.equal("default", "documented default of mu is 0.5", X.hist(flt, o1.state).get("filter"),
                  X.hist(flt, o2.state).get("filter"), w, facts=pos, cmp=FCMP())


# ------------------------------------------------------------------ C13
def denoise(ctx):
    X = Filters(ctx)
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    cls, flt, st0 = X.make("edge_flow_denoising", "EdgeFlowDenoising")
    f0 = X.flow(st0)
    ft = W.parr(st0, "f_true", (W.nE,))
    k = X.size("number_of_parameters")
    mus = W.parr(st0, "mu_vals", (k,))
    w = ctx.method_where(cls, "denoise")
    some = [mk("le", ONE, k)]
    for pc in PS:
        P = X.L[pc]
        U, eig = X.spectrum(P)
        with guarded(ctx, "low-pass", pc, w):
            o = W.meth(flt, "denoise", [], {"f": f0, "f_true": ft, "p_choice": const(pc), "mu_vals": mus}, st0)
            want = dict_of(sp("denoised", X.F, sym("f_true"), P, U, sym("mu_vals")))
            # or read off the eigenvalues, which the package sets to zero below rounding
            want["frequency_responses"] = [want["frequency_responses"], sp("response_at", eig, sym("mu_vals"))]
            recorded(ctx, "low-pass", f"denoising with {pc}", X.hist(flt, o.state), want, w, some, FCMP())
            ctx.clean("argument-kept", f"{pc}: flow, true flow, parameters and complex unchanged", o, w,
                      allow=[lambda e: e.root == ("state", "filter")])
        with guarded(ctx, "default", pc, w):
            a = W.meth(flt, "denoise", [], {"f": f0, "f_true": ft, "p_choice": const(pc)}, st0)
            h = X.hist(flt, a.state)
            want = dict_of(sp("denoised", X.F, sym("f_true"), P, U, mk("list", const(0.5))))
            want["frequency_responses"] = [want["frequency_responses"], sp("response_at", eig, mk("list", const(0.5)))]
            recorded(ctx, "default", f"default parameter 0.5 with {pc}", h, want, w, (), FCMP())


# ------------------------------------------------------------------ C14
GENERAL = (("ls_filter_design", "LSFilterDesign", "subcomponent_extraction_type_two", True),
           ("grid_based_filter_design", "GridBasedFilterDesign", "subcomponent_extraction", False))


def general(ctx):
    X = Filters(ctx)
    W = X.W
    l1, l2, tol = X.size("L1"), X.size("L2"), X.scalar("tolerance")
    nat = [mk("le", ZERO, l1), mk("le", ZERO, l2)]
    for mod, name, part, hastol in GENERAL:
        cls, flt, st0 = X.make(mod, name)
        f0 = X.flow(st0)
        w = ctx.method_where(cls, "general_filter")
        ref = {}
        for comp, pc, size in (("gradient", "L1L", l1), ("curl", "L1U", l2)):
            with guarded(ctx, "parts", f"{name} {comp}", w):
                kw = {"f": f0, "component": const(comp), "L": size}
                kw.update({"tolerance": tol} if hastol else {"p_choice": const(pc)})
                o = W.meth(flt, part, [], kw, st0)
                ref[comp] = X.hist(flt, o.state)
        kw = {"f": f0, "L1": l1, "L2": l2}
        if hastol:
            kw["tolerance"] = tol
        with guarded(ctx, "parts", name, w):
            o = W.meth(flt, "general_filter", [], kw, st0)
            t = N.nf(o.term)
            if t.op != "tuple" or len(t.args) != 3:
                ctx.ob("parts", f"{name}: three parts are returned", UNDECIDED, w, C.short(t))
                continue
            h, c, g = (S.Idx(t, const(i)) for i in range(3))
            ctx.equal("sum", f"{name}: harmonic + curl + gradient = flow", S.Add(h, c, g), X.F, w, facts=nat)
            parts = [ref[k]["f_estimated"] if k in ref and "f_estimated" in ref[k] else None for k in ("gradient", "curl")]
            if None not in parts:
                times = lambda k, x: S.Mul(const(k), x)
                ctx.equal("sum", f"{name}: harmonic + curl + gradient = flow when both parts are extracted", S.Add(h, c, g), X.F, w,
                          facts=nat + [mk("le", ONE, l1), mk("le", ONE, l2)],
                          wrong=[(f"the sum is the flow + {i} gradient estimates + {j} curl estimates", S.Add(X.F, times(i, parts[0]), times(j, parts[1])))
                                 for i in (-1, 0, 1, 2) for j in (-1, 0, 1, 2) if i or j])
            for comp, got, size in (("gradient", g, l1), ("curl", c, l2)):
                used = [mk("le", ONE, size)]
                ctx.equal("parts", f"{name}: {comp} estimate is that of its own extraction", got, ref[comp]["f_estimated"], w, facts=used + nat, cmp=FCMP())
                ctx.equal("skipped", f"{name}: {comp} estimate is zero for size zero", got, [ZERO, mk("zeros", W.nE)], w, facts=[mk("eq", size, ZERO)] + nat)
            kept = X.hist(flt, o.state)
            for key, comp, size in (("L1", "gradient", l1), ("L2", "curl", l2)):
                if key not in kept:
                    ctx.ob("record", f"{name}: record of the {comp} extraction under {key}", BAD if kept else UNDECIDED, w, f"found {sorted(map(str, kept))}")
                    continue
                used = [mk("le", ONE, l1), mk("le", ONE, l2)]
                for field in ("filter", "f_estimated", "frequency_responses", "extracted_component_error"):
                    ctx.equal("record", f"{name}: {key} keeps the {field} of the {comp} extraction",
                              S.Idx(kept[key], const(field)), ref[comp][field], w, facts=used, cmp=FCMP())
                ctx.equal("skipped", f"{name}: no {key} record for size zero", kept[key], NONE, w, facts=[mk("eq", size, ZERO)] + nat)
            ctx.clean("argument-kept", f"{name}: flow and complex unchanged", o, w)
        if hastol:
            with guarded(ctx, "default", name, w):
                a = W.meth(flt, "general_filter", [], {"f": f0, "L1": l1, "L2": l2}, st0)
                b = W.meth(flt, "general_filter", [f0, l1, l2], {"tolerance": const(1e-3)}, st0)
                ctx.equal("default", f"{name}: omitted tolerance is 1e-3", a.term, b.term, w, facts=nat, cmp=FCMP())


# ------------------------------------------------------------------ C15
FILTERS = (("ls_filter_design", "LSFilterDesign"), ("grid_based_filter_design", "GridBasedFilterDesign"),
           ("edge_flow_denoising", "EdgeFlowDenoising"), ("chebyshev_filter_design", "ChebyshevFilterDesign"),
           ("simplicial_trend_filter", "SimplicialTrendFilter"))


def runs_of(X, name, st, tag):
    """{run: (method, keyword arguments)} of a filter class, with inputs named by tag."""
    W = X.W
    f = W.parr(st, "flow" + tag, (W.nE,))
    ft = W.parr(st, "f_true" + tag, (W.nE,))
    L = X.size("L" + tag)
    L2 = X.size("M" + tag)
    mu = X.scalar("mu" + tag)
    n = X.size("runs" + tag)
    lev = W.parr(st, "levels" + tag, (X.size("number_of_levels" + tag),))
    S_ = lambda c: const(c)
    return {
        "LSFilterDesign": {
            "type_one": ("subcomponent_extraction_type_one", {"f": f, "component": S_("gradient"), "L": L}),
            "type_two": ("subcomponent_extraction_type_two", {"f": f, "component": S_("curl"), "L": L}),
            "general": ("general_filter", {"f": f, "L1": L, "L2": L2})},
        "GridBasedFilterDesign": {
            "denoise": ("denoise", {"f": f, "f_true": ft, "p_choice": S_("L1L"), "L": L, "mu": mu}),
            "extract": ("subcomponent_extraction", {"f": f, "component": S_("curl"), "p_choice": S_("L1U"), "L": L}),
            "general": ("general_filter", {"f": f, "L1": L, "L2": L2})},
        "EdgeFlowDenoising": {"denoise": ("denoise", {"f": f, "f_true": ft, "p_choice": S_("L1"), "mu_vals": lev})},
        "ChebyshevFilterDesign": {"apply": ("apply", {"f": f, "L": L})},
        "SimplicialTrendFilter": {
            "l2": ("denoising_l2_regularizer", {"flow": f, "component": S_("divergence"), "num_realizations": n, "snr_db": lev, "mu": mu}),
            "l1": ("denoising_l1_regularizer", {"flow": f, "component": S_("curl"), "num_realizations": n, "snr_db": lev}),
            "interpolation": ("interpolation_l1_regularizer", {"flow": f, "component": S_("divergence"), "num_realizations": n, "ratio": lev})},
    }[name]


WRONG = {"subcomponent_extraction_type_one": "component", "subcomponent_extraction_type_two": "component",
         "subcomponent_extraction": "p_choice", "denoise": "p_choice", "apply": "p_choice",
         "denoising_l2_regularizer": "component", "denoising_l1_regularizer": "component",
         "interpolation_l1_regularizer": "component"}


def history(ctx):
    X = Filters(ctx)
    W = X.W
    cmp = FCMP()
    for mod, name in FILTERS:
        cls, flt, st0 = X.make(mod, name)
        where = ctx.where(cls)
        with guarded(ctx, "initial", name, where):
            h = X.hist(flt, st0)
            left = sorted(k for k, v in h.items() if v is not NONE)
            ctx.require("initial", f"{name}: a new filter has no results", None if not h else not left, where, f"set: {left}")
        # another object of the same class
        with guarded(ctx, "shared", name, where):
            o = W.call(cls, [X.sc], {}, st0.copy())
            two, st2 = o.value, o.state
            a, b = W.I.getattr(flt, "history", st2), W.I.getattr(two, "history", st2)
            same = isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid
            ctx.require("shared", f"{name}: two objects keep separate records", not same if isinstance(a, Ref) and isinstance(b, Ref) else None, where,
                        "both objects hold the same dictionary")
            for run, (m, kw) in runs_of(X, name, st2, "_1").items():
                r = W.meth(flt, m, [], kw, st2)
                h = X.hist(two, r.state)
                left = sorted(k for k, v in h.items() if v is not NONE)
                ctx.require("shared", f"{name}.{m}: the record of another object is untouched", None if not h else not left,
                            ctx.method_where(cls, m), f"set on the other object: {left}")
        s = st0.copy()
        first = runs_of(X, name, s, "_1")
        second = runs_of(X, name, s, "_2")
        earlier = {}
        for ra, (ma, ka) in first.items():
            with guarded(ctx, "history", f"{name}: {ra}", ctx.method_where(cls, ma)):
                earlier[ra] = W.meth(flt, ma, [], ka, s)
        for rb, (mb, kb) in second.items():
            w = ctx.method_where(cls, mb)
            with guarded(ctx, "history", f"{name}: {rb}", w):
                ref = X.hist(flt, W.meth(flt, mb, [], kb, s).state)
                if not ref:
                    ctx.ob("history", f"{name}: {rb}", UNDECIDED, w, "the record is not a known dictionary")
                    continue
                if mb != "general_filter":
                    missing = sorted(str(k) for k, v in ref.items() if N.nf(v) is NONE and not (name == "SimplicialTrendFilter" and k == "filter"))
                    ctx.require("recorded", f"{name}: {rb} records every result", not missing, w, f"still empty after the run: {missing}")
                for ra, oa in earlier.items():
                    got = X.hist(flt, W.meth(flt, mb, [], kb, oa.state).state)
                    lab = f"{name}: {rb} after {ra}"
                    if set(got) != set(ref):
                        extra = sorted(set(got) ^ set(ref))
                        ctx.ob("history", lab + ": same entries as a first run", BAD if got else UNDECIDED, w, f"differs in {extra}")
                        continue
                    for key in ref:
                        g = N.nf(got[key])
                        old = [x for x in subterms(g) if x.op == "sym" and str(x.args[0]).endswith("_1")]
                        if old and cmp(g, ref[key]) != C.EQUAL:
                            ctx.ob("history", f"{lab}: {key}", BAD, w, f"the record depends on {old[0]} of the earlier run: {C.short(g)}")
                        else:
                            ctx.equal("history", f"{lab}: {key}", g, ref[key], w, cmp=cmp)
        # a run that fails
        for rb, (mb, kb) in second.items():
            if mb not in WRONG:
                continue
            w = ctx.method_where(cls, mb)
            for ra, oa in earlier.items():
                with guarded(ctx, "failed-run", f"{name}: {rb} after {ra}", w):
                    before = X.hist(flt, oa.state)
                    o = W.meth(flt, mb, [], {**kb, WRONG[mb]: uniq("wrong")}, oa.state)
                    if not o.dead:
                        continue                      # rejection itself is C07
                    after = X.hist(flt, o.state)
                    kept = set(after) == set(before) and all(N.nf(after[k]) is N.nf(before[k]) for k in after)
                    none = all(v is NONE for v in after.values())
                    ctx.require("failed-run", f"{name}: rejected {rb} after {ra} leaves the earlier record or none", True if kept or none else
                                (False if len(o.exits) == 1 else None), w, f"recorded: {sorted(k for k, v in after.items() if v is not NONE)}")
    # plots of results before any run
    for mod, name, m, kw in (("edge_flow_denoising", "EdgeFlowDenoising", "plot_desired_frequency_response", {"p_choice": const("L1")}),
                             ("chebyshev_filter_design", "ChebyshevFilterDesign", "plot_frequency_response_approx", {"component": const("gradient")})):
        cls, flt, st0 = X.make(mod, name)
        w = ctx.method_where(cls, m)
        with guarded(ctx, "plot-before-run", f"{name}.{m}", w):
            if name.startswith("Cheb"):
                kw = {"flow": X.flow(st0), **kw}
            ctx.raises("plot-before-run", f"{name}.{m} before any run", W.meth(flt, m, [], kw, st0), "ValueError", w)


# ------------------------------------------------------------------ C16
def trend_operators(ctx):
    X = Filters(ctx)
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    cls, flt, st0 = X.make("simplicial_trend_filter", "SimplicialTrendFilter")
    w = ctx.method_where(cls, "get_shift_operator")
    B1, B2t = X.B1, mk("tr", X.B2)
    k = X.scalar("order")
    N.INTS.add(k) if hasattr(N, "INTS") else None
    power = lambda A, e: mk("matpow", A, e)
    top = 9 if ctx.thorough else 6
    for comp, first, P in (("divergence", B1, X.L["L1L"]), ("curl", B2t, X.L["L1U"])):
        for order in range(top + 1):
            with guarded(ctx, "operator", f"{comp} {order}", w):
                o = W.meth(flt, "get_shift_operator", [const(comp), const(order)], {}, st0)
                want = first if order == 0 else (mk("matmul", first, power(P, const(order // 2))) if order % 2 == 0
                                                 else power(P, const((order + 1) // 2)))
                ctx.equal("operator", f"{comp}: order {order}", o.term, want, w)
                ctx.clean("argument-kept", f"{comp}, order {order}: the complex is unchanged", o, w)
        with guarded(ctx, "operator", f"{comp} any order", w):
            o = W.meth(flt, "get_shift_operator", [], {"component": const(comp), "order": k}, st0)
            even = mk("eq", mk("mod", k, const(2)), ZERO)
            half, up = mk("floordiv", k, const(2)), mk("floordiv", S.Add(k, ONE), const(2))
            gen = S.Ite(mk("eq", k, ZERO), first, S.Ite(even, mk("matmul", first, power(P, half)), power(P, up)))
            ctx.equal("operator", f"{comp}: every order of at least zero", o.term, gen, w, facts=[mk("le", ZERO, k)],
                      cmp=C.Cmp(forbid={"floordiv", "mod"}))
            neg = [e for e in o.exits if e.exc.split(":")[0] == "ValueError" and any(cond_is(g, mk("lt", k, ZERO)) for g in e.guard)]
            if not neg:
                o2 = W.meth(flt, "get_shift_operator", [const(comp), const(-1)], {}, st0)
                ctx.raises("negative", f"{comp}: a negative order is rejected", o2, "ValueError", w)
            else:
                ctx.require("negative", f"{comp}: a negative order is rejected", True, w)
    w = ctx.method_where(cls, "denoising_l2_regularizer")
    f0 = X.flow(st0)
    lev, n, mu = W.parr(st0, "levels", (X.size("number_of_levels"),)), X.size("runs"), X.scalar("mu")
    some = [mk("le", ONE, sym("number_of_levels")), mk("le", ONE, n)]
    for comp, P in (("divergence", X.L["L1L"]), ("curl", X.L["L1U"])):
        with guarded(ctx, "quadratic", comp, w):
            kw = {"flow": f0, "component": const(comp), "num_realizations": n, "snr_db": lev}
            o = W.meth(flt, "denoising_l2_regularizer", [], {**kw, "mu": mu}, st0)
            h = X.hist(flt, o.state)
            recorded(ctx, "quadratic", f"quadratic denoising, {comp}", h, {"filter": sp("quadratic", P, W.nE, mu)}, w, some, FCMP())
            o = W.meth(flt, "denoising_l2_regularizer", [], kw, st0)
            recorded(ctx, "default", f"omitted weight is 0.5, {comp}", X.hist(flt, o.state), {"filter": sp("quadratic", P, W.nE, const(0.5))}, w, some, FCMP())


def cond_is(g, c):
    return N.nf(g) is N.nf(c)


# ------------------------------------------------------------------ C17
def trend_runs(ctx):
    X = Filters(ctx)
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    cls, flt, st0 = X.make("simplicial_trend_filter", "SimplicialTrendFilter")
    f0 = X.flow(st0)
    levels = X.size("number_of_levels")
    lev, n, mu = W.parr(st0, "levels", (levels,)), X.size("runs"), X.scalar("weight")
    some = [mk("le", ONE, levels), mk("le", ONE, n)]
    LV = sym("levels")
    ops = {"divergence": (X.B1, X.L["L1L"]), "curl": (mk("tr", X.B2), X.L["L1U"])}
    w = ctx.method_where(cls, "get_power_noise")
    with guarded(ctx, "noise", "get_power_noise", w):
        o = W.meth(flt, "get_power_noise", [], {"flow": f0, "snr_db": lev}, st0)
        ctx.equal("noise", "noise power |f| / snr / edges with snr = 10^(dB/10)", o.term, sp("noise_power", X.F, LV, W.nE), w)
        ctx.clean("argument-kept", "get_power_noise", o, w)
    runs = [("denoising_l2_regularizer", "", lambda D, P: sp("trend_l2", X.F, P, W.nE, n, LV, mu), {"snr_db": lev, "mu": mu})]
    powers = (lambda D, P: D, lambda D, P: P, lambda D, P: mk("matmul", D, P), lambda D, P: mk("matmul", P, P))
    for order, R in enumerate(powers):
        runs += [("denoising_l1_regularizer", f" of order {order}", lambda D, P, R=R: sp("trend_l1", X.F, R(D, P), W.nE, n, LV, mu),
                  {"snr_db": lev, "order": const(order), "regularization": mu}),
                 ("interpolation_l1_regularizer", f" of order {order}", lambda D, P, R=R: sp("trend_interpolation", X.F, R(D, P), W.nE, n, LV, mu),
                  {"ratio": lev, "order": const(order), "regularization": mu})]
    for name, variant, ref, kw in runs:
        m = name
        w = ctx.method_where(cls, m)
        for comp, (D, P) in ops.items():
            with guarded(ctx, "runs", f"{m}{variant} {comp}", w):
                o = W.meth(flt, m, [], {"flow": f0, "component": const(comp), "num_realizations": n, **kw}, st0)
                h = X.hist(flt, o.state)
                got = hist_get(ctx, h, "frequency_responses", "runs", f"{m}{variant}, {comp}: estimates", w)
                if got is None:
                    continue
                ctx.equal("runs", f"{m}{variant}, {comp}: one estimate per level and realisation", got, ref(D, P), w, facts=some, cmp=RCMP())
                # the summaries are those of the recorded estimates
                want = dict_of(sp("summary", X.F, D, N.nf(got), levels, n))
                recorded(ctx, "means", f"{m}{variant}, {comp}", h, want, w, some, RCMP())
                ctx.clean("argument-kept", f"{m}{variant}, {comp}: flow, levels and complex unchanged", o, w)
    for m, kw in (("denoising_l1_regularizer", {"snr_db": lev}), ("interpolation_l1_regularizer", {"ratio": lev})):
        w = ctx.method_where(cls, m)
        with guarded(ctx, "default", m, w):
            base = {"flow": f0, "component": const("curl"), "num_realizations": n, **kw}
            a = X.hist(flt, W.meth(flt, m, [], base, st0).state)
            b = X.hist(flt, W.meth(flt, m, [], {**base, "order": ZERO, "regularization": const(0.5)}, st0).state)
            ctx.equal("default", f"{m}: omitted order is 0 and weight 0.5", a.get("frequency_responses"), b.get("frequency_responses"), w, facts=some, cmp=RCMP())


# ------------------------------------------------------------------ C18
def cheb_options(e):
    """The arguments of a call that makes a Chebyshev series, by name."""
    return {**dict(zip(("f", "domain", "n"), e.args)), **e.kw}


def cheb_series(ctx, X, flt, st0, o, H, comp, pc, L, f0, w):
    """What the Chebyshev series is made of, and what the recorded filters are made of."""
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    series = [e for e in o.events if "chebfun" in str(e.name)]
    if len(series) != 1:
        return
    kw = cheb_options(series[0])
    for n, what in (("f", "the response"), ("n", "a number of points"), ("domain", "an interval")):
        if len(series[0].args) <= 3 and "**" not in kw and (n not in kw or kw[n] is NONE):
            ctx.ob("series", f"{comp} with {pc}: made of {what}", BAD, f"{series[0].loc[0]}:{series[0].loc[1]}", f"{what} is not given to the series")
    cut, steep = X.scalar("cut"), X.scalar("steep")
    if "n" in kw:
        ctx.equal("series", f"{comp} with {pc}: as many points as the filter is long unless told otherwise", kw["n"], L, w)
        given = W.meth(flt, "apply", [], {"f": f0, "p_choice": const(pc), "component": const(comp), "L": L, "n": const(7),
                                          "cut_off_frequency": cut, "steep": steep}, st0)
        ev = [e for e in given.events if "chebfun" in str(e.name)]
        if len(ev) == 1 and "n" in cheb_options(ev[0]):
            ctx.equal("series", f"{comp} with {pc}: the number of points asked for is used", cheb_options(ev[0])["n"], const(7), w)
    if H is None:
        return
    t = N.nf(H)
    fs = {a.args[1] for x in subterms(t) if x.op == "call" and "chebfun" in str(x.args[0]) for a in x.args[1:]
          if isinstance(a, T) and a.op == "kw" and a.args[0] in ("f", const("f"))}
    fs |= {x.args[1] for x in subterms(t) if x.op == "call" and "chebfun" in str(x.args[0]) and len(x.args) > 1 and isinstance(x.args[1], T) and x.args[1].op != "kw"}
    if len(fs) == 1:
        k = mk("bv", 987001)
        ctx.equal("series", f"{comp} with {pc}: the logistic response with the given cut-off and steepness is approximated", fs.pop(),
                  mk("lam", k, sp("logistic", k, cut, steep)), w, cmp=C.Cmp(lams=True))
    cs = [x for x in subterms(t) if x.op == "attr" and x.args[1] in ("coeffs", const("coeffs"))]
    if len(set(cs)) == 1:
        c = W.parr(st0, "series_coefficients", (X.size("number_of_coefficients"),))
        own = W.meth(flt, "get_chebyshev_frequency_approx", [], {
            "p_choice": const(pc), "coeffs": c, "alpha": S.Idx(sp("cheb_scale", X.L[pc]), ZERO), "order": L}, st0)
        ctx.equal("apply", f"{comp} with {pc}: the recorded filters are those of the chosen matrix, its scale and the series' coefficients",
                  N.nsubst(t, {cs[0]: sym("series_coefficients")}), own.term, w, facts=[mk("le", ONE, L)], cmp=FCMP())


def chebyshev(ctx):
    X = Filters(ctx)
    W = X.W
    sp = lambda n, *a: ctx.spec("filters", n, *a)
    cls, flt, st0 = X.make("chebyshev_filter_design", "ChebyshevFilterDesign")
    d, k, a = X.scalar("d"), X.size("number_of_coefficients"), X.scalar("alpha")
    w = ctx.method_where(cls, "_chebyshev_filter_approximate") if cls.lookup("_chebyshev_filter_approximate")[0] else ""
    P = W.parr(st0, "P", (d, d))
    orders = range(1, 7 if ctx.thorough else 6)
    if w:
        for order in orders:
            with guarded(ctx, "recurrence", f"order {order}", w):
                co = W.parr(st0, f"coefficients{order}", (const(order),))
                o = W.meth(flt, "_chebyshev_filter_approximate", [], {"P": P, "coefficients": co, "alpha": a, "order": const(order)}, st0)
                ctx.equal("recurrence", f"order {order}: sum of coefficient times Chebyshev polynomial", o.term,
                          sp("cheb_sum", sym("P"), sym(f"coefficients{order}"), a, const(order)), w)
                ctx.clean("argument-kept", f"order {order}: matrix and coefficients unchanged", o, w)
    w = ctx.method_where(cls, "get_chebyshev_frequency_approx")
    for order in range(1, 5):
        with guarded(ctx, "recurrence", f"last of {order}", w):
            co = W.parr(st0, f"coefficients{order}", (const(order),))
            o = W.meth(flt, "get_chebyshev_frequency_approx", [], {"p_choice": const("L1"), "coeffs": co, "alpha": a, "order": const(order)}, st0)
            ctx.equal("recurrence", f"the last filter of size {order} uses all {order} coefficients", N.nf(S.Idx(o.term, const(order - 1))),
                      sp("cheb_sum", X.L["L1"], sym(f"coefficients{order}"), a, const(order)), w)
    base = X.cls_of("base_filter", "BaseFilter")
    w = ctx.method_where(base, "power_iteration")
    with guarded(ctx, "power-iteration", "power_iteration", w):
        it = X.size("iterations")
        o = W.meth(flt, "power_iteration", [P, it], {}, st0)
        ctx.equal("power-iteration", "v <- P v / |P v| from the all-ones vector, for the given number of steps", o.term,
                  sp("iterate", sym("P"), it), w, wrong=[("the vector is not normalised", sp("iterate_plain", sym("P"), it))])
        o1, o2 = W.meth(flt, "power_iteration", [P], {}, st0), W.meth(flt, "power_iteration", [], {"P": P, "iterations": const(50)}, st0)
        ctx.equal("default", "power_iteration: 50 steps", o1.term, o2.term, w)
        ctx.clean("argument-kept", "power_iteration", o, w)
    w = ctx.method_where(cls, "get_alpha")
    for pc in PS:
        with guarded(ctx, "scale", pc, w):
            o = W.meth(flt, "get_alpha", [const(pc)], {}, st0)
            ctx.equal("scale", f"{pc}: half the estimated largest eigenvalue, and that eigenvalue", o.term, sp("cheb_scale", X.L[pc]), w)
    w = ctx.method_where(cls, "get_ideal_frequency")
    U1, _ = X.spectrum(X.L["L1"])
    with guarded(ctx, "ideal", "get_ideal_frequency", w):
        c = W.parr(st0, "mask", (W.nE,))
        o = W.meth(flt, "get_ideal_frequency", [c], {}, st0)
        ctx.equal("ideal", "U diag(c) U' in the eigenvectors of the Hodge Laplacian", o.term, sp("ideal", U1, sym("mask")), w)
    w = ctx.method_where(base, "logistic_function")
    with guarded(ctx, "response", "logistic_function", w):
        cut, steep, x = X.scalar("cut"), X.scalar("steep"), W.parr(st0, "x", (d,))
        o = W.meth(flt, "logistic_function", [cut, steep], {}, st0)
        v = W.I.call(o.value, [x], {}, o.state)
        ctx.equal("response", "1 / (1 + exp(-steep (x - cut)))", W.I.tm(v, o.state), sp("logistic", sym("x"), cut, steep), w)
    w = ctx.method_where(cls, "apply")
    f0 = X.flow(st0)
    L = X.size()
    for comp, pc in (("gradient", "L1L"), ("curl", "L1U"), ("harmonic", "L1")):
        with guarded(ctx, "apply", comp, w):
            o = W.meth(flt, "apply", [], {"f": f0, "p_choice": const(pc), "component": const(comp), "L": L, "cut_off_frequency": X.scalar("cut"),
                                          "steep": X.scalar("steep")}, st0)
            h = X.hist(flt, o.state)
            H = hist_get(ctx, h, "filter", "apply", f"{comp}: filter", w)
            cheb_series(ctx, X, flt, st0, o, H, comp, pc, L, f0, w)
            if H is None:
                continue
            alpha = W.meth(flt, "get_component_coefficients", [], {"component": const(comp)}, st0).term
            want = dict_of(sp("cheb_record", N.nf(H), X.F, X.true[comp], U1, sp("ideal", U1, N.nf(alpha)), L, W.nE))
            not_ = dict_of(sp("cheb_record_wrong", N.nf(H), X.F, X.true[comp], U1, sp("ideal", U1, N.nf(alpha)), L, W.nE))
            recorded(ctx, "apply", f"{comp} with {pc}", h, want, w, [mk("le", ONE, L)], FCMP(), wrong={
                "extracted_component_error": [("the error is divided by the norm of the estimate", not_["by"]),
                                              ("the error is not divided by the norm of the true signal", not_["plain"]),
                                              ("the error is taken against the flow, not the component", not_["against"])],
                "filter_error": [("the Frobenius norm is taken instead of the spectral norm", not_["fro"])]})
            ctx.clean("argument-kept", f"{comp} with {pc}", o, w)
            series = [e for e in o.events if "chebfun" in str(e.name)]
            if len(series) == 1:
                lam_max = S.Idx(sp("cheb_scale", X.L[pc]), ONE)
                kw = cheb_options(series[0])
                if "domain" in kw:
                    ctx.equal("series", f"{comp} with {pc}: the response is approximated on [0, largest eigenvalue]", kw["domain"],
                              [mk("list", ZERO, lam_max), mk("tuple", ZERO, lam_max)], w)


# ------------------------------------------------------------------ C45
DECORATION = ("figure", "xlabel", "ylabel", "title", "xticks", "yticks", "legend", "grid", "tight_layout", "show", "xlim", "ylim", "apply")
CURVES = ("plot", "scatter", "stem", "semilogy", "semilogx", "loglog", "step")


def curves(o):
    """The curves drawn: (event, x, y)."""
    out = []
    for e in o.events:
        n = str(e.name)
        if n.rsplit(".", 1)[-1] in CURVES and ("matplotlib" in n or n.startswith(".")):
            x = e.args[0] if e.args else e.kw.get("x")
            y = e.args[1] if len(e.args) > 1 else e.kw.get("y")
            out.append((e, x, y))
    return out


def drawn(ctx, tag, o, want, w, wrong):
    """Every wanted curve is drawn once, in the wanted order, with the wanted names in the legend."""
    if o.dead:
        ctx.ob("curves", tag, BAD if o.exits and all(not e.guard for e in o.exits) else UNDECIDED, w, f"ends in {sorted({e.exc for e in o.exits})}")
        return
    cs = curves(o)
    if len(cs) != len(want) or any(e.guard or e.loops or x is None or y is None for e, x, y in cs):
        plain_ = all(str(e.name).rsplit(".", 1)[-1] in DECORATION or not ("matplotlib" in str(e.name) or str(e.name).startswith(".")) for e in o.events if all(e is not c[0] for c in cs))
        ctx.ob("curves", f"{tag}: {len(want)} curves", BAD if plain_ and len(cs) < len(want) else UNDECIDED, w, f"{len(cs)} curves are found")
        return
    def new(e):
        return str(e.name).rsplit(".", 1)[-1] in ("figure", "subplots")
    first = o.events.index(cs[0][0])
    ctx.require("figure", f"{tag}: on a figure of its own", True if any(new(e) for e in o.events[:first]) else
                False if all(str(e.name).startswith("matplotlib.pyplot.") for e, _, _ in cs) else None, w, "no new figure is made, so the curves are added to whatever was drawn last")
    left, order = list(want), []
    for e, x, y in cs:
        at = f"{e.loc[0]}:{e.loc[1]}"
        hit = next((v for v in left if same(y, v[2])), left[0])
        left.remove(hit)
        order.append(hit[0])
        ctx.equal("curves", f"{tag}: {hit[0]} stands at the eigenvalues it belongs to", x, hit[1], at, cmp=FCMP(), wrong=[*wrong.get("x", ()), *([] if callable(hit[2]) else [("the axes are exchanged", hit[2])])])
        if callable(hit[2]):
            r = False if same(y, hit[1]) else hit[2](y)
            ctx.require("curves", f"{tag}: {hit[0]}", r, at, f"drawn: {C.short(N.nf(y))}")
        else:
            ctx.equal("curves", f"{tag}: {hit[0]}", y, hit[2], at, cmp=FCMP(), wrong=[*wrong.get(hit[0], ()), ("the axes are exchanged", hit[1])])
    if len(want) > 1 and not any(str(e.name).endswith("legend") for e in o.events):
        ctx.ob("legend", f"{tag}: each curve has its own name", BAD if all(set(e.kw) <= {"color", "s", "marker", "alpha", "c"} for e, _, _ in cs) and all(
            str(e.name).rsplit(".", 1)[-1] in DECORATION or not ("matplotlib" in str(e.name) or str(e.name).startswith(".")) for e in o.events if all(e is not c[0] for c in cs)) else UNDECIDED, w, "there is no legend")
    names = [n for e in o.events if str(e.name).endswith("legend") and e.args for n in [N.nf(e.args[0])]]
    if len(names) == 1 and names[0].op in ("list", "tuple") and all(is_const(a) for a in names[0].args) and len(want) > 1:
        said = [cval(a) for a in names[0].args]
        known = {v[0]: v[3] for v in want}
        right = [known[n] for n in order]
        ctx.require("legend", f"{tag}: each curve has its own name", True if said == right else False if sorted(map(str, said)) == sorted(right) or len(said) != len(right) else None, w, f"the names are {said}")


def same(t, v):
    if callable(v):
        return v(t) is True
    return FCMP()(N.nf(t), N.nf(v)) == C.EQUAL


def stand_in(X, flt, st, key, resp, shape):
    """What is drawn of a recorded result does not depend on how it was computed: a name stands for it."""
    s = st.copy()
    v = X.W.I.getattr(flt, "history", s)
    if not (isinstance(v, Ref) and s.heap[v.cid].kind == "dict" and isinstance(s.heap[v.cid].items, dict)) or ndim_of(resp) != len(shape):
        return st, resp
    X.W.I.setitem(v, const(key), X.W.parr(s, "recorded_" + key, shape), s)
    h = X.hist(flt, s)
    return (s, h[key]) if key in h else (st, resp)


def clearer(ctx, X, flt, name, kw, st, resp, shape, others):
    """The drawing of a recorded response: of the one that was computed if that is understood, otherwise of a name for it, if
    nothing else is used. -> outcome, response, record"""
    W = X.W
    p = W.meth(flt, name, [], kw, st.copy())
    rest = lambda q: [y for _, _, y in curves(q) if y is not None and not any(same(y, v) for v in others)]
    if resp is None or any(same(y, S.Idx(resp, const(-1))) for y in rest(p)):
        return p, resp, X.hist(flt, st)
    s, r = stand_in(X, flt, st, "frequency_responses", resp, shape)
    if r is not resp:
        q = W.meth(flt, name, [], kw, s.copy())
        ys = rest(q)
        sizes = {x for x in subterms(mk("tuple", *shape)) if x.op == "sym"}
        if ys and all(any(x is r for x in subterms(N.nf(y))) and all(x is r or x in sizes for x in subterms(N.nf(y)) if x.op == "sym") for y in ys):
            return q, r, X.hist(flt, s)
    return p, resp, X.hist(flt, st)


def ndim_of(t):
    return shapes.ndim(N.nf(t))


def plots(ctx):
    X = Filters(ctx)
    W = X.W
    # the denoising filter
    cls, flt, st0 = X.make("edge_flow_denoising", "EdgeFlowDenoising")
    name = "plot_desired_frequency_response"
    w = ctx.method_where(cls, name)
    k = X.size("number_of_parameters")
    mus = W.parr(st0, "mu_vals", (k,))
    f0, ft = X.flow(st0), W.parr(st0, "f_true", (W.nE,))
    for pc in PS:
        with guarded(ctx, "refused", f"denoising with {pc}", w):
            ctx.raises("refused", f"no response of a denoising filter with {pc} before it is applied", W.meth(flt, name, [], {"p_choice": const(pc)}, st0), where=w)
        with guarded(ctx, "curves", f"denoising with {pc}", w):
            o = W.meth(flt, "denoise", [], {"f": f0, "f_true": ft, "p_choice": const(pc), "mu_vals": mus}, st0)
            ran = o.state
            before = X.hist(flt, ran)
            resp = hist_get(ctx, before, "frequency_responses", "curves", f"denoising with {pc}", w)
            p, resp, before = clearer(ctx, X, flt, name, {"p_choice": const(pc)}, ran, resp, (k, W.nE), [])
            if resp is not None:
                drawn(ctx, f"denoising with {pc}", p, [("the last response", X.spectrum(X.L[pc])[1], S.Idx(resp, const(-1)), "")], w,
                      {"the last response": [("the first response is drawn", S.Idx(resp, ZERO))],
                       "x": [(f"the eigenvalues of {q} are used", X.spectrum(X.L[q])[1]) for q in PS if q != pc]})
            kept(ctx, X, flt, before, p, f"denoising with {pc}", w)
    # the Chebyshev filter
    cls, flt, st0 = X.make("chebyshev_filter_design", "ChebyshevFilterDesign")
    f0 = X.flow(st0)
    L = X.size()
    cut, steep = X.scalar("cut"), X.scalar("steep")
    name = "plot_chebyshev_series_approx"
    w = ctx.method_where(cls, name)
    for pc in PS:
        P = X.L[pc]
        ev = X.spectrum(P)[1]
        with guarded(ctx, "curves", f"series with {pc}", w):
            p = W.meth(flt, name, [], {"p_choice": const(pc), "cut_off_frequency": cut, "steep": steep}, st0)

            def series(y, ev=ev):
                y = N.nf(y)
                if y.op != "apply" or len(y.args) != 2 or "chebfun" not in str(y.args[0].args[0] if y.args[0].op == "call" else ""):
                    return None
                return {C.EQUAL: True, C.DIFFERENT: False}.get(FCMP()(y.args[1], N.nf(ev)))
            drawn(ctx, f"series with {pc}", p, [("the response", ev, ctx.spec("filters", "logistic", ev, cut, steep), "Function"), ("the series", ev, series, "Chebyshev approx")], w,
                  {"x": [(f"the eigenvalues of {q} are used", X.spectrum(X.L[q])[1]) for q in PS if q != pc]})
            sr = [e for e in p.events if "chebfun" in str(e.name)]
            if len(sr) == 1:
                kw = cheb_options(sr[0])
                at = f"{sr[0].loc[0]}:{sr[0].loc[1]}"
                if "n" in kw:
                    ctx.equal("series", f"{pc}: as many points as the matrix has rows unless told otherwise", kw["n"], S.Len(P), at)
                if "domain" in kw:
                    top = S.Idx(ctx.spec("filters", "cheb_scale", P), ONE)
                    ctx.equal("series", f"{pc}: approximated on [0, largest eigenvalue]", kw["domain"], [mk("list", ZERO, top), mk("tuple", ZERO, top)], at)
                ys = [N.nf(y) for _, _, y in curves(p)]
                fn = [x.args[1] for y in ys for x in subterms(y) if x.op == "call" and "chebfun" in str(x.args[0]) and len(x.args) > 1]
                if fn:
                    b = mk("bv", 987002)
                    ctx.equal("series", f"{pc}: the logistic response with the given cut-off and steepness is approximated", fn[0],
                              mk("lam", b, ctx.spec("filters", "logistic", b, cut, steep)), at, cmp=C.Cmp(lams=True))
            given = W.meth(flt, name, [], {"p_choice": const(pc), "n": const(7)}, st0)
            sr = [e for e in given.events if "chebfun" in str(e.name)]
            if len(sr) == 1 and "n" in cheb_options(sr[0]):
                ctx.equal("series", f"{pc}: the number of points asked for is used", cheb_options(sr[0])["n"], const(7), w)
            kept(ctx, X, flt, X.hist(flt, st0), p, f"series with {pc}", w)
        with guarded(ctx, "default", f"series with {pc}", w):
            p = W.meth(flt, name, [], {"p_choice": const(pc)}, st0)
            q = W.meth(flt, name, [], {"p_choice": const(pc), "cut_off_frequency": const(0.01), "steep": const(100)}, st0)
            a, b = curves(p), curves(q)
            for (e, _, y), (_, _, z) in zip(a, b):
                if "chebfun" not in str(N.nf(y)):
                    ctx.equal("default", f"series with {pc}: the cut-off is 0.01 and the steepness 100 unless told otherwise", y, z, f"{e.loc[0]}:{e.loc[1]}", cmp=FCMP())
    name = "plot_frequency_response_approx"
    w = ctx.method_where(cls, name)
    U, ev = X.spectrum(X.L["L1"])
    for comp, pc in (("gradient", "L1L"), ("curl", "L1U"), ("harmonic", "L1")):
        kw = {"flow": f0, "component": const(comp)}
        with guarded(ctx, "refused", comp, w):
            ctx.raises("refused", f"no {comp} response before the filter is applied", W.meth(flt, name, [], kw, st0), where=w)
        with guarded(ctx, "curves", comp, w):
            o = W.meth(flt, "apply", [], {"f": f0, "p_choice": const(pc), "component": const(comp), "L": L}, st0)
            before = X.hist(flt, o.state)
            resp = hist_get(ctx, before, "frequency_responses", "curves", comp, w)
            p, resp, before = clearer(ctx, X, flt, name, kw, o.state, resp, (L, W.nE), [S.MatMul(S.Tr(U), X.true[comp])])
            if resp is not None:
                t = X.true[comp]
                drawn(ctx, comp, p, [("the true component in the frequency domain", ev, S.MatMul(S.Tr(U), t), "True component"),
                                     ("the last response", ev, S.Idx(resp, const(-1)), "Chebyshev approx component")], w,
                      {"the last response": [("the first response is drawn", S.Idx(resp, ZERO))],
                       "the true component in the frequency domain": [(f"the {c} component is drawn", S.MatMul(S.Tr(U), v)) for c, v in X.true.items() if c != comp]
                       + [("the flow itself is drawn", S.MatMul(S.Tr(U), X.F)), ("the component is not taken to the frequency domain", t)],
                       "x": [(f"the eigenvalues of {q} are used", X.spectrum(X.L[q])[1]) for q in PS if q != "L1"]})
            kept(ctx, X, flt, before, p, comp, w)


def kept(ctx, X, flt, before, p, tag, w):
    """Drawing leaves the recorded results, the flow and the complex as they were."""
    after = X.hist(flt, p.state)
    for k in sorted(map(str, dict.keys(before))):
        if k not in dict.keys(after):
            ctx.ob("unchanged", f"{tag}: recorded {k}", BAD if dict.keys(after) else UNDECIDED, w, "is gone after drawing")
            continue
        ctx.equal("unchanged", f"{tag}: recorded {k}", after[k], before[k], w, cmp=FCMP())
    ctx.clean("unchanged", f"{tag}: flow and complex", p, w)
