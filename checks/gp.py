"""Checks of the Gaussian-process part: inputs, kernels, training and prediction."""
from __future__ import annotations

from .util import *

TRAINER = "hogde_gp.hodge_gp_trainer"
FAMILIES = {  # kernel name: (class, hyper-parameters, spectrum, weights)
    "diffusion": ("DiffusionKernelForex", ("kappa_down", "kappa_up", "h", "h_down", "h_up"), "diffusion", "weights"),
    "diffusion_non_hc": ("DiffusionNonHCKernelForex", ("kappa_down", "kappa_up", "h", "h_down", "h_up"), "diffusion_non_hc", "equal_weights"),
    "matern": ("MaternKernelForex", ("kappa_down", "kappa_up", "kappa", "mu", "mu_down", "mu_up", "h", "h_down", "h_up"), "matern", "weights"),
    "matern_non_hc": ("MaternNonHCKernelForex", ("kappa_down", "kappa_up", "kappa", "mu", "mu_down", "mu_up", "h", "h_down", "h_up"),
                      "matern_non_hc", "equal_weights"),
    "laplacian": ("LaplacianKernelForex", ("kappa_down", "kappa_up", "mu"), "laplacian", "laplacian_weights"),
}
ROLES = ("harm_eigvects", "grad_eigvects", "curl_eigvects", "harm_eigvals", "grad_eigvals", "curl_eigvals")
POSITIVE = {"gpytorch.constraints.Positive", "gpytorch.constraints.constraints.Positive"}
ABOVE = {"gpytorch.constraints.GreaterThan", "gpytorch.constraints.Interval", "gpytorch.constraints.constraints.GreaterThan",
         "gpytorch.constraints.constraints.Interval"}
OTHERS = {"gpytorch.constraints.LessThan", "gpytorch.constraints.constraints.LessThan"}
GP_CALLS = {"sklearn.model_selection.train_test_split", "gpytorch.distributions.MultivariateNormal"} | POSITIVE | ABOVE


def cmp_gp():
    return C.Cmp(calls=GP_CALLS, mcalls={"squeeze", "transform", "inverse_transform", "item", "expand"}, attrs=True, extra={"param"})


def positive(t):
    """Whether a constraint lets only values from zero upwards through."""
    if t.op == "call" and t.args[0] in POSITIVE:
        return True
    if t.op == "call" and t.args[0] in ABOVE:
        low = t.args[1] if len(t.args) > 1 else None
        for x in t.args[1:]:
            if x.op == "kw" and x.args[0] == "lower_bound":
                low = x.args[1]
        if low is not None and is_const(low):
            return cval(low) >= 0
        return None
    if t.op == "call" and t.args[0] in OTHERS:
        return False
    return None


def number(name):
    s = sym(name)
    shapes.REPS[s], shapes.SHAPES[s] = "scalar", ()
    return s


def atoms(t, *pairs):
    """Names for values that are compared as a whole."""
    t = N.nf(t)
    for a, name in pairs:
        t = N.nsubst(t, {N.nf(a): sym(name)})
    m = {x: number("value of " + C.short(x.args[0])) for x in subterms(t) if x.op == "item"}
    for x in subterms(t):
        if x.op == "mcall" and x.args[1] == "transform" and x.args[0].op == "call" and x.args[0].args[0] in POSITIVE | ABOVE and x.args[-1].op == "param":
            m[x] = sym("positive " + x.args[-1].args[0])
    return N.nsubst(t, m) if m else t


def flat(t, inputs=()):
    """Spectral values without the reshaping that only serves broadcasting."""
    m = {}
    for x in subterms(t):
        if x.op == "diag" and len(x.args) == 1:
            d = shapes.shape(x.args[0])
            if d is not None and len(d) in (1, 2):
                m[x] = mk("diagm" if len(d) == 1 else "diagof", x.args[0])
        elif x.op == "cast" and x.args[1].op == "mcall" and x.args[1].args[1] == "squeeze":
            y = x.args[1]
            m[x] = mk("mcall", mk("cast", x.args[0], y.args[0]), *y.args[1:])
    for x in m:
        t = subst(t, {x: m[x]})
    for _ in range(3):
        m = {}
        for x in subterms(t):
            if x.op == "squeeze" and len(x.args) == 1 and not any(occurs(i, x) for i in inputs):
                y = x.args[0]
                if y.op == "mcall" and y.args[1] == "expand":
                    if len(y.args) == 4 and y.args[3] is const(-1):
                        m[x] = mk("fill", y.args[2], y.args[0])
                else:
                    m[x] = y
        if not m:
            break
        t = subst(t, m)
    return N.nf(spread(t))


def spread(t):
    """A vector of equal entries that scales the columns of a matrix is a factor."""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == "store" and len(x.args) == 3 and x.args[1] is FULL:
                d = shapes.shape(x.args[0])
                if d is not None and len(d) == 1 and shapes.shape(x.args[2]) in ((), None):
                    m[x] = mk("fill", d[0], x.args[2])
            elif x.op == "mul":
                for f in x.args:
                    if f.op != "fill" or len(f.args) != 2:
                        continue
                    rest = [a for a in x.args if a is not f]
                    if f.args[1] is not ONE and not all(shapes.shape(a) == () for a in rest):
                        m[x] = S.Mul(*rest, f.args[1], mk("fill", f.args[0], ONE))
                        break
                    wide = [shapes.shape(a) for a in rest]
                    if all(w == () for w in wide):
                        m[x] = mk("fill", f.args[0], S.Mul(*rest, f.args[1]))
                        break
                    if any(w is not None and len(w) == 2 and w[1] is f.args[0] for w in wide):
                        m[x] = S.Mul(*rest)
                        break
        if not m:
            break
        t = subst(t, m)
    return t


class Kernel:
    """A kernel made from six eigenvector and eigenvalue arrays."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        W = self.W = ctx.W
        self.I = W.I
        cname, self.params, self.spectrum, self.weights = FAMILIES[name]
        self.cls = W.get("hogde_gp.forex", cname)
        st, self.pairs = eigenpairs(ctx, W.base())
        o = W.call(self.cls, [], {"eigenpairs": self.pairs}, st)
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost(f"{cname} cannot be constructed from eigenpairs")
        self.o, self.k, self.st = o, o.value, o.state
        self.sizes()

    def sizes(self):
        for p in self.params:
            # one element: it scales whatever it is combined with
            shapes.SHAPES[mk("param", "raw_" + p)] = ()

    def where(self, meth):
        return self.ctx.method_where(self.cls, meth)

    def attr(self, name, st=None, raw=False):
        """Value of an attribute or property of the kernel."""
        s = self.st if st is None else st
        try:
            t = self.W.prop(self.k, name, s).term
            return t if raw else N.nf(t)
        except Dead:
            return None

    def assign(self, name, v, st):
        s = st.copy()
        self.I.fresh_run()
        try:
            self.I.setattr(self.k, name, v, s)
        except Dead:
            return None
        return s

    def stored(self, name, st=None):
        c = (self.st if st is None else st).heap[self.k.cid]
        v = (c.attrs or {}).get(name)
        return None if v is None else N.nf(self.I.tm(v, self.st if st is None else st))


def eigenpairs(ctx, st):
    """Six arrays of matching sizes, as the trainer hands them out."""
    n = sym("edges of the complex")
    items = []
    for r in ROLES:
        k = sym("number of " + r[:4])
        items.append(ctx.W.parr(st, r, (n, k) if r.endswith("vects") else (k,)))
    return st, ctx.I.alloc(st, "list", None, items=items, origin=("param", "eigenpairs"))


def kernels(ctx):
    for name in FAMILIES:
        yield Kernel(ctx, name)


class Trainer:
    def __init__(self, ctx):
        self.ctx, self.W, self.I = ctx, ctx.W, ctx.W.I
        self.X = Complex(ctx)
        self.I.tensors = True
        W = self.W
        self.cls = W.get(TRAINER, "HodgeGPTrainer")
        st = self.X.st.copy()
        self.y = W.parr(st, "y", (W.nE,))
        o = W.call(self.cls, [], {"sc": self.X.sc, "y": self.y}, st)
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost("HodgeGPTrainer cannot be constructed")
        self.t, self.st = o.value, o.state

    def where(self, name):
        return self.ctx.method_where(self.cls, name)

    def call(self, name, kw=None, st=None):
        return self.W.meth(self.t, name, [], dict(kw or {}), (self.st if st is None else st).copy())

    def trained(self):
        """The trainer after training a model."""
        st = self.st.copy()
        W = self.W
        self.model, self.likelihood = W.param(st, "model"), W.param(st, "likelihood")
        S.PRESENT.add(sym("model"))
        o = self.call("train", {"model": self.model, "likelihood": self.likelihood, "x_train": W.param(st, "x_train"),
                                "y_train": W.param(st, "y_train")}, st)
        return o


def parts(ctx, rule, construct, got, want, names, where, cmp=None):
    """Element by element comparison of two sequences."""
    got, want = N.nf(got), N.nf(want)
    if got.op not in ("tuple", "list") or want.op not in ("tuple", "list"):
        ctx.equal(rule, construct, got, want, where, cmp or cmp_gp())
        return
    ctx.require(rule, f"{construct}: {len(names)} results", len(got.args) == len(names), where, f"{len(got.args)} results")
    for i, (n, a, b) in enumerate(zip(names, got.args, want.args)):
        ctx.equal(rule, f"{construct}: {n}", a, b, where, cmp or cmp_gp(),
                  wrong=[(f"is what belongs to {m}", x) for j, (m, x) in enumerate(zip(names, want.args)) if j != i and x is not b])


# ------------------------------------------------------------------ C27
def inputs(ctx):
    X = Trainer(ctx)
    for meth, names, spec in (("get_laplacians", ("Hodge", "lower", "upper"), "laplacians"), ("get_incidence_matrices", ("B1", "B2"), "incidence")):
        w = X.where(meth)
        with guarded(ctx, "order", meth, w):
            o = X.call(meth)
            parts(ctx, "order", meth, o.term, ctx.spec("gp", spec, X.X.sc, st=X.st), names, w)
    w = X.where("get_eigenpairs")
    names = [f"{c} {v}" for v in ("vectors", "values") for c in ("harmonic", "gradient", "curl")]
    for label, kw in (("given tolerance", True), ("default tolerance", False)):
        with guarded(ctx, "order", "get_eigenpairs " + label, w):
            st = X.st.copy()
            tol = ctx.W.param(st, "tolerance")
            o = X.call("get_eigenpairs", {"tolerance": tol} if kw else {}, st)
            want = ctx.spec("gp", "eigenpairs", X.X.sc, tol if kw else const(0.001), st=st)
            parts(ctx, "order", "get_eigenpairs, " + label, o.term, want, names, w)
    for k in kernels(ctx):
        w = k.where("__init__")
        for r in ROLES:
            v = k.stored(r)
            ctx.require("role", f"{k.name}.{r}", None if v is None else v is sym(r), w,
                        "no attribute of this name" if v is None else f"holds {C.short(v)}")


# ------------------------------------------------------------------ C28
def parameters(ctx):
    W, I = ctx.W, ctx.I
    for k in kernels(ctx):
        w = k.where("__init__")
        raw = {p: mk("param", "raw_" + p) for p in k.params}
        registered = {cval(e.args[0]): e for e in k.o.events if e.name == ".register_parameter" and is_const(e.args[0])}
        for p in k.params:
            with guarded(ctx, "constraint", f"{k.name}.{p}", w):
                ctx.require("registered", f"{k.name}.raw_{p}", k.stored("raw_" + p) is raw[p] if k.stored("raw_" + p) is not None else
                            (False if registered else None), w, "is not registered as a parameter")
                c = k.stored(f"raw_{p}_constraint")
                ctx.require("constraint", f"{k.name}.raw_{p}", False if c is None or c is NONE else positive(c), w,
                            "has no constraint" if c is None else f"is constrained by {C.short(c)}")
                got = k.attr(p)
                if got is None:
                    raise AnchorLost(f"{k.cls.name}.{p}")
                want = None if c is None else mk("mcall", c, "transform", raw[p])
                ctx.equal("reading", f"{k.name}.{p} is the constrained value of raw_{p}", got, want if want is not None else raw[p], k.where(p), cmp_gp())
        for n in registered:
            ctx.require("constraint", f"{k.name}.{n} is constrained", (n + "_constraint") in k.st.heap[k.k.cid].attrs, w, "has no constraint")
        for p in k.params:
            w = k.where(p)
            for kind in ("number", "tensor"):
                with guarded(ctx, "writing", f"{k.name}.{p} = {kind}", w):
                    st = k.st.copy()
                    v = W.param(st, "value")
                    if kind == "number":
                        v = I.alloc(st, "arr", sym("value"), origin=("param", "value"))
                    s = k.assign(p, v, st)
                    if s is None:
                        ctx.ob("writing", f"{k.name}.{p} = {kind}", BAD, w, "assigning fails")
                        continue
                    if kind == "number":
                        for e in [e for e in I.events if e.name == ".inverse_transform"]:
                            ctx.require("writing", f"{k.name}.{p}: a plain number is made a tensor first", converted(e), w, "inverse_transform takes tensors only and is given the number itself")
                    got = settled(k.attr(p, s))
                    ctx.require("writing", f"{k.name}.{p} = {kind} is read back", same_value(got) if same_value(got) is not None or not changed(got) else False, w, f"reading gives {C.short(got)}")
                    for q in k.params:
                        if q != p:
                            ctx.require("writing", f"{k.name}.{p} = {kind} leaves {q}", k.stored("raw_" + q, s) is raw[q], w,
                                        f"raw_{q} becomes {C.short(k.stored('raw_' + q, s) or NONE)}")


def converted(e):
    """Is what is transformed a tensor when the value assigned is not one?"""
    if not e.args:
        return None
    m = {mk("isinstance", sym("value"), "torch.Tensor"): FALSE}
    if any(N.nf(S.subst(g, m)) is FALSE for g in e.guard):
        return True
    t = S.subst(e.args[0], m)
    while t.op in ("ite", "if"):
        c = N.nf(t.args[0])
        if c not in (TRUE, FALSE):
            return None
        t = t.args[1] if c is TRUE else t.args[2]
    return False if t is sym("value") else True


def changed(t):
    """The assigned value after an operation that changes it."""
    y = C.alteration(N.nf(t))
    return y is not None and same_value(y) is True


def settled(t):
    """transform(inverse_transform(x)) is x."""
    t = N.nf(t)
    m = {}
    for x in subterms(t):
        if x.op == "mcall" and x.args[1] == "transform" and len(x.args) == 3:
            y = x.args[2]
            if y.op == "mcall" and y.args[1] == "inverse_transform" and y.args[0] is x.args[0] and len(y.args) == 3:
                m[x] = y.args[2]
    return N.nsubst(t, m) if m else t


def same_value(t):
    """The value assigned, possibly made a tensor of the type of the parameter."""
    v = sym("value")
    if t is v:
        return True
    if t.op == "ite":
        a, b = same_value(t.args[1]), same_value(t.args[2])
        return a and b if a is not None and b is not None else (False if a is False or b is False else None)
    if t.op in ("asarr", "cast") and t.args[-1] is v:
        return t.op == "asarr" or "float" in str(t.args[0])
    if not occurs(v, t):
        return False
    if cmp_gp().rigid(t):
        return False
    return None


# ------------------------------------------------------------------ C29
def covariance(ctx):
    W, I = ctx.W, ctx.I
    for k in kernels(ctx):
        st = k.st.copy()
        x1, x2 = W.parr(st, "x1", (sym("n1"), ONE)), W.parr(st, "x2", (sym("n2"), ONE))
        S.PRESENT.add(sym("x2"))
        ins = (sym("x1"), sym("x2"))
        w = k.where("_eval_covar_matrix") if k.cls.lookup("_eval_covar_matrix")[0] is not None else k.where("forward")
        eig = [sym(r) for r in ROLES]
        ks = ws = None
        with guarded(ctx, "spectrum", k.name, w):
            ks = ctx.spec("gp", k.spectrum, k.k, *eig[3:], st=k.st)
            ws = ctx.spec("gp", k.weights, k.k, st=k.st)
            got = k.attr("covar_matrix", raw=True) if k.cls.lookup("covar_matrix")[0] is not None else None
            if got is not None:
                parts(ctx, "spectrum", f"{k.name}.covar_matrix", atoms(flat(got)), atoms(flat(ks)), ("harmonic", "gradient", "curl"), w)
        if ks is None or ws is None:
            continue
        w = k.where("forward")
        for label, args, kw, other, diag in (
                ("two inputs", [x1, x2], {}, x2, False), ("one input", [x1], {}, x1, False),
                ("no second input", [x1, NONE], {"diag": FALSE}, x1, False),
                ("diagonal of two inputs", [x1, x2], {"diag": TRUE}, x2, True), ("diagonal of one input", [x1], {"diag": TRUE}, x1, True)):
            with guarded(ctx, "covariance", f"{k.name}: {label}", w):
                o = W.meth(k.k, "forward", args, kw, st)
                full = ctx.spec("gp", "covariance", *eig[:3], *ks.args, *ws.args, x1, other, st=st)
                want = ctx.spec("gp", "diagonal", full, st=st) if diag else full
                want = atoms(flat(want, ins))
                drop = {i: {x: mk("squeeze", x.args[0]) for x in subterms(want) if x.op == "mcall" and x.args[1] == "squeeze" and occurs(i, x)} for i in ins}
                wrong = [("a single index loses its axis", subst(want, m)) for m in (drop[ins[0]], drop[ins[1]], {**drop[ins[0]], **drop[ins[1]]}) if m]
                ctx.equal("covariance", f"{k.name}: {label}", atoms(flat(o.term, ins)), want, w, cmp_gp(), o.state.facts, wrong=wrong)


# ------------------------------------------------------------------ C30
def names(ctx):
    W = ctx.W
    Ser = W.get("hogde_gp.kernel_serializer", "KernelSerializer")
    enum = W.get("hogde_gp.kernels", "Kernels")
    o = W.call(Ser, [], {}, W.base())
    if o.dead:
        raise AnchorLost("KernelSerializer cannot be constructed")
    ser, st0 = o.value, o.state
    w = ctx.method_where(Ser, "serialize")
    st, pairs = eigenpairs(ctx, st0.copy())

    def make(kind, data):
        return W.meth(ser, "serialize", [], {"eigenpairs": pairs, "kernel_type": kind, "data_name": data}, st.copy())

    for name, (cname, *_rest) in FAMILIES.items():
        with guarded(ctx, "kernel", name, w):
            o = make(const(name), const("forex"))
            if o.dead:
                ctx.ob("kernel", name, BAD, w, f"is refused: {sorted({e.exc for e in o.exits})}")
                continue
            if isinstance(o.value, (ClassV, FuncV)) or o.term is NONE:
                ctx.ob("kernel", name, BAD, w, "no kernel is returned")
                continue
            if not isinstance(o.value, Ref) or o.state.heap[o.value.cid].cls is None:
                ctx.ob("kernel", name, UNDECIDED, w, "what is returned is not known")
                continue
            cls = o.state.heap[o.value.cid].cls
            want = W.get("hogde_gp.forex", cname)
            ctx.require("kernel", name, cls is want or is_sub(cls, want), w, f"gives a {cls.name}")
            for i, r in enumerate(ROLES):
                v = (o.state.heap[o.value.cid].attrs or {}).get(r)
                t = None if v is None else N.nf(ctx.I.tm(v, o.state))
                ctx.require("eigenpairs", f"{name}: {r}", None if t is None else t is sym(r), w, "no attribute of this name" if t is None else f"holds {C.short(t)}")
    unknown = [("a name that is not implemented", const("laplacian_non_hc")), ("any other name", uniq("kernel")), ("another spelling", const("Matern")),
               ("part of a name", const("mate")), ("an empty name", const("")), ("no name", NONE)]
    for what, v in unknown:
        with guarded(ctx, "refused", what, w):
            ctx.raises("refused", what, make(v, const("forex")), where=w)
    for name in FAMILIES:
        for what, v in (("any other data set", uniq("data")), ("another spelling", const("Forex")), ("part of a name", const("fore")), ("an empty name", const(""))):
            with guarded(ctx, "refused", f"{name} for {what}", w):
                ctx.raises("refused", f"{name} for {what}", make(const(name), v), where=w)
    if "get_names" in enum.env:
        with guarded(ctx, "names", "get_names", w):
            o = W.meth(enum, "get_names", [], {}, W.base())
            t = N.nf(o.term)
            got = {cval(x) for x in t.args} if t.op in ("list", "tuple") and all(is_const(x) for x in t.args) else None
            ctx.require("names", "get_names lists every implemented kernel", None if got is None else set(FAMILIES) <= got, ctx.method_where(enum, "get_names"),
                        f"lists {sorted(got or ())}")


def is_sub(cls, want):
    try:
        return want in cls.mro()
    except Exception:       # noqa: BLE001
        return False


# ------------------------------------------------------------------ C31
def split(ctx):
    X = Trainer(ctx)
    W, I = ctx.W, ctx.I
    w = X.where("train_test_split")
    six = ("training inputs", "training targets", "test inputs", "test targets", "all inputs", "all targets")
    for label, kw, norm in (("as given", {"ratio", "seed"}, FALSE), ("normalised", {"ratio", "seed"}, TRUE), ("defaults", set(), None),
                            ("normalised by default ratio", set(), TRUE)):
        with guarded(ctx, "split", label, w):
            st = X.st.copy()
            ratio, seed = W.param(st, "ratio"), W.param(st, "seed")
            args = {}
            if "ratio" in kw:
                args.update(train_ratio=ratio, seed=seed)
            else:
                ratio, seed = const(0.8), const(4)
            if norm is not None:
                args["data_normalization"] = norm
            o = X.call("train_test_split", args, st)
            want = ctx.spec("gp", "split", X.X.sc, X.y, ratio, norm if norm is not None else FALSE, seed, st=st)
            parts(ctx, "split", label, o.term, want, six, w)
            ctx.clean("unchanged", f"{label}: targets and complex", o, w, roots=("param", "default", "global"),
                      allow=[lambda e: e.root[:2] == ("param", "self")])
            got = N.nf(o.term)
            for i, a in enumerate(("x_train", "y_train", "x_test", "y_test")):
                v = o.state.heap[X.t.cid].attrs.get(a)
                if v is not None and got.op in ("tuple", "list") and len(got.args) > i:
                    ctx.equal("kept", f"{label}: .{a}", I.tm(v, o.state), got.args[i], w, cmp_gp())
    w = X.where("normalize_data")
    with guarded(ctx, "normalise", "normalize_data", w):
        st = X.st.copy()
        a, b, c = (W.param(st, x) for x in ("y_train", "y_test", "y_all"))
        o = X.call("normalize_data", {"y_train": a, "y_test": b, "y": c}, st)
        parts(ctx, "normalise", "normalize_data", o.term, ctx.spec("gp", "normalised", a, b, c, st=st), ("training", "test", "all"), w)
        ctx.clean("unchanged", "normalize_data", o, w)


# ------------------------------------------------------------------ C32
def training(ctx):
    X = Trainer(ctx)
    W, I = ctx.W, ctx.I
    w = X.where("train")
    for label, given in (("given options", True), ("default options", False)):
        with guarded(ctx, "training", label, w):
            st = X.st.copy()
            m, l = W.param(st, "model"), W.param(st, "likelihood")
            kw = {"model": m, "likelihood": l, "x_train": W.param(st, "x_train"), "y_train": W.param(st, "y_train")}
            if given:
                kw.update(training_iters=W.param(st, "iters"), learning_rate=W.param(st, "rate"), optimizer=W.param(st, "optimizer"))
            o = X.call("train", kw, st)
            trained(ctx, X, o, label, sym("iters") if given else const(1000), sym("rate") if given else const(0.1), w, given)
    w = X.where("train")
    with guarded(ctx, "kept", "a second training", w):
        retrained(ctx, X, w)
    w = X.where("predict")
    with guarded(ctx, "prediction", "predict", w):
        st = X.st.copy()
        m, l = W.param(st, "model"), W.param(st, "likelihood")
        o = X.call("predict", {"model": m, "likelihood": l, "x_test": W.param(st, "x_test"), "y_test": W.param(st, "y_test")}, st)
        predicted(ctx, o, w)
    for meth in ("get_model_parameters", "build_matern_kernel"):
        w = X.where(meth)
        with guarded(ctx, "untrained", meth, w):
            ctx.raises("untrained", meth, X.call(meth), where=w)


def on(e, name, recv):
    return e.name == name and e.recv is not None and N.nf(e.recv) is recv


def mode(events, upto, recv):
    """The mode an object was last switched to: 'train', 'eval' or None."""
    r = None
    for e in events[:upto]:
        if e.recv is None or N.nf(e.recv) is not recv or e.guard:
            continue
        if e.name == ".eval":
            r = "eval"
        elif e.name == ".train":
            a = e.args[0] if e.args else e.kw.get("mode", TRUE)
            r = "train" if a is TRUE else ("eval" if a is FALSE else None)
    return r


def trained(ctx, X, o, label, iters, rate, w, given):
    model, lik, x, y = (sym(n) for n in ("model", "likelihood", "x_train", "y_train"))
    ev = o.events
    if o.dead:
        ctx.ob("training", label, BAD, w, f"training fails: {sorted({e.exc for e in o.exits})}")
        return
    back = [i for i, e in enumerate(ev) if e.name == ".backward"]
    ctx.require("step", f"{label}: one back-propagation per iteration", True if len(back) == 1 and len(ev[back[0]].loops) == 1 else
                (False if not back else None), w, f"{len(back)} calls of backward")
    if len(back) != 1 or len(ev[back[0]].loops) != 1:
        return
    b = back[0]
    loops = ev[b].loops
    D = N.nf(loops[0][0])
    ctx.equal("iterations", f"{label}: number of iterations", D, N.nf(iters), w)
    ctx.require("iterations", f"{label}: every iteration trains", not [g for g in ev[b].guard if g is not TRUE] or None, w, "only under a condition")
    early = [f for f in ctx.I.stops for c in f if any(t.op == "apply" for t in subterms(N.nf(c)))]
    ctx.require("iterations", f"{label}: no iteration is left out", not early, w, "the iterations end early, depending on the loss")
    loss = N.nf(ev[b].recv)
    # what is differentiated
    want = []
    for e in ev:
        if e.name.endswith("ExactMarginalLogLikelihood"):
            got = list(e.args) + [e.kw[n] for n in ("likelihood", "model") if n in e.kw]
            ctx.require("loss", f"{label}: the marginal likelihood of this model and likelihood", [N.nf(a) for a in got[:2]] == [lik, model], w,
                        f"made from {[C.short(N.nf(a)) for a in got]}")
            out = mk("apply", model, x)
            want.append(mk("mul", const(-1), mk("apply", N.nf(e.result if e.result is not None else mk("call", e.name, *e.args)), out, y)))
    ctx.require("loss", f"{label}: uses the exact marginal log likelihood", True if want else None, w)
    if want:
        cmp = C.Cmp(calls={"gpytorch.mlls.ExactMarginalLogLikelihood"}, extra={"apply"}, lams=True)
        ctx.equal("loss", f"{label}: minus the marginal likelihood of the training targets", loss, [N.nf(t) for t in want], w, cmp)
    # the model is evaluated anew in every iteration, in training mode
    uses = [i for i, e in enumerate(ev) if e.name == "apply" and e.recv is not None and N.nf(e.recv) is model and i < b]
    ctx.require("anew", f"{label}: the model is evaluated in every iteration", bool(uses and ev[uses[-1]].loops) if uses else None, w,
                "the model is evaluated once, before the iterations")
    if uses:
        for nm, obj in (("model", model), ("likelihood", lik)):
            md = mode(ev, uses[0], obj)
            later = [e for e in ev[uses[0]:] if e.recv is not None and N.nf(e.recv) is obj and e.name in (".eval",) and e.loops]
            ctx.require("mode", f"{label}: the {nm} is in training mode", md == "train" and not later, w,
                        f"the {nm} is {'in evaluation mode' if md == 'eval' or later else 'not switched to training mode'} while training")
    # optimiser
    opt = [e for e in ev if any(N.nf(a) is not None and N.nf(a).op == "mcall" and N.nf(a).args[1] == "parameters" for a in list(e.args) + list(e.kw.values()))
           and e.name != ".parameters" and (e.name == "apply" or ".optim" in e.name)]
    ctx.require("optimiser", f"{label}: one optimiser of the parameters", True if len(opt) == 1 else None, w, f"{len(opt)} found")
    if len(opt) != 1:
        return
    op = opt[0]
    ps = N.nf(op.args[0] if op.args else op.kw.get("params"))
    ctx.require("optimiser", f"{label}: optimises the parameters of the model", ps.args[0] is model and len(ps.args) == 2, w, f"optimises {C.short(ps)}")
    lr = op.kw.get("lr") if "lr" in op.kw else (op.args[1] if len(op.args) > 1 else None)
    if lr is None:
        ctx.ob("optimiser", f"{label}: learning rate", BAD if given else UNDECIDED, w, "the learning rate is not passed on")
    else:
        ctx.equal("optimiser", f"{label}: learning rate", N.nf(lr), N.nf(rate), w)
    if given:
        ctx.require("optimiser", f"{label}: is of the given kind", op.recv is not None and N.nf(op.recv) is sym("optimizer"), w, "another optimiser is made")
    ctx.require("optimiser", f"{label}: is made once", not op.loops, w, "a new optimiser is made in every iteration")
    it = N.nf(op.result) if op.result is not None else None
    mine = [(i, e) for i, e in enumerate(ev) if e.recv is not None and (it is None or N.nf(e.recv) is it) and e.name in (".zero_grad", ".step")]
    zeros = [i for i, e in enumerate(ev) if e.name == ".zero_grad" and e.recv is not None and N.nf(e.recv) in (it, model) and e.loops and not e.guard]
    steps = [i for i, e in mine if e.name == ".step" and e.loops and not e.guard]
    conditional = [e for i, e in mine if e.guard]
    for n, done in ((".step", "step"), (".zero_grad", "clearing of the gradients")):
        es = [e for i, e in mine if e.name == n]
        if len(es) == 1 and some_rounds(es[0]):
            ctx.ob("step", f"{label}: {done} in every iteration", BAD, w, "only in some of the iterations: when " + " and ".join(C.short(g) for g in es[0].guard))
    ctx.require("step", f"{label}: the optimiser steps once in every iteration", len(steps) == 1 if not conditional else None, w,
                f"{len(steps)} steps per iteration")
    ctx.require("step", f"{label}: the gradients are cleared in every iteration", bool(zeros) if not conditional else None, w, "gradients add up over the iterations")
    if len(steps) == 1:
        s = steps[0]
        ctx.require("step", f"{label}: the step follows the back-propagation", s > b, w, "the optimiser steps before the gradients are known")
        wiped = [z for z in zeros if b < z < s]
        ctx.require("step", f"{label}: the gradients are not cleared before the step", not wiped, w, "gradients are cleared between back-propagation and step")
    off = [c for c in ctx_names(ev[b]) + (ctx_names(ev[uses[-1]]) if uses else []) if "no_grad" in c or "inference_mode" in c]
    ctx.require("step", f"{label}: gradients are recorded", not off, w, "the loss is computed without gradients")
    v = o.state.heap[X.t.cid].attrs.get("model")
    ctx.require("kept", f"{label}: the trained model is kept", v is not None and N.nf(ctx.I.tm(v, o.state)) is model, w, "the trained model is not stored")


def some_rounds(e):
    """Whether the event happens only in rounds picked by their number."""
    if not e.guard or len(e.loops) != 1:
        return False
    k = e.loops[0][1]
    gs = [N.nf(g) for g in e.guard]
    return any(k in subterms(g) and g.op in ("eq", "not") and not any(x.op in ("mcall", "call", "apply", "attr") for x in subterms(g)) for g in gs)


def retrained(ctx, X, w):
    """Training again replaces the model that is kept."""
    t = X.trained()
    st = t.state.copy()
    m = ctx.W.param(st, "second model")
    kw = {"model": m, **{n: ctx.W.param(st, n) for n in ("likelihood", "x_train", "y_train")}}
    o = X.call("train", kw, st)
    if o.dead:
        ctx.ob("kept", "a second training", BAD, w, f"fails: {sorted({e.exc for e in o.exits})}")
        return
    v = o.state.heap[X.t.cid].attrs.get("model")
    got, again = None if v is None else N.nf(ctx.I.tm(v, o.state)), N.nf(ctx.I.tm(m, st))
    ctx.require("kept", "after a second training: its model is kept", True if got is again else (None if got is not None and got.op not in ("sym", "ite", "param", "attr") else False), w,
                f"kept: {C.short(got) if got is not None else 'nothing'}")


def ctx_names(e):
    return [str(c) for c in (e.ctx or ())]


def predicted(ctx, o, w):
    model, lik, x = (sym(n) for n in ("model", "likelihood", "x_test"))
    ev = o.events
    if o.dead:
        ctx.ob("prediction", "predict", BAD, w, f"prediction fails: {sorted({e.exc for e in o.exits})}")
        return
    cmp = C.Cmp(extra={"apply"}, lams=True)
    latent = mk("apply", model, x)
    ctx.equal("prediction", "the prediction is the likelihood of the model at the test points", o.term, mk("apply", lik, latent), w, cmp,
              wrong=[("the noise of the likelihood is left out", latent)])
    uses = [i for i, e in enumerate(ev) if e.name == "apply" and e.recv is not None and N.nf(e.recv) in (model, lik)]
    ctx.require("prediction", "model and likelihood are evaluated", bool(uses) or None, w)
    for i in uses:
        e = ev[i]
        nm = "model" if N.nf(e.recv) is model else "likelihood"
        quiet = [c for c in ctx_names(e) if "no_grad" in c or "inference_mode" in c]
        ctx.require("gradients", f"the {nm} is evaluated without gradients", bool(quiet), w, "gradients are recorded")
        for n2, obj in (("model", model), ("likelihood", lik)):
            md = mode(ev, i, obj)
            ctx.require("mode", f"{n2} in evaluation mode when the {nm} is evaluated", md == "eval", w,
                        f"the {n2} is {'in training mode' if md == 'train' else 'not switched to evaluation mode'}")
    bad = [e for e in ev if e.name in (".backward", ".step", ".zero_grad")]
    ctx.require("effects", "prediction changes no parameter", not bad, w, f"calls {bad[0].name if bad else ''}")
    ctx.clean("effects", "prediction changes neither trainer nor data", o, w, roots=("param", "state", "default", "global"),
              allow=[lambda e: tuple(e.root[:2]) in (("param", "model"), ("param", "likelihood"))])


# ------------------------------------------------------------------ C33
def rebuilt(ctx):
    X = Trainer(ctx)
    W = ctx.W
    t = X.trained()
    if t.dead:
        raise AnchorLost("HodgeGPTrainer.train")
    st = t.state
    st.facts = ()
    w = X.where("get_model_parameters")
    with guarded(ctx, "reported", "get_model_parameters", w):
        o = X.call("get_model_parameters", {}, st)
        want = ctx.spec("gp", "parameters", X.model, st=st)
        got = items(ctx, o.value, o.state)
        ref = {cval(x.args[0]): x.args[1] for x in N.nf(want).args} if N.nf(want).op == "dict" else None
        if got is None or ref is None:
            ctx.equal("reported", "parameters", o.term, want, w, cmp_gp())
        else:
            for n in ref:
                if n not in got:
                    ctx.ob("reported", n, BAD, w, "is not reported")
                else:
                    ctx.equal("reported", n, got[n], ref[n], w, cmp_gp())
    w = X.where("build_matern_kernel")
    with guarded(ctx, "rebuilt", "build_matern_kernel", w):
        o = X.call("build_matern_kernel", {}, st)
        K = ctx.spec("gp", "rebuilt", X.model, X.X.sc, st=st)
        got = o.term
        if got.op not in ("tuple", "list") or len(got.args) != 2:
            ctx.ob("rebuilt", "build_matern_kernel", UNDECIDED, w, "does not return covariance and variance")
            return
        ctx.equal("rebuilt", "covariance", atoms(spread(got.args[0])), atoms(spread(K)), w, cmp_gp())
        v = N.nf(spread(ctx.spec("gp", "variance", K, st=st)))
        same = [x for x in subterms(v) if x.op == "call" and x.args[0] == "numpy.isclose"]
        known = [(x, "the variance is constant") for x in same] + [(spread(K), "K"), (spread(got.args[0]), "K")]
        ctx.equal("rebuilt", "variance", atoms(spread(got.args[1]), *known), atoms(v, *known), w, cmp_gp())


def items(ctx, v, st):
    if isinstance(v, Ref) and st.heap[v.cid].kind == "dict" and st.heap[v.cid].items is not None:
        d = {}
        for k, x in st.heap[v.cid].items.items():
            if not (isinstance(k, T) and is_const(k)):
                return None
            d[cval(k)] = ctx.I.tm(x, st)
        return d
    return None


# ------------------------------------------------------------------ C44
def model(ctx):
    W, I = ctx.W, ctx.I
    cls = W.get("hogde_gp.exact_gp", "ExactGPModel")
    I.tensors = True
    w = ctx.method_where(cls, "__init__")
    for label, extra, zero in (("no mean given", {}, False), ("mean_function=None", {"mean_function": NONE}, False),
                               ("another mean_function", {"mean_function": uniq("mean")}, False), ("mean_function='zero'", {"mean_function": const("zero")}, True)):
        with guarded(ctx, "model", label, w):
            st = W.base()
            ps = {n: W.param(st, n) for n in ("train_x", "train_y", "likelihood", "kernel", "x")}
            x = ps.pop("x")
            o = W.call(cls, [], {**ps, **extra}, st)
            if o.dead or not isinstance(o.value, Ref):
                ctx.ob("model", label, BAD, w, "cannot be constructed")
                continue
            sup = [e for e in o.events if e.name == "super.__init__"]
            got = [N.nf(a) for a in sup[0].args] + [N.nf(sup[0].kw[n]) for n in ("train_inputs", "train_targets", "likelihood") if n in sup[0].kw] if sup else []
            ctx.require("data", f"{label}: conditions on the training data under the likelihood",
                        got == [sym("train_x"), sym("train_y"), sym("likelihood")] if sup else False, w, f"initialised with {[C.short(g) for g in got]}")
            f = W.meth(o.value, "forward", [x], {}, o.state)
            mean = mk("call", "gpytorch.means.ZeroMean" if zero else "gpytorch.means.ConstantMean")
            other = mk("call", "gpytorch.means.ConstantMean" if zero else "gpytorch.means.ZeroMean")
            scale = [e for e in o.events if e.name.endswith("kernels.ScaleKernel")]
            ctx.require("scale", f"{label}: one output scale", True if len(scale) == 1 else None, w, f"{len(scale)} found")
            if len(scale) != 1:
                continue
            e = scale[0]
            base = e.args[0] if e.args else e.kw.get("base_kernel")
            ctx.require("scale", f"{label}: scales the given kernel", base is not None and N.nf(base) is sym("kernel"), w, "scales something else")
            c = e.kw.get("outputscale_constraint", e.args[2] if len(e.args) > 2 else None)
            ctx.require("scale", f"{label}: the output scale is positive", True if c is None or c is NONE else positive(N.nf(c)), w, "is not constrained to positive values")
            k = N.nf(e.result) if e.result is not None else mk("call", e.name, *e.args, *[mk("kw", n, v) for n, v in sorted(e.kw.items())])
            want = mk("call", "gpytorch.distributions.MultivariateNormal", mk("apply", mean, sym("x")), mk("apply", k, sym("x")))
            cmp = C.Cmp(calls={"gpytorch.distributions.MultivariateNormal", "gpytorch.means.ZeroMean", "gpytorch.means.ConstantMean",
                               "gpytorch.kernels.ScaleKernel"} | POSITIVE, extra={"apply"}, lams=True)
            named = ((mk("apply", mean, sym("x")), "required mean"), (mk("apply", other, sym("x")), "other mean"),
                     (mk("mcall", k, "base_kernel", sym("x")), "covariance without scale"))
            ctx.equal("prior", f"{label}: normal with this mean and the scaled kernel at the inputs", atoms(f.term, *named), atoms(want, *named),
                      ctx.method_where(cls, "forward"), cmp,
                      wrong=[("the output scale is left out", mk("call", "gpytorch.distributions.MultivariateNormal", sym("required mean"), sym("covariance without scale")))])


# ------------------------------------------------------------------ C46
PLACED = {"add", "mul", "pow", "div", "matmul", "exp", "log", "abs", "sqrt", "tr", "neg", "cast", "asarr", "copyof", "round", "red", "diagm", "diagof", "select",
          "maxof", "minof", "csr", "dense", "squeeze", "reshape", "flat"}


def device(t, dev):
    """Is the tensor t held by the device dev? None: undecided."""
    if t.op == "ondev":
        return True if t.args[1] is dev else False if is_const(t.args[1]) else None
    if t.op == "idx":
        return device(t.args[0], dev)
    if t.op == "ite":
        a, b = device(t.args[1], dev), device(t.args[2], dev)
        return a if a is b else None
    if not any(x.op == "ondev" or x is dev for x in subterms(t)):
        # values computed from the complex and the data alone, in the memory of the host
        return is_const(dev, "cpu") if not any(x.op in ("call", "mcall", "attr", "phi") and hostless(x) for x in subterms(t)) else None
    if t.op in PLACED:
        parts_ = [device(x, dev) for x in t.args if isinstance(x, T) and not shapes.isscalar(x) and not is_const(x)]
        parts_ = [p for p in parts_ if p is not True] if any(p is True for p in parts_) else parts_
        return True if not parts_ else None
    return None


def hostless(x):
    while x.op == "attr":
        x = x.args[0]
    return not (x.op == "call" and C.cname(x.args[0]) in HOST)


HOST = {"numpy.finfo", "numpy.unique", "sklearn.model_selection.train_test_split"}


def devices(ctx):
    W = ctx.W
    ctx.W.I.devices = True
    X = Trainer(ctx)
    cases = (("get_laplacians", ("Hodge", "lower", "upper"), {}), ("get_incidence_matrices", ("B1", "B2"), {}),
             ("get_eigenpairs", [f"{c} {v}" for v in ("vectors", "values") for c in ("harmonic", "gradient", "curl")], {}),
             ("train_test_split", ("training inputs", "training targets", "test inputs", "test targets", "all inputs", "all targets"), {}),
             ("train_test_split", ("training inputs", "training targets", "test inputs", "test targets", "all inputs", "all targets"), {"data_normalization": TRUE}))
    for label, given in (("the given device", True), ("no device given", False)):
        st0 = X.X.st.copy()
        y = W.parr(st0, "y", (W.nE,))
        d = W.param(st0, "output_device") if given else const("cpu")
        o = W.call(X.cls, [], {"sc": X.X.sc, "y": y, **({"output_device": d} if given else {})}, st0)
        dev = sym("output_device") if given else d
        if o.dead or not isinstance(o.value, Ref):
            raise AnchorLost("HodgeGPTrainer cannot be constructed")
        for meth, names, kw in cases:
            w = X.where(meth)
            what = meth + (" normalised" if kw else "")
            with guarded(ctx, "device", f"{what}, {label}", w):
                r = W.meth(o.value, meth, [], dict(kw), o.state.copy())
                t = r.term
                if t.op not in ("tuple", "list") or len(t.args) != len(names):
                    ctx.ob("device", f"{what}, {label}", UNDECIDED, w, "results are not listed")
                    continue
                for n, x in zip(names, t.args):
                    ok = device(N.nf(x), dev)
                    ctx.require("device", f"{what}, {label}: {n}", ok, w, f"is {C.short(N.nf(x))}, which is not moved to {C.short(dev)}")
