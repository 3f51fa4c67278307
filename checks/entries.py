"""Every public entry point of the package, with abstract arguments."""
from __future__ import annotations

import ast

from .util import *

SHAPED = {"flow", "true_signal", "y"}


def text(a):
    return ast.unparse(a) if a is not None else ""


class Entries:
    def __init__(self, ctx):
        self.ctx, self.W = ctx, ctx.W
        self.X = Complex(ctx)
        self.skipped = []

    # ------------------------------------------------------------ values
    def value(self, st, fn, p, ann):
        """An abstract argument: containers are objects of the caller, the rest is symbolic."""
        W = self.W
        low = ann.lower()
        if p in ("sc", "simplicial_complex") or "SimplicialComplex" in ann:
            return self.X.sc
        if p in ("eigenpairs",):
            items = []
            for n in ("u_h", "u_g", "u_c", "lambda_h", "lambda_g", "lambda_c"):
                items.append(W.parr(st, f"eigenpairs: {n}", (W.nE, sym("n" + n[-1])) if n[0] == "u" else (sym("n" + n[-1]),)))
            return W.I.alloc(st, "list", items=items, origin=("param", p))
        if p in SHAPED:
            return W.parr(st, p, (W.nE,))
        if p == "B1":
            return W.parr(st, p, (W.nV, W.nE))
        if p == "B2":
            return W.parr(st, p, (W.nE, W.nT))
        if p.endswith("lap_mat") or p in ("laplacian_matrix", "p_matrix", "matrix", "D_lap", "operator"):
            return W.parr(st, p, (W.nE, W.nE))
        if "coordinates" in p or p.endswith(("labels", "features", "dict")) or low.startswith("dict") or p == "edge_flow":
            return W.pdict(st, p)
        if p in ("nodes", "edges", "triangles", "simplex") or low.startswith(("list", "iterable", "tuple", "sequence")) or p.endswith(("indices", "_cols")):
            N.ELEMENT.update({sym("edges"): 2, sym("triangles"): 3})
            return W.plist(st, p)
        if low in ("int", "float", "str", "bool") or low.startswith(("optional[int", "optional[float", "optional[str", "optional[bool")):
            s = sym(p)
            if low != "str":
                shapes.REPS[s] = "scalar"
                shapes.SHAPES[s] = ()
            return s
        if "ndarray" in low or "tensor" in low or "matrix" in low:
            n = sym("size of " + p)
            return W.parr(st, p, (n,) if "matrix" not in low else (n, sym("columns of " + p)))
        if p == "df" or "dataframe" in low:
            return W.param(st, p)
        if p in ("ax", "model", "likelihood", "kernel"):
            return W.param(st, p)
        if p in ("L", "L1", "L2", "p", "seed", "alpha", "tolerance", "dataset", "component"):
            return sym(p)
        # options without a declared type may be arrays
        return W.param(st, p)

    def fill(self, st, fn, skip, full, over=None):
        """{name: value}: the required parameters, or all of them."""
        a = fn.node.args
        ps = (a.posonlyargs + a.args)[skip:]
        opt = len(a.defaults)
        out = {}
        for i, q in enumerate(ps):
            if i >= len(ps) - opt and not full:
                continue
            out[q.arg] = self.value(st, fn, q.arg, text(q.annotation))
        for q, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None or full:
                out[q.arg] = self.value(st, fn, q.arg, text(q.annotation))
        out.update(over or {})
        return out

    # ------------------------------------------------------------ instances
    def instance(self, cls, full=False):
        """(value, state) of an object of the class."""
        W = self.W
        init, _ = cls.lookup("__init__")
        st = self.X.st.copy()
        if init is None:
            o = W.call(cls, [], {}, st)
        else:
            o = W.call(cls, [], self.fill(st, init, 1, full), st)
        return o

    def classes(self):
        for m in sorted(self.W.P.modules):
            if not m.startswith("pytspl"):
                continue
            env = self.W.I.module(m)
            for n, v in sorted(env.items(), key=lambda x: x[0]):
                if isinstance(v, ClassV) and not n.startswith("_") and getattr(v, "module", m) == m and not v.is_enum:
                    yield m, n, v

    def functions(self):
        for m in sorted(self.W.P.modules):
            if not m.startswith("pytspl"):
                continue
            env = self.W.I.module(m)
            for n, v in sorted(env.items(), key=lambda x: x[0]):
                if isinstance(v, FuncV) and not n.startswith("_") and v.module == m:
                    yield m, n, v

    def runs(self, want=None):
        """(label, where, parameters, outcome thunk) of every public entry point.

        A thunk gives the outcome of the call on a fresh object whose inputs
        are the caller's; `params` names the arguments of the caller.
        """
        W = self.W
        for m, n, f in self.functions():
            if want and not want(m, None, n):
                continue
            for full in (False, True):
                if full and not (f.node.args.defaults or f.node.args.kwonlyargs):
                    continue

                def go(f=f, full=full):
                    st = self.X.st.copy()
                    return W.call(f, [], self.fill(st, f, 0, full), st)
                yield f"{n}{' with options' if full else ''}", self.ctx.where(f), go
        for m, n, c in self.classes():
            if want and not want(m, n, None):
                continue
            w = self.ctx.where(c)
            for full in (False, True):
                yield f"{n}(){' with options' if full else ''}", w, lambda c=c, full=full: self.instance(c, full)
            made = {}

            def obj(c=c, made=made):
                if "o" not in made:
                    made["o"] = self.instance(c, True)
                o = made["o"]
                if o.dead or not isinstance(o.value, Ref):
                    raise AnchorLost(f"{c.name} cannot be constructed")
                return o.value, o.state
            seen = set()
            for k in c.mro() if hasattr(c, "mro") else [c]:
                for name, v, f in public_methods(k):
                    if name in seen:
                        continue
                    seen.add(name)
                    yield from self.method(c, n, name, v, f, obj)

    def sequences(self, want=None):
        """Every method on an object on which another one has run before."""
        W = self.W
        for m, n, c in self.classes():
            if want and not want(m, n, None) or c is self.X.cls:
                continue
            ms = [(name, v, f) for name, v, f in public_methods(c) if not isinstance(v, (PropV, StaticV))]
            first = {}
            for name, v, f in ms:
                def go(name=name, f=f, c=c, first=first):
                    o = self.instance(c, True)
                    if o.dead or not isinstance(o.value, Ref):
                        return
                    o1 = W.meth(o.value, name, [], self.fill(o.state, f, 1, True), o.state)
                    if not o1.dead:
                        o1.state.facts = ()
                        first[name] = (o.value, o1.state)
                try:
                    go()
                except Exception:      # noqa: BLE001 - reported where the method is run alone
                    continue
            for a, (r, st) in first.items():
                for name, v, f in ms:
                    for full in (False, True):
                        if full and not f.node.args.defaults:
                            continue

                        def go2(r=r, st=st, name=name, f=f, full=full):
                            s = st.copy()
                            kw = self.fill(s, f, 1, full)
                            return W.meth(r, name, [], kw, s)
                        yield f"{n}.{name}{' with options' if full else ''} after {a}", self.ctx.where(f), go2

    def method(self, c, n, name, v, f, obj):
        W = self.W
        w = self.ctx.where(f)
        if isinstance(v, PropV):
            def get():
                r, st = obj()
                return W.prop(r, name, st)
            yield f"{n}.{name}", w, get
            if v.fset is not None:
                def put():
                    r, st = obj()
                    st = st.copy()
                    return W.call(v.fset, [r, W.param(st, "value")], {}, st)
                yield f"{n}.{name} = value", w, put
            return
        skip = 0 if "static" in f.flags or isinstance(v, StaticV) and v.kind == "static" else 1
        extra = f.node.args.kwarg
        for full in (False, True):
            if full and not (f.node.args.defaults or f.node.args.kwonlyargs or extra):
                continue

            def go(full=full):
                r, st = obj()
                st = st.copy()
                kw = self.fill(st, f, skip, full)
                return W.meth(r, name, [], kw, st)
            yield f"{n}.{name}{' with options' if full else ''}", w, go


def origin(o):
    return " ".join(map(str, o))


# objects that are passed to be changed
TRAINED = {("param", "model"), ("param", "likelihood"), ("param", "optimizer")}
DRAWN_ON = {("param", "ax")}


def all_runs(ctx, rule, judge, want=None, pairs=True):
    """judge(label, where, outcome) on every entry point, then on every method after every other one."""
    E = Entries(ctx)
    n = 0
    for label, w, go in E.runs(want):
        with guarded(ctx, rule, label, w):
            o = go()
            n += 1
            judge(label, w, o)
    if pairs:
        for label, w, go in E.sequences(want):
            with guarded(ctx, rule, label, w):
                o = go()
                if o is not None:
                    n += 1
                    judge(label, w, o)
    ctx.notes.append(f"{n} calls analysed")
    return n


def culprit(e):
    return " > ".join(x.split(":")[-1] for x in e.stack)


# ------------------------------------------------------------------ C25
def inputs(ctx):
    def judge(label, w, o):
        bad = [e for e in o.effects if e.root[0] in ("param", "state", "default") and tuple(e.root[:2]) not in TRAINED | DRAWN_ON]
        if bad:
            e = bad[0]
            what = origin(e.root[1:]) if e.root[0] == "param" else f"the {e.root[0]} {origin(e.root[1:])}"
            ctx.ob("argument", f"{label.split(' after ')[0].replace(' with options', '')} changes {what}", BAD, f"{e.loc[0]}:{e.loc[1]}", f"{e.what} in {culprit(e)}")
        else:
            ctx.ob("argument", label, OK, w)
    all_runs(ctx, "argument", judge)


# ------------------------------------------------------------------ C26
DISK = ("os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.truncate", "os.chmod",
        "os.symlink", "os.link", "os.system", "os.popen", "shutil.", "subprocess.", "tempfile.mkdtemp", "tempfile.mkstemp",
        "numpy.save", "numpy.savetxt", "numpy.savez", "numpy.savez_compressed", "numpy.memmap", "scipy.io.savemat", "scipy.sparse.save_npz",
        "pickle.dump", "json.dump", "joblib.dump", "torch.save", "matplotlib.pyplot.savefig", "networkx.write_")
GLOBAL = ("os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.kill", "os.environ.", "sys.setrecursionlimit", "sys.path.", "sys.exit",
          "sys.setswitchinterval", "sys.modules.", "signal.", "locale.setlocale", "logging.basicConfig", "logging.disable", "atexit.register", "gc.disable", "gc.set_",
          "socket.setdefaulttimeout", "builtins.setattr",
          "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "warnings.filters.",
          "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate",
          "pandas.set_option", "pandas.reset_option", "pandas.options.",
          "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.rcParams.", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcParams.", "matplotlib.pyplot.rcdefaults",
          "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff",
          "matplotlib.pyplot.set_cmap", "matplotlib.pyplot.jet", "matplotlib.pyplot.viridis", "matplotlib.pyplot.xkcd", "matplotlib.pyplot.set_loglevel",
          "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_default_device", "torch.manual_seed", "torch.random.manual_seed", "torch.cuda.manual_seed",
          "torch.set_num_threads", "torch.set_printoptions", "torch.use_deterministic_algorithms",
          "torch.set_flush_denormal", "decimal.getcontext", "decimal.setcontext")
WRITES = {".to_csv", ".to_pickle", ".to_json", ".to_excel", ".to_parquet", ".to_hdf", ".savefig", ".tofile", ".write_text", ".write_bytes", ".unlink", ".mkdir",
          ".rmdir", ".touch", ".rename_file"}
# a setting is put back at the end of these blocks
RESTORED = {"warnings.": ("warnings.catch_warnings",), "numpy.seterr": ("numpy.errstate",), "numpy.set_printoptions": ("numpy.printoptions",),
            "matplotlib.": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context"),
            "pandas.": ("pandas.option_context",), "torch.set_grad": ("torch.no_grad", "torch.enable_grad", "torch.set_grad_enabled"), "random.": (), "gpytorch.": ()}
# used as blocks these restore what they set
BLOCKS = ("gpytorch.settings.", "linear_operator.settings.", "torch.set_grad_enabled", "torch.autograd.set_detect_anomaly")


def startswith(name, pre):
    return any(name == p or p.endswith((".", "_")) and name.startswith(p) or name.startswith(p + ".") for p in pre)


def lasting(e):
    """What the event leaves behind in the process or on disk, or None."""
    name = str(e.name)
    for p in ("globalseed:", "globalrng:", "entropy:"):
        if name.startswith(p):
            return f"sets the global random state by {name[len(p):]}()" if p == "globalseed:" else None
    restored = any(name.replace("setitem:", "").replace("setattr:", "").startswith(k) and any(c in v for c in e.ctx) for k, v in RESTORED.items())
    if name in ("open", "builtins.open", "io.open", "gzip.open", "bz2.open", ".open"):
        i = 0 if name == ".open" else 1
        m = (e.kw or {}).get("mode") or (e.args[i] if len(e.args) > i else None)
        if m is None or not is_const(m) or not isinstance(cval(m), str):
            return None
        return f"opens a file with mode {cval(m)!r}" if set("wax+") & set(cval(m)) else None
    if name.startswith("setattr:"):
        return None if restored else f"sets {name[8:]}"
    if name.startswith("setitem:"):
        return None if restored else f"sets an entry of {name[8:]}"
    if startswith(name, BLOCKS):
        if name.endswith(("_set_value", "_set_state")):
            return f"calls {name}()"
        # making such a block without entering it changes nothing, except in torch
        return f"calls {name}()" if name.startswith("torch.") and "block" not in e.tags else None
    if startswith(name, GLOBAL):
        return None if restored else f"calls {name}()"
    if startswith(name, DISK) or name in WRITES:
        return f"calls {name.lstrip('.')}()"
    return None


def process(ctx):
    W = ctx.W

    def look(label, w, events, effects, globs=()):
        seen = set()
        for e in events:
            t = lasting(e)
            if t and t not in seen:
                seen.add(t)
                ctx.ob("outside", f"{label} {t}", BAD, f"{e.loc[0]}:{e.loc[1]}", "in " + (culprit(e) or "the module body"))
        for e in effects:
            if e.root[0] in ("global", "memo", "default"):
                t = f"keeps something in {origin(e.root[1:])}"
                if t not in seen:
                    seen.add(t)
                    ctx.ob("shared", f"{label} {t}", BAD, f"{e.loc[0]}:{e.loc[1]}", f"{e.what} in {culprit(e)}")
        for g in globs:
            ctx.ob("shared", f"{label} remembers its results in a cache", BAD, w, origin(g if isinstance(g, tuple) else (g,))[:200])
        if not seen and not globs:
            ctx.ob("outside", label, OK, w)

    for m, events, effects in W.I.imported:
        if m.startswith("pytspl"):
            mod = W.P.modules[m]
            look(f"importing {m}", mod.path, [e for e in events if not str(e.name).startswith("setattr:__")], effects)

    base = set(Entries(ctx).X.st.globs)

    def judge(label, w, o):
        short = label.split(" after ")[0].replace(" with options", "")
        new = [g for g in o.state.globs if g not in base] if o.state is not None else []
        look(label if not new else short, w, o.events, o.effects, new[:1])
    all_runs(ctx, "outside", judge)
