"""Checks of the drawings: what is drawn, where, and on which axes."""
from __future__ import annotations

from sa import drawn
from sa.models import kind_of

from .entries import Entries
from .util import *

P_MOD = "plot.plot"
NX_DRAW = "networkx.draw"
# pyplot functions that neither draw nor choose the current axes
HARMLESS = {"get_cmap", "Polygon", "Circle", "Rectangle", "Line2D", "Normalize", "show", "tight_layout", "gca", "gcf", "get_fignums", "colormaps",
            "rcParams", "rc_context", "ion", "ioff", "isinteractive", "style.use", "style.context", "close"}
NEW = {"figure", "subplots", "subplot_mosaic"}
CURRENT = {"plot", "scatter", "text", "annotate", "xlim", "ylim", "axis", "margins", "colorbar", "title", "suptitle", "fill", "bar", "clim", "sci", "xticks", "yticks",
           "xlabel", "ylabel", "axvline", "axhline", "arrow", "imshow", "tick_params", "box", "legend", "hist", "quiver", "fill_between"}
SETUP = {".set_xlim", ".set_ylim", ".get_xaxis", ".get_yaxis", ".set_ticks", ".axis", ".get_figure", ".get_size_inches", ".tick_params", ".set_zorder",
         ".set_xbound", ".set_ybound", ".set", ".set_xticks", ".set_yticks", ".autoscale", ".autoscale_view", ".set_axis_off", ".set_title", ".set_size_inches"}
DRAWS = {".scatter", ".text", ".annotate", ".add_patch", ".add_collection", ".plot", ".fill", ".colorbar", ".margins"}
MARGIN = {".set_xlim": 0, ".set_ylim": 1}


def tops(t):
    """The object a value belongs to: ax for ax.get_figure().colorbar(...)."""
    t = N.nf(t)
    while True:
        if t.op == "mcall" or t.op == "attr" or t.op == "idx":
            t = t.args[0]
        elif t.op == "ite" and tops(t.args[1]) is tops(t.args[2]):
            t = t.args[1]
        else:
            return t


def plain(t):
    """Without the marks that tell objects made at different moments apart."""
    t = N.nf(t)
    m = {x: sym("<made>") for x in subterms(t) if x.op == "rnd"}
    return N.nsubst(t, m) if m else t


def term(e, kw=None, args=True):
    """An event, with its loops, as one value."""
    parts = [const(str(e.name)), plain(e.recv) if e.recv is not None else NONE]
    parts += [plain(a) for a in e.args]
    parts += [mk("kw", k, plain(v)) for k, v in sorted(e.kw.items())]
    t = mk("tuple", *parts)
    for D, k in reversed(e.loops):
        t = mk("map", D, k, t, TRUE)
    return plain(t)


def over(e, *ts):
    """What an event inside a loop gets, for all rounds."""
    t = mk("tuple", *ts) if len(ts) > 1 else ts[0]
    for D, k in reversed(e.loops):
        t = mk("map", D, k, t, TRUE)
    return N.nf(t)


def arg(e, i, *names):
    for n in names:
        if n in e.kw:
            return e.kw[n]
    stars = [j for j, a in enumerate(e.args) if a.op == "star"]
    if i is not None and len(stars) == 1 and str(e.name) == ".text" and len(e.args) == 2 and not {"x", "y", "s"} & set(e.kw):
        # text(*point, label)
        j = stars[0]
        args = [*e.args[:j], *[mk("idx", e.args[j].args[0], const(q)) for q in (0, 1)], *e.args[j + 1:]]
        return args[i] if i < len(args) else None
    if i is not None and any(a.op == "star" for a in e.args[:i + 1]):
        return mk("call", "unpacked", *e.args)
    return e.args[i] if i is not None and i < len(e.args) else None


def cmp_draw():
    return C.Cmp(calls={"networkx.DiGraph", "networkx.Graph", "matplotlib.pyplot.get_cmap", "networkx.spring_layout"},
                 mcalls={"edges", "nodes", "add_edges_from", "add_nodes_from", "get_figure"}, extra={"rnd"})


class Drawing:
    def __init__(self, ctx):
        self.ctx, self.W = ctx, ctx.W
        self.I = ctx.W.I
        self.I.fresh_layouts = True
        self.X = Complex(ctx)
        self.cls = self.W.get(P_MOD, "SCPlot")
        W = self.W
        st = self.st0 = self.X.st.copy()
        self.nodes, self.edges, self.tris = (self.read(x, st) for x in ("nodes", "edges", "triangles"))
        N.ELEMENT.update({self.edges: 2, self.tris: 3, sym("drawn flow: keys"): 2, sym("coordinates"): 2,
                          **{mk("keys", sym(n)): 2 for n in ("edge_flow", "edge_labels")}})
        drawn.DISTINCT.update({self.nodes, self.edges})
        self.coordinates = sym("coordinates")
        self.ax = W.param(st, "ax")
        S.PRESENT.add(sym("ax"))
        self.flow = W.parr(st, "flow", (W.nE,))
        self.edge_flow = W.pdict(st, "edge_flow")
        self.labels = W.pdict(st, "edge_labels")
        self.I.numbers |= {sym("flow"), sym("edge_flow"), sym("edge_labels"), sym("colours")}
        N._memo.clear()
        self.made = {}
        for given in (True, False):
            s = st.copy()
            if given:
                co = W.pdict(s, "coordinates")
                o = W.call(self.cls, [self.X.sc, co], {}, s)
            else:
                o = W.call(self.cls, [self.X.sc], {}, s)
            W.mark_state(o.state, o.value, "plotter")
            self.made[given] = (o.value, o.state)

    def read(self, name, st):
        v = self.I.getattr(self.X.sc, name, st)
        return N.nf(self.I.tm(v, st))

    def option(self, name, st, value=None):
        """A value for an option: present, and of the kind documented."""
        if value is not None:
            return value
        s = sym("opt " + name)
        S.PRESENT.add(s)
        if name.endswith(("color", "colors", "weight")):
            return const("some " + name)
        if name in ("node_size", "font_size", "vmin", "vmax", "alpha", "edge_width", "arrowsize", "edge_vmin", "edge_vmax", "offset"):
            shapes.REPS[s] = "scalar"
            shapes.SHAPES[s] = ()
        return s

    def run(self, name, kw, given=True, ax=True, after=None):
        pl, st = self.made[given] if after is None else (self.made[given][0], after)
        kw = dict(kw)
        if ax:
            kw["ax"] = self.ax
        return self.W.meth(pl, name, [], kw, st.copy())

    def where(self, name):
        return self.ctx.method_where(self.cls, name)

    def usual(self):
        """Every layer and the whole network, with what they are usually given."""
        yield "nodes", "draw_sc_nodes", {"with_labels": TRUE}
        yield "nodes with numeric colours", "draw_sc_nodes", {"node_color": self.colours(), "with_labels": FALSE}
        yield "edges", "draw_sc_edges", {}
        yield "edges with a flow", "draw_sc_edges", {"edge_flow": self.edge_flow}
        yield "edge labels", "draw_edge_labels", {"edge_labels": self.labels}
        yield "network", "draw_network", {}
        yield "network with a flow array", "draw_network", {"edge_flow": self.flow}
        yield "network with a flow dictionary", "draw_network", {"edge_flow": self.edge_flow}

    def colours(self):
        for given in (True, False):
            st = self.made[given][1]
            r = self.W.plist(st, "colours")
        return self.both("colours", "plist")

    def both(self, name, how):
        """The same caller object in both prepared states."""
        key = ("both", name)
        if key not in self.__dict__:
            st = self.made[True][1]
            r = getattr(self.W, how)(st, name)
            self.made[False][1].heap[r.cid] = st.heap[r.cid]
            self.__dict__[key] = r
        return self.__dict__[key]


# ------------------------------------------------------------------ C34
def events_on_axes(ctx, D, o, what, w, ax, own):
    """Every drawing event of a call belongs to ax."""
    n = 0
    made = set()
    for e in o.events:
        name = str(e.name)
        loc = f"{e.loc[0]}:{e.loc[1]}"
        if name.startswith("matplotlib.pyplot."):
            short = name.split(".", 2)[2]
            if short in NEW or short in ("axes", "subplot", "sca", "subplot2grid"):
                n += 1
                ctx.ob("axes", f"{what}: {short}", BAD, loc, "makes or chooses other axes")
            elif short in ("clf", "cla", "close", "delaxes") and own:
                ctx.ob("axes", f"{what}: plt.{short}", BAD, loc, "removes what has been drawn before, on whatever is current")
            elif short in CURRENT:
                n += 1
                ctx.ob("axes", f"{what}: plt.{short}", OK if not own else BAD, loc, "" if not own else "draws on whatever axes are current")
            continue
        if name.startswith(NX_DRAW):
            n += 1
            a = e.kw.get("ax")
            if a is None:
                ctx.ob("axes", f"{what}: {name.split('.')[-1]}", OK if not own else BAD, loc, "" if not own else "the axes are not handed on")
            else:
                same(ctx, f"{what}: {name.split('.')[-1]}", a, ax, loc)
            continue
        if e.recv is None or not name.startswith("."):
            continue
        if name in (".clear", ".cla", ".clf") and tops(e.recv) is ax:
            ctx.ob("axes", f"{what}: {name[1:]}", BAD, loc, "removes what has been drawn before, such as the layers underneath")
        if name not in DRAWS | SETUP and "matplotlib" not in C.short(e.recv):
            continue
        n += 1
        if name == ".colorbar":
            a = e.kw.get("ax", e.args[2] if len(e.args) > 2 else e.kw.get("cax"))
            if a is None:
                ctx.ob("axes", f"{what}: colour bar", BAD if own else OK, loc, "the colour bar takes its space from whatever axes are current")
                continue
            if a.op in ("list", "tuple") and len(a.args) == 1:
                a = a.args[0]
            same(ctx, f"{what}: colour bar", a, ax, loc)
        same(ctx, f"{what}: {name[1:]}", e.recv, ax, loc)
    return n


def root_verdict(t, ax):
    r = tops(t)
    if r is ax:
        return OK
    if r.op == "call" and r.args[0].startswith("matplotlib.pyplot."):
        short = r.args[0].split(".", 2)[2]
        if short in ("gca", "gcf"):
            return OK if ax.op == "call" and ax.args[0] in ("matplotlib.pyplot.gca",) else BAD
        if short in NEW or short == "axes" or short == "subplot":
            return BAD
        return OK
    if r.op == "call":
        return OK               # a library object made on the way (a colour map, a graph)
    return UNDECIDED


def same(ctx, construct, t, ax, loc):
    v = root_verdict(t, ax)
    ctx.ob("axes", construct, v, loc, "" if v == OK else f"uses {C.short(tops(t))} instead of the axes given" if ax.op == "sym" else f"uses {C.short(tops(t))}")


def axes(ctx):
    D = Drawing(ctx)
    for given in (True, False):
        for what, name, kw in D.usual():
            w = D.where(name)
            tag = what + ("" if given else ", generated layout")
            with guarded(ctx, "axes", tag, w):
                o = D.run(name, kw, given)
                n = events_on_axes(ctx, D, o, tag, w, sym("ax"), True)
                ctx.require("axes drawn on", tag, n > 0 or None, w, "no drawing event was seen")
            with guarded(ctx, "current axes", tag, w):
                o = D.run(name, kw, given, ax=False)
                gca = next((x for e in o.events for x in subterms(e.recv or NONE) if x.op == "call" and x.args[0] == "matplotlib.pyplot.gca"), None)
                n = events_on_axes(ctx, D, o, tag + ", current axes", w, gca if gca is not None else sym("current"), False)
    figures(ctx, D)


COMPONENTS = (("gradient", "G"), ("curl", "C"), ("harmonic", "H"))


def subplot_of(t):
    """(figure, place) of the axes an object belongs to."""
    t = N.nf(t)
    while t.op in ("mcall", "attr", "idx"):
        if t.op == "mcall" and t.args[1] in ("add_subplot", "add_axes", "subplots", "add_gridspec", "gca"):
            return t
        if t.op == "idx" and t.args[0].op == "mcall" and t.args[0].args[1] == "subplots" and is_const(t.args[1]):
            return t
        if t.op == "idx" and t.args[0].op == "idx" and t.args[0].args[0].op == "call" and t.args[0].args[0].args[0] == "matplotlib.pyplot.subplots":
            return t
        t = t.args[0]
    return t if t.op == "call" else None


def place(t):
    """(rows, columns, position) of an axes object made by add_subplot, or its indices."""
    if t.op == "mcall" and t.args[1] == "gca":
        return (1, 1, 1)
    if t.op == "idx" and t.args[0].op == "mcall" and t.args[0].args[1] == "subplots":
        m = t.args[0]
        kw = {x.args[0]: x.args[1] for x in m.args[2:] if isinstance(x, T) and x.op == "kw"}
        a = [x for x in m.args[2:] if isinstance(x, T) and x.op not in ("kw", "rnd")]
        r, c = (a[i] if i < len(a) else kw.get(n, const(1)) for i, n in enumerate(("nrows", "ncols")))
        if all(is_const(x) and isinstance(cval(x), int) for x in (r, c, t.args[1])) and 1 in (cval(r), cval(c)):
            n, i = cval(r) * cval(c), cval(t.args[1])
            return (cval(r), cval(c), i + 1 if 0 <= i < n else n + 1 + i if -n <= i < 0 else "an index out of range")
        return None
    if t.op == "call" and t.args[0] == "matplotlib.pyplot.subplot":
        t = mk("mcall", const(0), "add_subplot", *t.args[1:])
    if t.op == "mcall" and t.args[1] == "add_subplot":
        a = [x for x in t.args[2:] if isinstance(x, T) and x.op not in ("kw", "rnd")]
        if len(a) == 1 and a[0].op == "const" and isinstance(cval(a[0]), int):
            n = cval(a[0])
            return (n // 100, n // 10 % 10, n % 10)
        if any(x.op == "idx" and x.args[0].op == "range" and all(y.op == "const" for y in x.args[0].args + (x.args[1],)) for x in a):
            return (0, 0, "an index out of range")
        if len(a) == 3 and all(x.op == "const" for x in a):
            return tuple(cval(x) for x in a)
        if not a:
            return (1, 1, 1)
    return None


def figure_of(t):
    while t.op in ("mcall", "attr", "idx"):
        t = t.args[0]
    return t


def figures(ctx, D):
    W, I = ctx.W, ctx.I
    flow = D.flow
    # the decomposition
    name = "draw_hodge_decomposition"
    w = D.where(name)

    def component(c, st, digits=2, rounded=TRUE):
        return W.meth(D.X.sc, "get_component_flow", [], {"flow": flow, "component": const(c), "round_fig": rounded, "round_sig_fig": const(digits)}, st.copy())

    for which, digits, rounded in [(c, d, r) for d, r in ((2, TRUE), (5, TRUE), (2, FALSE)) for c in (None, "gradient", "curl", "harmonic")]:
        tag = "decomposition" + (f", {which} alone" if which else "") + ("" if digits == 2 else f", {digits} digits") + ("" if rounded is TRUE else ", not rounded")
        with guarded(ctx, "figures", tag, w):
            kw = {"flow": flow}
            if digits != 2:
                kw["round_sig_fig"] = const(digits)
            if rounded is not TRUE:
                kw["round_fig"] = rounded
            if which:
                kw["component"] = const(which)
            o = D.run(name, kw, True, ax=False)
            want, others = {}, [sym("flow")]
            for c, letter in COMPONENTS:
                r = component(c, D.made[True][1], digits, rounded)
                if digits != 2 or rounded is not TRUE:
                    others.append(component(c, D.made[True][1]).term)
                if rounded is TRUE:
                    others.append(component(c, D.made[True][1], digits, FALSE).term)
                if which in (None, c):
                    want[letter] = r.term
                else:
                    others.append(r.term)
            panels(ctx, D, o, tag, w, {k: (v, rf"$\mathbf{{f_{{{k}}}}}$") for k, v in want.items()}, others, exact=True)
    name = "draw_eigenvectors"
    w = D.where(name)
    with guarded(ctx, "figures", "all eigenvectors", w):
        all_vectors(ctx, D, name, w)
    top = 12 if ctx.thorough else 7
    for c, letter in COMPONENTS:
        for n in (range(1, top + 1) if c == "gradient" else (1, 2, 4)):
            tag = f"{n} {c} eigenvectors"
            with guarded(ctx, "figures", tag, w):
                st = D.made[True][1]
                ids = [sym(f"index {i}") for i in range(n)]
                for x in ids:
                    shapes.REPS[x] = "scalar"
                    shapes.SHAPES[x] = ()
                s = st.copy()
                lst = I.alloc(s, "list", items=list(ids), origin=("param", "eigenvector_indices"))
                pr = W.meth(D.X.sc, "get_component_eigenpair", [], {"component": const(c)}, st.copy())
                U, vals = I.known_items(pr.value, pr.state)
                U, vals = I.tm(U, pr.state), I.tm(vals, pr.state)
                o = W.meth(D.made[True][0], name, [], {"component": const(c), "eigenvector_indices": lst}, s)
                want = {}
                for i, x in enumerate(ids):
                    col = ctx.spec("drawing", "column", U, x)
                    want[i] = (col, None)
                wrong = [ctx.spec("drawing", x, U, i) for x in ("column", "row") for i in [const(j) for j in range(n)] + ids if x == "row" or i.op == "const"]
                panels(ctx, D, o, tag, w, want, wrong)


def all_vectors(ctx, D, name, w):
    """Without indices every vector of the component is drawn."""
    W, I = ctx.W, ctx.I
    st = D.made[True][1]
    for c in ("gradient", "curl"):
        pr = W.meth(D.X.sc, "get_component_eigenpair", [], {"component": const(c)}, st.copy())
        U, vals = (I.tm(x, pr.state) for x in I.known_items(pr.value, pr.state))
        for tag, kw in (("no indices", {}), ("an empty list of indices", {"eigenvector_indices": []})):
            s = st.copy()
            kw = {n: I.alloc(s, "list", items=list(v)) for n, v in kw.items()}
            tag = f"all {c} eigenvectors, {tag}"
            o = W.meth(D.made[True][0], name, [], {"component": const(c), **kw}, s)
            if o.dead:
                ctx.ob("figures", tag, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                continue
            texts = [e for e in o.events if str(e.name) == ".text" and not is_node_label(D, e) and len(e.loops) == 2]
            if len(texts) != 1:
                ctx.ob("figures", tag, UNDECIDED, w, f"{len(texts)} label events")
                continue
            k = texts[0].loops[0][1]
            want = [mk("map", mk("len", vals), k, N.nf(ctx.spec("drawing", "labelled", D.edges, x)), TRUE)
                    for x in forms(ctx, (ctx.spec("drawing", "column", U, k), None)[0])]
            ctx.equal("figures", f"{tag}: each with its own labels", over(texts[0], arg(texts[0], 2, "s")), want, w, C.Cmp())


def panels(ctx, D, o, tag, w, want, wrong=(), exact=False):
    """Each wanted flow on a subplot of its own of one new figure."""
    figs = [e for e in o.events if str(e.name) in ("matplotlib.pyplot.figure", "matplotlib.pyplot.subplots", "matplotlib.figure.Figure")]
    if o.dead:
        ctx.ob("figures", tag, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
        return
    if len(figs) != 1:
        ctx.ob("figures", tag + ": one new figure", BAD if not figs and not any("matplotlib" in str(e.name) and "igure" in str(e.name) for e in o.events) else UNDECIDED, w, f"{len(figs)} figures are made")
        return
    f = figs[0]
    number = arg(f, 0, "num") if str(f.name).endswith(".figure") else f.kw.get("num")
    ctx.require("figures", tag + ": a new figure", True if number is None or number is NONE else False, f"{f.loc[0]}:{f.loc[1]}",
                "an existing figure of this number is drawn over" if number is not None else "")
    groups = {}
    for e in o.events:
        nm = str(e.name)
        if nm.startswith(NX_DRAW):
            a = e.kw.get("ax")
            if a is None:
                ctx.ob("figures", f"{tag}: {nm.split('.')[-1]}", BAD, f"{e.loc[0]}:{e.loc[1]}", "no axes are handed on")
                continue
        elif nm in DRAWS | {".set_title"} and e.recv is not None:
            a = e.recv
        else:
            continue
        p = subplot_of(a)
        if p is None:
            ctx.ob("figures", f"{tag}: {nm}", UNDECIDED, f"{e.loc[0]}:{e.loc[1]}", C.short(a))
            continue
        groups.setdefault(p, []).append(e)
    places = {}
    for p, es in groups.items():
        e = es[0]
        loc = f"{e.loc[0]}:{e.loc[1]}"
        fig = figure_of(p)
        ctx.require("figures", f"{tag}: on the new figure", True if f.result is not None and plain(fig) is plain(f.result) and fig is N.nf(f.result) else
                    True if fig.op == "call" and fig.args[0] == "matplotlib.pyplot.subplot" and str(f.name).startswith("matplotlib.pyplot.") else
                    False if fig.op == "call" and fig.args[0] in ("matplotlib.pyplot.gca", "matplotlib.pyplot.gcf") else None, loc, C.short(fig))
        places[p] = place(p)
    known = [x for x in places.values() if x is not None]
    if len(known) == len(places):
        shapes_ = {x[:2] for x in known}
        pos = [x[2] for x in known]
        good = len(shapes_) == 1 and len(set(pos)) == len(pos) and all(isinstance(x, int) and 1 <= x <= r * c for (r, c, x) in known)
        ctx.require("figures", f"{tag}: subplots apart from each other", good, w, f"the subplots are {sorted(known, key=str)}")
    ctx.require("figures", f"{tag}: one subplot each", True if len(groups) == len(want) else False if len(known) == len(places) else None, w, f"{len(groups)} subplots for {len(want)} drawings")
    # what is drawn on each
    left = dict(want)
    same = (lambda ctx, v: [v]) if exact else forms
    for p, es in groups.items():
        texts = [e for e in es if str(e.name) == ".text" and not is_node_label(D, e)]
        titles = [e for e in es if str(e.name) == ".set_title"]
        if len(texts) > 1 and len({t.loc for t in texts}) < len(texts):
            ctx.ob("figures", f"{tag}: a subplot of its own", BAD, f"{texts[-1].loc[0]}:{texts[-1].loc[1]}", "two drawings are put on the same subplot")
        if not texts:
            ctx.ob("figures", f"{tag}: the labels of a subplot", UNDECIDED, w, "no edge labels")
            continue
        got = over(texts[0], arg(texts[0], 2, "s"))
        hit = None
        for k, (v, title) in left.items():
            if any(C.Cmp()(got, N.nf(ctx.spec("drawing", "labelled", D.edges, x))) == C.EQUAL for x in same(ctx, v)):
                hit = k
                break
        cands = [N.nf(ctx.spec("drawing", "labelled", D.edges, x)) for v, _ in want.values() for x in same(ctx, v)]
        if hit is None:
            rs = [C.Cmp()(got, c) for c in cands]
            bad = all(r in (C.DIFFERENT, C.EQUAL) for r in rs) or any(
                C.Cmp()(got, N.nf(ctx.spec("drawing", "labelled", D.edges, y))) == C.EQUAL for x in wrong for y in same(ctx, x))
            ctx.ob("figures", f"{tag}: its own flow on each subplot", BAD if bad else UNDECIDED,
                   f"{texts[0].loc[0]}:{texts[0].loc[1]}", f"drawn: {C.short(got)}")
            continue
        title = left.pop(hit)[1]
        ctx.ob("figures", f"{tag}: flow {hit}", OK, w)
        if title is not None and titles:
            t = N.nf(titles[0].args[0]) if titles[0].args else None
            if t is not None and t.op == "const":
                ctx.require("figures", f"{tag}: the title of flow {hit}", cval(t) == title or (False if any(cval(t) == x[1] for x in want.values()) or f"_{{{hit}}}" not in cval(t) else None),
                            f"{titles[0].loc[0]}:{titles[0].loc[1]}", f"the title is {cval(t)}")


def forms(ctx, v):
    """A drawn eigenvector may be rounded."""
    return [v, ctx.spec("drawing", "rounded", v)]


def is_node_label(D, e):
    t = arg(e, 2, "s")
    t = over(e, t)
    return t is not None and any(x is D.nodes for x in subterms(t)) and not any(x.op == "sym" and x in (sym("flow"), sym("edge_flow"), sym("edge_labels")) for x in subterms(t))


# ------------------------------------------------------------------ C36
def named(o, *names):
    return [e for e in o.events if str(e.name) in names]


def only(ctx, rule, construct, es, w):
    """The one event, or an undecided obligation."""
    if len(es) == 1:
        return es[0]
    ctx.ob(rule, construct, UNDECIDED, w, f"{len(es)} such drawing calls")
    return None


def loc(e):
    return f"{e.loc[0]}:{e.loc[1]}"


def attached(ctx):
    D = Drawing(ctx)
    nodes_attached(ctx, D)
    edges_attached(ctx, D)
    labels_attached(ctx, D)
    labels_in_the_middle(ctx, D)


def sp(ctx, name, *args, st=None):
    return ctx.spec("drawing", name, *args, st=st)


def limits(ctx, D, rule, tag, w, e, values, low, high, cmap, names, drawn_kw):
    """The colour bar and the drawn colours use the same map and limits."""
    o = drawn_kw
    clim = named(o, ".set_clim")
    bar = only(ctx, rule, f"{tag}: one colour bar", named(o, ".colorbar"), w)
    maps = named(o, "matplotlib.cm.ScalarMappable")
    vmin, vmax, cm = (e.kw.get(n) for n in names)
    if bar is None:
        return
    m = arg(bar, 0, "mappable")
    blo = bhi = bcm = None
    made = [x for x in maps if x.result is not None and m is not None and (N.nf(m) is N.nf(x.result))]
    if made:
        norm = made[0].kw.get("norm") or (made[0].args[0] if made[0].args else None)
        bcm = made[0].kw.get("cmap", made[0].args[1] if len(made[0].args) > 1 else None)
        if norm is not None and norm.op == "call" and norm.args[0].endswith("Normalize"):
            a = [x for x in norm.args[1:] if isinstance(x, T) and x.op not in ("kw", "rnd")]
            k = {x.args[0]: x.args[1] for x in norm.args[1:] if isinstance(x, T) and x.op == "kw"}
            blo, bhi = k.get("vmin", a[0] if a else None), k.get("vmax", a[1] if len(a) > 1 else None)
        for c in clim:
            if c.recv is not None and N.nf(c.recv) is N.nf(m):
                blo, bhi = arg(c, 0, "vmin"), arg(c, 1, "vmax")
    elif m is not None and e.result is not None and N.nf(m) is N.nf(e.result):
        blo, bhi, bcm = vmin, vmax, cm           # the colour bar of what is drawn
    else:
        ctx.ob(rule, f"{tag}: the colour bar", UNDECIDED, loc(bar), C.short(m) if m is not None else "")
        return
    for what, shown, used in (("lower limit", blo, vmin), ("upper limit", bhi, vmax), ("colour map", bcm, cm)):
        if shown is None or used is None:
            ctx.ob(rule, f"{tag}: {what} of the colour bar", BAD if (used is None) != (shown is None) and made and (shown if shown is not None else used) is not NONE else UNDECIDED,
                   loc(bar), f"the colour bar shows {C.short(N.nf(shown)) if shown is not None else 'nothing set'}, the drawing uses {C.short(N.nf(used)) if used is not None else 'nothing set'}")
            continue
        ctx.equal(rule, f"{tag}: {what} of the colour bar and of the drawing", shown, used, loc(bar), cmp=cmp_draw())
    if vmin is not None:
        ctx.equal(rule, f"{tag}: the lower limit", vmin, low, loc(e), cmp=cmp_draw(), wrong=mistaken(ctx, "lowest", low, values))
    if vmax is not None:
        ctx.equal(rule, f"{tag}: the upper limit", vmax, high, loc(e), cmp=cmp_draw(), wrong=mistaken(ctx, "highest", high, values))
    if cm is not None and cmap is not None:
        ctx.equal(rule, f"{tag}: the colour map", cm, cmap, loc(e), cmp=cmp_draw())


def mistaken(ctx, right, want, values):
    """What a limit must not be."""
    if values is None:
        return []
    out = [(x, sp(ctx, x, values)) for x in ("lowest", "lowest_plain", "lower_without_size", "highest", "highest_more") if x != right or N.nf(sp(ctx, x, values)) is not N.nf(want)]
    return [(f"this is {n}", t) for n, t in out if N.nf(t) is not N.nf(want)]


def num(name):
    s = sym(name)
    S.PRESENT.add(s)
    shapes.REPS[s] = "scalar"
    shapes.SHAPES[s] = ()
    return s


def nodes_attached(ctx, D):
    I = ctx.I
    name = "draw_sc_nodes"
    w = D.where(name)
    st = D.made[True][1]
    colours = D.colours()
    cvals = sym("colours")
    cases = [("nodes", {}, None, None), ("nodes with numeric colours", {"node_color": colours}, None, None)]
    for lo, hi in ((num("low"), None), (None, num("high")), (num("low"), num("high")), (ZERO, None), (None, ZERO)):
        kw = {"node_color": colours}
        if lo is not None:
            kw["vmin"] = lo
        if hi is not None:
            kw["vmax"] = hi
        cases.append((f"nodes with limits {'' if lo is None else show(lo)}..{'' if hi is None else show(hi)}", kw, lo, hi))
    cm = sym("cmap given")
    S.PRESENT.add(cm)
    cases.append(("nodes with a colour map", {"node_color": colours, "cmap": cm}, None, None))
    for tag, kw, lo, hi in cases:
        with guarded(ctx, "nodes", tag, w):
            o = D.run(name, kw)
            sc = named(o, ".scatter")
            e = only(ctx, "nodes", tag + ": the markers", sc, w)
            if e is None:
                continue
            x, y = arg(e, 0, "x"), arg(e, 1, "y")
            ctx.equal("nodes", tag + ": x of every marker", x, sp(ctx, "marker_x", D.nodes, D.coordinates), loc(e), cmp=cmp_draw())
            ctx.equal("nodes", tag + ": y of every marker", y, sp(ctx, "marker_y", D.nodes, D.coordinates), loc(e), cmp=cmp_draw())
            if "node_color" in kw:
                c = arg(e, 3, "c", "color")
                ctx.equal("nodes", tag + ": colours in the order of the nodes", c, cvals, loc(e), cmp=cmp_draw())
                low = lo if lo is not None else sp(ctx, "lowest", cvals)
                high = hi if hi is not None else sp(ctx, "highest", cvals)
                limits(ctx, D, "colours", tag, w, e, cvals, low, high, kw.get("cmap"), ("vmin", "vmax", "cmap"), o)
            else:
                ctx.require("colours", tag + ": no colour bar without numbers", False if named(o, ".colorbar") and not any(g.op != "const" for b in named(o, ".colorbar") for g in b.guard) else True if not named(o, ".colorbar") else None, w, "")
    for given in (True, False):
        tag = "node labels" + ("" if given else ", generated layout")
        with guarded(ctx, "nodes", tag, w):
            o = D.run(name, {"with_labels": TRUE}, given)
            e = only(ctx, "nodes", tag, named(o, ".text", ".annotate"), w)
            pos = layout(ctx, D, o, given)
            if e is None or pos is None:
                continue
            got = over(e, arg(e, 0, "x"), arg(e, 1, "y"), arg(e, 2, "s"))
            ctx.equal("nodes", tag + ": text and place", got, sp(ctx, "node_labels", D.nodes, pos), loc(e), cmp=cmp_draw())
            m = named(o, ".scatter")
            if len(m) == 1:
                ctx.equal("nodes", tag + ": x of every marker", arg(m[0], 0, "x"), sp(ctx, "marker_x", D.nodes, pos), loc(m[0]), cmp=cmp_draw())
                ctx.equal("nodes", tag + ": y of every marker", arg(m[0], 1, "y"), sp(ctx, "marker_y", D.nodes, pos), loc(m[0]), cmp=cmp_draw())


def layout(ctx, D, o, given):
    """The positions a call draws with."""
    if given:
        return D.coordinates
    pl = D.made[False][0]
    v = o.state.heap[pl.cid].attrs.get("pos") if isinstance(pl, Ref) else None
    return ctx.I.tm(v, o.state) if v is not None else None


def graph_edges(ctx, e):
    """The edges a networkx drawing call draws, in its order."""
    l = e.kw.get("edgelist")
    g = e.args[0] if e.args else e.kw.get("G")
    if l is not None and l is not NONE:
        return l, g
    if g is None:
        return None, None
    return N.top("mcall", (N.nf(g), "edges")), g


def added(g, what):
    """What was put into a graph that was built step by step."""
    out = []
    g = N.nf(g)
    while g.op == "mcall" and g.args[1] in ("add_edges_from", "add_nodes_from", "add_edge", "add_node"):
        if g.args[1] == what:
            out.append(g.args[2])
        g = g.args[0]
    if g.op == "call" and g.args[0] in ("networkx.Graph", "networkx.DiGraph"):
        a = [x for x in g.args[1:] if isinstance(x, T) and x.op not in ("rnd", "kw")]
        if a and what == "add_edges_from":
            out.append(a[0])
        return out
    return None


def edges_attached(ctx, D):
    I = ctx.I
    name = "draw_sc_edges"
    w = D.where(name)
    ef = sym("edge_flow")
    keys, vals = sp(ctx, "keys", ef), sp(ctx, "values", ef)
    carr = D.both("edge colours", "plist")
    I.numbers.add(sym("edge colours"))
    cases = [("edges", name, {}, "plain", None, None),
             ("edges with a flow", name, {"edge_flow": D.edge_flow}, "flow", None, None),
             ("edges with numeric colours", name, {"edge_color": carr}, "colours", None, None),
             ("network with a flow array", "draw_network", {"edge_flow": D.flow}, "array", None, None),
             ("network with a flow dictionary", "draw_network", {"edge_flow": D.edge_flow}, "flow", None, None)]
    for lo, hi in ((num("low"), None), (None, num("high")), (num("low"), num("high")), (ZERO, None), (None, ZERO)):
        kw = {"edge_flow": D.edge_flow}
        if lo is not None:
            kw["edge_vmin"] = lo
        if hi is not None:
            kw["edge_vmax"] = hi
        cases.append((f"edges with limits {'' if lo is None else show(lo)}..{'' if hi is None else show(hi)}", name, kw, "flow", lo, hi))
    cm = sym("cmap given")
    S.PRESENT.add(cm)
    cases.append(("edges with a colour map", name, {"edge_flow": D.edge_flow, "edge_cmap": cm}, "flow", None, None))
    for tag, meth, kw, kind, lo, hi in cases:
        w = D.where(meth)
        with guarded(ctx, "edges", tag, w):
            o = D.run(meth, kw)
            e = only(ctx, "edges", tag + ": the edges", named(o, "networkx.draw_networkx_edges"), w)
            if e is None:
                continue
            E, g = graph_edges(ctx, e)
            col = e.kw.get("edge_color")
            fl = {"flow": ef, "array": sp(ctx, "pairs", D.edges, sym("flow"))}.get(kind)
            allv = {"flow": vals, "array": sym("flow"), "colours": sym("edge colours")}.get(kind)
            members = added(g, "add_edges_from") if g is not None else None
            want = D.edges if kind in ("plain", "colours") else sp(ctx, "keys", fl)
            if e.kw.get("edgelist") not in (None, NONE):
                ctx.equal("edges", tag + ": every edge is drawn", e.kw["edgelist"], [want, D.edges], loc(e), cmp=cmp_draw())
            elif members is not None and len(members) == 1:
                ctx.equal("edges", tag + ": every edge is drawn", members[0], [want, D.edges], loc(e), cmp=cmp_draw())
            else:
                ctx.ob("edges", tag + ": every edge is drawn", UNDECIDED, loc(e), C.short(g) if g is not None else "")
            pos = arg(e, 1, "pos")
            ctx.equal("edges", tag + ": between the positions of the nodes", pos, D.coordinates, loc(e), cmp=cmp_draw())
            if kind == "plain":
                ctx.require("edges", tag + ": no colour bar without numbers", True if not named(o, ".colorbar") else None, w)
                continue
            if col is None or E is None:
                ctx.ob("edges", tag + ": colours", BAD if col is None else UNDECIDED, loc(e), "the colours are not handed on")
                continue
            if kind == "colours":
                ctx.equal("edges", tag + ": the colour of each edge is its own", col, sp(ctx, "colours_by_position", E, D.edges, sym("edge colours")), loc(e), cmp=cmp_draw())
            else:
                ctx.equal("edges", tag + ": the colour of each edge is its own flow", col, sp(ctx, "colours", E, fl), loc(e), cmp=cmp_draw(),
                          also=[sp(ctx, "as_listed", fl)] if N.nf(E) is N.nf(sp(ctx, "keys", fl)) else [],
                          wrong=[("the values are in the order of the dictionary, the edges in that of the graph", sp(ctx, "as_listed", fl))] if N.nf(E) is not N.nf(sp(ctx, "keys", fl)) else [])
            low = lo if lo is not None else sp(ctx, "lowest", allv)
            high = hi if hi is not None else sp(ctx, "highest", allv)
            limits(ctx, D, "colours", tag, w, e, allv, low, high, kw.get("edge_cmap"), ("edge_vmin", "edge_vmax", "edge_cmap"), o)
    # triangles
    w = D.where(name)
    with guarded(ctx, "edges", "triangles", w):
        o = D.run(name, {})
        e = only(ctx, "edges", "triangles", [x for x in o.events if str(x.name).endswith(".Polygon")], w)
        a = only(ctx, "edges", "triangles: added", named(o, ".add_patch"), w)
        if e is not None:
            got = over(e, arg(e, 0, "xy"))
            ctx.equal("edges", "triangles: the corners are the nodes of the triangle", got, [sp(ctx, "corners", D.tris, D.coordinates)], loc(e), cmp=cmp_draw(),
                      also=[sp(ctx, "corner_tuples", D.tris, D.coordinates)])
        if e is not None and a is not None and e.result is not None:
            ctx.require("edges", "triangles: each is added", True if a.args and N.nf(a.args[0]) is N.nf(e.result) and [x[0] for x in a.loops] == [x[0] for x in e.loops] else None, loc(a))
    # flow arrays
    w = D.where("create_edge_flow")
    with guarded(ctx, "edges", "flow arrays", w):
        o = D.run("create_edge_flow", {"flow": D.flow}, ax=False)
        ctx.equal("edges", "flow arrays are matched to the edges by position", o.term, sp(ctx, "pairs", D.edges, sym("flow")), w)


def labels_in_the_middle(ctx, D):
    """Without an offset, each label stands at the middle of its own edge; by default and with any offset both its
    coordinates depend on the two ends (labels_attached)."""
    w = D.where("draw_edge_labels")
    E = sp(ctx, "keys", sym("edge_labels"))
    N.ELEMENT.update({N.nf(E): 2})
    N._memo.clear()
    with guarded(ctx, "labels", "edge labels without offset", w):
        o = D.run("draw_edge_labels", {"edge_labels": D.labels, "offset": ZERO})
        ts = named(o, ".text", ".annotate")
        e = only(ctx, "labels", "edge labels without offset", ts, w)
        if e is None:
            return
        for i, what in ((0, "x"), (1, "y")):
            got = over(e, arg(e, i, what))
            ctx.equal("labels", f"edge labels without offset: {what} is that of the middle of the edge", got, sp(ctx, "middles", E, D.coordinates, const(i)), loc(e), cmp=cmp_draw())


def labels_attached(ctx, D):
    I = ctx.I
    el, ef = sym("edge_labels"), sym("edge_flow")
    cases = [("edge labels", "draw_edge_labels", {"edge_labels": D.labels}, sp(ctx, "keys", el), [sp(ctx, "label_values", el), sp(ctx, "as_listed", el)]),
             ("network with a flow array", "draw_network", {"edge_flow": D.flow}, D.edges, [sp(ctx, "labelled", D.edges, sym("flow"))]),
             ("network with a flow dictionary", "draw_network", {"edge_flow": D.edge_flow}, sp(ctx, "keys", ef), [sp(ctx, "label_values", ef), sp(ctx, "as_listed", ef)])]
    N.ELEMENT.update({N.nf(sp(ctx, "keys", x)): 2 for x in (el, ef)})
    N._memo.clear()
    for tag, meth, kw, E, vals in cases:
        w = D.where(meth)
        with guarded(ctx, "labels", tag, w):
            o = D.run(meth, kw)
            ts = [e for e in named(o, ".text", ".annotate") if not any(x is D.nodes for D_, _ in e.loops for x in subterms(N.nf(D_)))]
            e = only(ctx, "labels", tag, ts, w)
            if e is None:
                continue
            s = arg(e, 2, "s")
            got = over(e, s)
            ctx.equal("labels", tag + ": every edge has its own value", got, vals[0], loc(e), cmp=cmp_draw(), also=vals[1:])
            if len(e.loops) != 1:
                continue
            # the place is between the two ends of the same edge
            E = N.nf(E)
            n, k = e.loops[0]
            key = N._idx(E, k)
            ends = {N._idx(key, ZERO), N._idx(key, ONE)}
            used = set()
            for i, what in ((0, "x"), (1, "y")):
                t = N.nf(arg(e, i, what))
                used |= {x.args[1] for x in subterms(t) if x.op == "idx" and x.args[0] is D.coordinates}
            if not used:
                ctx.ob("labels", tag + ": place", BAD if cmp_draw().rigid(t) else UNDECIDED, loc(e), "the place does not depend on the nodes of the edge")
                continue
            strange = {x for x in used if x not in ends}
            ctx.require("labels", tag + ": the place depends on both ends of the edge", True if used == ends else False if (strange and all(cmp_draw().rigid(x) for x in strange)) or used < ends else None,
                        loc(e), f"positions used: {sorted(C.short(x) for x in used)}")
    w = D.where("draw_edge_labels")
    with guarded(ctx, "labels", "returned labels", w):
        o = D.run("draw_edge_labels", {"edge_labels": D.labels})
        v = o.value
        t = N.nf(o.term)
        e = [e for e in named(o, ".text")]
        if t.op == "scatter" and len(t.args) == 2 and len(e) == 1 and e[0].result is not None and len(e[0].loops) == 1:
            cond, i, val, mode, *binds = t.args[1].args
            b = binds[0]
            E = N.nf(sp(ctx, "keys", el))
            key = N._idx(E, b.args[1])
            res = N.nf(N.nsubst(N.nf(e[0].result), {e[0].loops[0][1]: b.args[1]}))
            ok = i is key or i is mk("tuple", N._idx(key, ZERO), N._idx(key, ONE))
            ctx.require("labels", "returned labels: each under its own edge", True if ok and plain(val) is plain(res) else False if i is mk("tuple", N._idx(key, ONE), N._idx(key, ZERO)) else None, w, C.short(t))


# ------------------------------------------------------------------ C35
def unchanged(ctx):
    D = Drawing(ctx)
    pl = {g: D.made[g][0] for g in (True, False)}
    fl = D.flow
    for given in (True, False):
        calls = list(D.usual()) + [("decomposition", "draw_hodge_decomposition", {"flow": fl}),
                                   ("one component", "draw_hodge_decomposition", {"flow": fl, "component": const("curl")}),
                                   ("eigenvectors", "draw_eigenvectors", {"component": const("gradient")}),
                                   ("flow dictionary", "create_edge_flow", {"flow": fl})]
        for what, name, kw in calls:
            w = D.where(name)
            tag = what + ("" if given else ", generated layout")
            fig = name in ("draw_hodge_decomposition", "draw_eigenvectors", "create_edge_flow")
            with guarded(ctx, "effects", tag, w):
                o = D.run(name, kw, given, ax=not fig)
                # what the plotter remembers must not show: that is "drawn again"
                allow = [lambda e: e.root[:2] == ("param", "ax"), layout_kept]
                ctx.clean("effects", tag, o, w, allow=allow)
                if o.dead or fig:
                    continue
                # once more
                o2 = D.run(name, kw, given, after=o.state)
                ctx.clean("effects", tag + ", again", o2, w, allow=allow)
                again(ctx, "drawn again", tag, o, o2, w)
                # and after something else was drawn
                o3 = D.run("draw_network", {"edge_flow": D.flow}, given)
                o4 = D.run(name, kw, given, after=o3.state)
                ctx.clean("effects", tag + ", after a network", o4, w, allow=allow)
                if given:
                    again(ctx, "drawn again", tag + " after a network", o, o4, w)


def layout_kept(e):
    """The plotter may remember what it made."""
    return e.root == ("state", "plotter") and e.what.startswith("set .")


def picture(o):
    return [e for e in o.events if str(e.name) in DRAWS or str(e.name).startswith(NX_DRAW) or str(e.name) in (".set_clim", "matplotlib.cm.ScalarMappable", ".set_title")
            or str(e.name).endswith("Polygon")]


def again(ctx, rule, tag, o, o2, w):
    a, b = picture(o), picture(o2)
    if [str(e.name) for e in a] != [str(e.name) for e in b]:
        ctx.ob(rule, tag, BAD, w, f"first {[str(e.name) for e in a]}, then {[str(e.name) for e in b]}")
        return
    for i, (x, y) in enumerate(zip(a, b)):
        tx, ty = term(x), term(y)
        if tx is ty:
            continue
        r = cmp_draw()
        v = r(tx, ty)
        ctx.ob(rule, f"{tag}: {str(x.name)}", OK if v == C.EQUAL else BAD if v == C.DIFFERENT else UNDECIDED, loc(x), "" if v == C.EQUAL else C.explain(r.why))
        if v != C.EQUAL:
            return
    ctx.ob(rule, tag, OK, w)


# ------------------------------------------------------------------ C37
NODE_OPTIONS = {"node_size": ("s",), "node_color": ("c", "color"), "node_edge_colors": ("edgecolors", "edgecolor"), "cmap": ("cmap",), "vmin": ("vmin",), "vmax": ("vmax",), "alpha": ("alpha",)}
NODE_TEXT = {"font_size": ("fontsize", "size"), "font_color": ("color", "c"), "font_weight": ("weight", "fontweight"), "alpha": ("alpha",)}
EDGE_OPTIONS = {"edge_color": ("edge_color",), "edge_width": ("width",), "arrowsize": ("arrowsize",), "edge_cmap": ("edge_cmap",), "edge_vmin": ("edge_vmin",), "edge_vmax": ("edge_vmax",), "alpha": ("alpha",)}
LABEL_TEXT = NODE_TEXT
DATA = {"edge_flow", "edge_labels", "directed", "with_labels", "ax"}
DEFAULTS = (("node_size", 400), ("edge_width", 5), ("arrowsize", 30), ("font_size", 12))
UNKNOWN_OPTIONS = ("no_such_option", "node_sizes", "edge_labels", "width", "labels", "font", "color", "nodesize", "Node_Size", "pos", "self", "edge_colors", "title")


def texts(D, o):
    """(node label, edge label) texts of a network."""
    ns, es = [], []
    for e in named(o, ".text", ".annotate"):
        (ns if any(x is D.nodes for d, _ in e.loops for x in subterms(N.nf(d))) else es).append(e)
    return ns, es


def destinations(D, o, opt):
    """[(what, value handed on or None, event)] of an option in what is drawn."""
    out = []
    ns, es = texts(D, o)
    for table, evs, what in ((NODE_OPTIONS, named(o, ".scatter"), "node markers"), (NODE_TEXT, ns, "node labels"),
                             (EDGE_OPTIONS, named(o, "networkx.draw_networkx_edges"), "edges"), (LABEL_TEXT, es, "edge labels")):
        if opt in table:
            for e in evs:
                v = next((e.kw[k] for k in table[opt] if k in e.kw), None)
                out.append((what, v, e))
    if opt == "margins":
        for e in named(o, ".margins"):
            out.append(("margins", e.args[0] if e.args else None, e))
    return out


def layer_options(D):
    out = {}
    for layer, name in (("nodes", "draw_sc_nodes"), ("edges", "draw_sc_edges"), ("labels", "draw_edge_labels")):
        f, _ = D.cls.lookup(name)
        if not isinstance(f, FuncV):
            raise AnchorLost(f"SCPlot.{name}")
        for p in params_of(f) + [x.arg for x in f.node.args.kwonlyargs]:
            if p not in DATA:
                out.setdefault(p, []).append(layer)
    return out


def options(ctx):
    D = Drawing(ctx)
    I = ctx.I
    w = D.where("draw_network")
    opts = layer_options(D)
    ctx.notes.append(f"options of the layers: {opts}")
    flow = {"edge_flow": D.edge_flow}
    # every option reaches its layers
    for opt, layers in sorted(opts.items()):
        for label, v in (("given", None), ("zero", ZERO)):
            if v is ZERO and opt not in ("node_size", "font_size", "vmin", "vmax", "alpha", "edge_width", "arrowsize", "edge_vmin", "edge_vmax", "offset", "margins"):
                continue
            tag = f"{opt}" + ("" if v is None else " = 0")
            with guarded(ctx, "routing", tag, w):
                val = D.option(opt, D.made[True][1], v)
                kw = {opt: val}
                if opt in ("cmap", "vmin", "vmax"):
                    I.numbers.add(sym("colours"))
                    kw["node_color"] = D.colours()
                base = dict(flow) if opt not in ("edge_color",) else {}
                base = {**base, **kw}
                o = D.run("draw_network", base)
                if o.dead:
                    ctx.ob("routing", f"{tag} is accepted", BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                    continue
                ctx.ob("routing", f"{tag} is accepted", OK, w)
                dest = destinations(D, o, opt)
                if opt == "offset":
                    ns, es = texts(D, o)
                    if v is None and es:
                        ctx.require("routing", f"{tag}: edge labels", any(occurs(val, N.nf(arg(e, i, "xy"[i]))) for e in es for i in (0, 1)), loc(es[0]), "the offset does not reach the place of the labels")
                    continue
                seen = set()
                for what, got, e in dest:
                    seen.add(what)
                    if got is None:
                        ctx.ob("routing", f"{tag}: {what}", BAD, loc(e), f"{str(e.name)} gets no {opt}")
                        continue
                    if opt == "margins" and got.op == "star":
                        one = lambda t: S.Ite(t.args[0], one(t.args[1]), one(t.args[2])) if t.op == "ite" else t.args[0] if t.op in ("tuple", "list") and len(t.args) == 1 else t
                        got = one(N.nf(got.args[0]))
                    ctx.equal("routing", f"{tag}: {what}", got, val, loc(e), cmp=cmp_draw())
                if not dest:
                    ctx.ob("routing", f"{tag}: reaches a layer", BAD if not any(str(e.name) == ".margins" for e in o.events) and opt == "margins" else UNDECIDED, w, "no drawing call takes it")
                # the network is its layers, drawn with the options each has
                layers_alike(ctx, D, tag, base, o, opts, w)
    # without options
    with guarded(ctx, "defaults", "without options", w):
        for label, base in (("with a flow", dict(flow)), ("without a flow", {}), ("without labels", {**flow, "with_labels": FALSE})):
            o = D.run("draw_network", base)
            if o.dead:
                ctx.ob("defaults", label, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                continue
            for opt, n in DEFAULTS:
                for what, got, e in destinations(D, o, opt):
                    if got is None:
                        ctx.ob("defaults", f"{label}: {opt} of the {what}", BAD, loc(e), "not handed on")
                    else:
                        ctx.equal("defaults", f"{label}: {opt} of the {what}", got, const(n), loc(e), cmp=cmp_draw())
            layers_alike(ctx, D, "without options, " + label, {**base, **{k: const(v) for k, v in DEFAULTS}}, o, opts, w)
    # the two switches of the network
    with guarded(ctx, "routing", "directed", w):
        val = D.option("directed", D.made[True][1])
        for base in ({}, dict(flow)):
            o = D.run("draw_network", {**base, "directed": val})
            for e in named(o, "networkx.draw_networkx_edges"):
                got = e.kw.get("arrows")
                if got is None:
                    ctx.ob("routing", "directed: edges", UNDECIDED, loc(e), "arrows are not chosen")
                else:
                    ctx.equal("routing", "directed: edges", got, val, loc(e), cmp=cmp_draw(), also=[mk("truthy", val)])
    with guarded(ctx, "routing", "with_labels", w):
        for base in ({}, dict(flow)):
            o = D.run("draw_network", {**base, "with_labels": FALSE})
            ts = named(o, ".text", ".annotate")
            ctx.require("routing", "with_labels: no text without labels", not ts, w, f"text at {[loc(e) for e in ts]}")
    # and again after a drawing with options
    with guarded(ctx, "defaults", "after a drawing with options", w):
        o = D.run("draw_network", {**flow, "node_size": num("opt node_size"), "font_size": num("opt font_size")})
        o = D.run("draw_network", dict(flow), after=o.state)
        for opt, n in DEFAULTS:
            for what, got, e in destinations(D, o, opt):
                ctx.equal("defaults", f"after a drawing with options: {opt} of the {what}", got, const(n), loc(e), cmp=cmp_draw())
    # other options
    for names in [(x,) for x in UNKNOWN_OPTIONS] + [("node_size", "no_such_option"), ("no_such_option", "alpha"), ("no_such_option", "unknown_too")]:
        if names == ("self",):
            continue
        bad = [n for n in names if n not in opts]
        if not bad:
            continue
        tag = " and ".join(names)
        for base in (dict(flow), {}):
            with guarded(ctx, "other options", tag, w):
                o = D.run("draw_network", {**base, **{n: num("opt " + n) for n in names}})
                what = tag + ("" if base else ", without a flow")
                ctx.raises("other options", f"{what} is refused", o, "ValueError", w)
                early = [e for e in o.events if str(e.name) in DRAWS | SETUP - {".get_figure"} or str(e.name).startswith(NX_DRAW)]
                ctx.require("other options", f"{what}: nothing is drawn first", not early, w, f"drawn before: {sorted({str(e.name) for e in early})}")
                for x in o.exits:
                    if x.exc.split(":")[0] == "ValueError" and not x.implicit:
                        v = x.val
                        msg = message(ctx, x)
                        if msg is None:
                            ctx.ob("other options", f"{what}: the message names it", UNDECIDED, w, "")
                        else:
                            ctx.require("other options", f"{what}: the message names it", all(n in msg for n in bad) or None if "?" in msg else all(n in msg for n in bad), w, f"the message is {msg!r}")


def message(ctx, x):
    """The text of the error, as far as it is constant."""
    v = x.val
    if isinstance(v, Ref) and x.state is not None and v.cid in x.state.heap:
        v = ctx.I.tm(v, x.state)
    if not isinstance(v, T):
        return None
    t = N.nf(v)
    parts = [cval(y) if isinstance(cval(y), str) else "" for y in subterms(t) if y.op == "const"]
    parts = [str(p) for p in parts if p]
    return " ".join(parts) if parts else None


def layers_alike(ctx, D, tag, base, o, opts, w):
    """The network shows what its layers show, each with the options it has."""
    kw = {k: v for k, v in base.items() if k in opts}
    lab = base.get("with_labels", TRUE)
    flow = base.get("edge_flow")
    seq = [("draw_sc_nodes", {"with_labels": lab, **{k: v for k, v in kw.items() if "nodes" in opts[k]}}),
           ("draw_sc_edges", {**({"edge_flow": flow} if flow is not None else {}), "directed": base.get("directed", TRUE), **{k: v for k, v in kw.items() if "edges" in opts[k]}})]
    if flow is not None and lab is TRUE:
        seq.append(("draw_edge_labels", {"edge_labels": flow, **{k: v for k, v in kw.items() if "labels" in opts[k]}}))
    st, want = None, []
    for name, a in seq:
        r = D.run(name, a, after=st)
        if r.dead:
            ctx.ob("layers", tag, UNDECIDED, w, f"{name} raises {sorted({e.exc for e in r.exits})}")
            return
        want += picture(r)
        st = r.state
    got = picture(o)
    key = lambda e: str(e.name)
    if sorted(map(key, got)) != sorted(map(key, want)):
        missing = [x for x in map(key, want) if x not in map(key, got)]
        ctx.ob("layers", tag, BAD if missing else UNDECIDED, w, f"drawn: {sorted(map(key, got))}; the layers draw {sorted(map(key, want))}")
        return
    for nm in sorted({key(e) for e in want}):
        A, B = [e for e in got if key(e) == nm], [e for e in want if key(e) == nm]
        tb = [term(e) for e in B]
        for i, e in enumerate(A):
            t = term(e)
            if t in tb:
                tb.remove(t)
                continue
            c = cmp_draw()
            rs = [c(t, x) for x in tb]
            if C.EQUAL in rs:
                tb.pop(rs.index(C.EQUAL))
                continue
            ctx.ob("layers", f"{tag}: {nm}", BAD if rs and all(r == C.DIFFERENT for r in rs) else UNDECIDED, loc(e), C.explain(c.why) if rs else "")
            return
    ctx.ob("layers", tag, OK, w)


# ------------------------------------------------------------------ C38
LAYOUTS = {"networkx." + x for x in ("spring_layout", "fruchterman_reingold_layout", "kamada_kawai_layout", "circular_layout", "random_layout", "shell_layout", "spectral_layout", "planar_layout")}


def generated_layout(ctx, D, rule, tag, t, w):
    """Every node of the complex is in the graph the layout is made for."""
    t = N.nf(t)
    if t.op != "call" or t.args[0] not in LAYOUTS:
        ctx.ob(rule, tag + ": every node has a place", BAD if t is NONE else UNDECIDED, w, C.short(t))
        return
    g = next((x for x in t.args[1:] if isinstance(x, T) and x.op not in ("rnd", "kw")), None)
    ns = added(g, "add_nodes_from") if g is not None else None
    es = added(g, "add_edges_from") if g is not None else None
    if ns is None:
        ctx.ob(rule, tag + ": every node has a place", UNDECIDED, w, C.short(g))
        return
    good = any(N.nf(x) is D.nodes for x in ns)
    r = [cmp_draw()(x, D.nodes) for x in ns]
    ctx.require(rule, tag + ": every node has a place", True if good or C.EQUAL in r else False if all(x == C.DIFFERENT for x in r) and es is not None else None, w,
                "nodes without edges are left out" if not ns else f"nodes placed: {C.short(ns[0])}")


def placed(ctx):
    D = Drawing(ctx)
    I = ctx.I
    # the complex's own coordinates
    fn = "generate_coordinates"
    w = ctx.method_where(D.X.cls, fn)
    with guarded(ctx, "coordinates", "generated coordinates", w):
        o = D.X.call(fn, st=D.st0.copy())
        generated_layout(ctx, D, "coordinates", "generated coordinates", o.term, w)
    for given in (True, False):
        for what, name, kw in D.usual():
            w = D.where(name)
            tag = what + ("" if given else ", generated layout")
            with guarded(ctx, "layout", tag, w):
                o = D.run(name, kw, given)
                pos = layout(ctx, D, o, given)
                if pos is None:
                    ctx.ob("layout", tag, UNDECIDED, w, "no layout is kept")
                    continue
                if not given:
                    generated_layout(ctx, D, "layout", tag, pos, w)
                else:
                    kept = o.state.heap[D.made[True][0].cid].attrs.get("pos")
                    ctx.equal("layout", tag + ": the coordinates given are kept", I.tm(kept, o.state), D.coordinates, w)
                used(ctx, D, tag, o, N.nf(pos), w)
                limits_contain(ctx, D, tag, o, N.nf(pos), given, w)
                # the next layer uses the same
                o2 = D.run("draw_sc_nodes", {}, given, after=o.state)
                p2 = layout(ctx, D, o2, given)
                ctx.require("layout", tag + ": the next layer uses the same layout", True if p2 is not None and N.nf(p2) is N.nf(pos) else False if p2 is not None and N.nf(p2).op == "call" else None, w, "another layout is made")
                used(ctx, D, tag + ", the next layer", o2, N.nf(pos), w)
                limits_contain(ctx, D, tag + ", the next layer", o2, N.nf(pos), True, w)


def used(ctx, D, tag, o, pos, w):
    """All positions drawn come from the one layout."""
    others = set()
    n = 0
    for e in picture(o):
        if str(e.name).startswith(NX_DRAW):
            p = arg(e, 1, "pos")
            if p is None:
                ctx.ob("layout", f"{tag}: {str(e.name).split('.')[-1]}", BAD, loc(e), "no positions are handed on")
                continue
            p = N.nf(p)
            n += 1
            if p is not pos:
                others.add((C.short(p), loc(e), p.op == "call" and p.args[0] in LAYOUTS or p.op == "sym"))
            continue
        for x in [x for a in list(e.args[:2]) for x in subterms(N.nf(a))]:
            if x.op == "call" and x.args[0] in LAYOUTS or x is D.coordinates:
                n += 1
                if x is not pos:
                    others.add((C.short(x), loc(e), True))
    if others:
        t, l, sure = sorted(others)[0]
        ctx.ob("layout", f"{tag}: one layout", BAD if sure else UNDECIDED, l, f"drawn at {t}")
    else:
        ctx.ob("layout", f"{tag}: one layout", OK if n else UNDECIDED, w, "" if n else "no positions were seen")


def limits_contain(ctx, D, tag, o, pos, given, w):
    for i, (name, axis) in enumerate(((".set_xlim", "x"), (".set_ylim", "y"))):
        es = named(o, name)
        if not es:
            ctx.ob("limits", f"{tag}: {axis}", OK if not named(o, ".axis", ".set_xbound", ".set_ybound", ".set") or True else UNDECIDED, w, "left to the drawing library")
            continue
        e = es[-1]
        a = e.args[0] if e.args else None
        lo, hi = arg(e, 0, "left", "bottom", "xmin", "ymin"), arg(e, 1, "right", "top", "xmax", "ymax")
        if lo is not None and lo.op in ("list", "tuple") and len(lo.args) == 2:
            lo, hi = lo.args
        if lo is None or hi is None:
            ctx.ob("limits", f"{tag}: {axis}", UNDECIDED, loc(e), "")
            continue
        lo, hi = N.nf(lo), N.nf(hi)
        if lo.op == "const" and hi.op == "const":
            s = spring(pos)
            if s is None:
                ctx.ob("limits", f"{tag}: {axis}", BAD if pos.op == "sym" else UNDECIDED, loc(e), f"fixed limits {show(lo)}..{show(hi)}")
            else:
                ctx.require("limits", f"{tag}: {axis}", cval(lo) <= -s and s <= cval(hi), loc(e), f"the layout fills [-{s}, {s}], the limits are {show(lo)}..{show(hi)}")
            continue
        least, most = N.nf(sp(ctx, f"least_{axis}", pos)), N.nf(sp(ctx, f"most_{axis}", pos))
        low, high = sym("smallest coordinate"), sym("width of the coordinates")
        m = {least: low, most: N.nf(mk("add", low, high))}
        l2, h2 = N.nf(N.nsubst(lo, m)), N.nf(N.nsubst(hi, m))
        below = N.nf(mk("add", l2, mk("mul", const(-1), low)))
        above = N.nf(mk("add", h2, mk("mul", const(-1), low), mk("mul", const(-1), high)))
        for what, t, sign in (("lower", below, -1), ("upper", above, 1)):
            c = factor(t, high)
            if c is None:
                other = N.nf(sp(ctx, f"least_{'yx'[i]}", pos)), N.nf(sp(ctx, f"most_{'yx'[i]}", pos))
                wrong = any(x in other for x in subterms(t)) and not any(x is low for x in subterms(t if sign < 0 else t)) or any(x in other for x in subterms(t))
                ctx.ob("limits", f"{tag}: {what} {axis} limit", BAD if wrong else UNDECIDED, loc(e), ("the limit is that of the other axis: " if wrong else "") + C.short(lo if sign < 0 else hi))
            else:
                ctx.require("limits", f"{tag}: {what} {axis} limit", c * sign >= 0, loc(e), f"{C.short(lo if sign < 0 else hi)} leaves coordinates out")


def spring(pos):
    """The half width of a generated layout around zero."""
    if pos.op != "call":
        return None
    kw = {x.args[0]: x.args[1] for x in pos.args[1:] if isinstance(x, T) and x.op == "kw"}
    if "center" in kw or "fixed" in kw or pos.args[0].endswith("random_layout"):
        return None
    s = kw.get("scale", ONE)
    return cval(s) if s.op == "const" and isinstance(cval(s), (int, float)) or s.op == "const" and hasattr(cval(s), "numerator") else None


def factor(t, d):
    """c for c * d, a number."""
    if t is ZERO:
        return 0
    if t is d:
        return 1
    if t.op == "const" and not isinstance(cval(t), str):
        return None
    if t.op == "mul" and len(t.args) == 2 and t.args[1] is d and t.args[0].op == "const":
        return cval(t.args[0])
    if t.op == "mul" and len(t.args) == 2 and t.args[0] is d and t.args[1].op == "const":
        return cval(t.args[1])
    return None
