"""Checks of the data sets: the listing, the files, what is made of them."""
from __future__ import annotations

import os

from sa.lib import data_path

from .names import spoilt
from .readers import R_MOD, Readers, cmp_read  # noqa: F401
from .util import *

L_MOD = "io.dataset_loader"
OPENERS = {"pandas.read_csv", "pandas.read_table", "builtins.open", "numpy.loadtxt", "numpy.genfromtxt", "numpy.load"}
SPECS = {"paper": "paper", "forex": "forex", "lastfm-1k-artist": "lastfm_1k_artist", "wsn": "wsn", "chicago-sketch": "chicago_sketch"}


def cmp_data(**kw):
    c = cmp_read(**kw)
    c.calls = set(c.calls) | {"networkx.spring_layout", "networkx.Graph", "networkx.enumerate_all_cliques", "pickle.load", "builtins.open", "open"}
    c.mcalls = set(c.mcalls) | {"add_nodes_from", "add_edges_from"}
    return c


def plain(t):
    """The term with the files named by their paths, and what is unpickled as input."""
    t = N.nf(t)
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] == "pickle.load":
            p = next((data_path(y.args[1]) for y in subterms(x) if y.op == "call" and y.args[0] in ("open", "builtins.open") and len(y.args) > 1), None)
            if p:
                m[x] = sym(f"<content of {p}>")
        elif x.op == "minlen" and len(x.args) == 2:
            # as many values as edges: the files are counted
            a, b = x.args
            for u, v in ((a, b), (b, a)):
                if u.op in ("len", "dim") and v.op in ("len", "dim") and any(y.op == "call" and y.args[0] == "pandas.read_csv" for y in subterms(u)) \
                        and not any(y.op in ("rec", "map") for y in subterms(u)) and any(y.op in ("rec", "map") for y in subterms(v)):
                    m[x] = v
        elif x.op in ("str", "call"):
            p = data_path(x)
            if p and "/data/" in p:
                m[x] = const(p)
    return N.nsubst(t, m) if m else t


class Files:
    """The data files of the repository, looked at but not used."""

    def __init__(self, root):
        self.root = root
        self.asked = set()

    def __call__(self, q, p):
        self.asked.add(p)
        p = os.path.join(self.root, p)
        if q == "os.listdir":
            return sorted(os.listdir(p)) if os.path.isdir(p) else None
        return {"os.path.exists": os.path.exists, "os.path.isfile": os.path.isfile, "os.path.isdir": os.path.isdir}[q](p)

    def has(self, p):
        return os.path.isfile(os.path.join(self.root, p))

    def lines(self, p):
        with open(os.path.join(self.root, p), encoding="utf-8", errors="replace") as fh:
            return fh.read().splitlines()


class Datasets:
    def __init__(self, ctx):
        self.ctx, self.W = ctx, ctx.W
        self.files = Files(ctx.repo)
        self.W.I.files = self.files
        self.load = self.W.get(L_MOD, "load_dataset")
        self.list = self.W.get(L_MOD, "list_datasets")
        self.w = ctx.where(self.load)
        o = self.W.call(self.list, [], {}, self.W.base())
        t = N.nf(o.term)
        self.names = None
        if t.op in ("list", "tuple") and all(x.op == "const" and isinstance(cval(x), str) for x in t.args):
            self.names = [cval(x) for x in t.args]
        self.listing = t

    def eq(self, rule, construct, got, want, facts=(), wrong=(), where=None, also=()):
        want = [plain(x) for x in (want if isinstance(want, list) else [want])]
        return self.ctx.equal(rule, construct, plain(got), want, where or self.w, cmp=cmp_data(), facts=[plain(f) for f in facts],
                              wrong=[(a, plain(b)) for a, b in wrong], also=[plain(x) for x in also])

    def run(self, name):
        return self.W.call(self.load, [const(name)], {}, self.W.base())

    def parts(self, o):
        v = o.value
        if isinstance(v, Ref) and o.state.heap[v.cid].kind == "tuple" and o.state.heap[v.cid].items:
            return o.state.heap[v.cid].items
        its = self.W.I.known_items(v, o.state) if v is not None else None
        return its

    def of(self, v, name, st):
        return self.W.I.tm(self.W.I.getattr(v, name, st), st)

    def want(self, name):
        spec, a = (SPECS[name], []) if name in SPECS else ("transportation", [const(name)])
        return self.ctx.spec("datasets", spec, *a, want="outcome")

    def nonempty(self, t):
        """Facts about the tables in t: a file with rows is not empty."""
        out = []
        for x in subterms(t):
            if x.op == "call" and x.args[0] in ("pandas.read_csv", "pandas.read_table") and len(x.args) > 1:
                p = data_path(x.args[1])
                if p and self.files.has(p) and len([s for s in self.files.lines(p) if s.strip()]) > 1:
                    a = mk("attr", x, "empty")
                    out += [S.Not(S.truth(a)), S.Not(mk("truthy", a)), S.Not(mk("empty", x))]
        return out


def opened(o):
    """(path or None, event) of every file a run opens."""
    for e in o.events:
        if e.name in OPENERS and e.args:
            yield data_path(e.args[0]), e


def never(e):
    return N.nf(mk("and", *e.guard)) is FALSE if isinstance(e.guard, tuple) else N.nf(e.guard) is FALSE


def column_use(terms):
    """(file, read call, stripped, column) of every named column taken from a file."""
    from sa import tables
    seen = set()
    for t in terms:
        for x in subterms(t):
            c = None
            if x.op == "idx" and tables.istable(x.args[0]) and is_const(x.args[1]) and isinstance(cval(x.args[1]), str):
                d, c = x.args[0], [cval(x.args[1])]
            elif x.op == "mcall" and x.args[1] == "drop" and tables.istable(x.args[0]) and tables.dropcols(x):
                cols = tables.kws(x).get("columns", x.args[2] if len(x.args) > 2 else NONE)
                d, c = x.args[0], [cval(y) for y in cols.args if is_const(y)] if cols.op in ("list", "tuple") else []
            if not c:
                continue
            stripped = False
            while d.op != "call":
                stripped = stripped or d.op == "setattr"
                d = d.args[0]
            p = data_path(d.args[1]) if len(d.args) > 1 else None
            for y in c:
                k = (p, d, stripped, y)
                if p and k not in seen:
                    seen.add(k)
                    yield k


def header(lines, call):
    """The column names of a delimited file, None when they cannot be told."""
    from sa import tables
    k = tables.kws(call)
    skip = k.get("skiprows", ZERO)
    sep = k.get("sep", k.get("delimiter", const(",")))
    if is_const(k.get("header", const("infer")), None) or not is_const(skip) or not is_const(sep) or not isinstance(cval(skip), int):
        return None
    rest = [s for s in lines[cval(skip):] if s.strip()]
    if not rest:
        return []
    return rest[0].split(cval(sep))


# ------------------------------------------------------------------ C22
def loading(ctx):
    D = Datasets(ctx)
    W, w = ctx.W, D.w
    lw = ctx.where(D.list)
    if D.names is None:
        ctx.ob("listing", "the listing is a list of names", UNDECIDED, lw, C.short(D.listing))
        return
    ctx.require("listing", "no name is listed twice", len(set(D.names)) == len(D.names), lw, f"{D.names}")
    for n in sorted(SPECS):
        ctx.require("listing", f"{n} is listed", n in D.names, lw, f"listed: {D.names}")
    base = os.path.join(ctx.repo, "pytspl", "data", "transportation_networks")
    if os.path.isdir(base):
        for n in sorted(os.listdir(base)):
            if os.path.isfile(os.path.join(base, n, n + "_net.tntp")):
                ctx.require("listing", f"{n} is listed", n in D.names, lw, f"listed: {D.names}")
    # every other name
    with guarded(ctx, "refused", "unlisted names", w):
        o = W.call(D.load, [sym("dataset")], {}, W.base())
        want = S.Not(S.In(sym("dataset"), mk("list", *[const(x) for x in D.names])))
        raised = [e for e in o.exits if not e.implicit and e.exc.split(":")[0] == "ValueError" and not any(x.name in OPENERS for x in o.events[:e.nev])]
        if not raised:
            ctx.ob("refused", "a ValueError exactly for the unlisted names, before any file is read", UNDECIDED, w, "no such ValueError is found")
        else:
            g = S.Or(*[mk("and", *e.guard) for e in raised])
            ctx.equal("refused", "a ValueError exactly for the unlisted names, before any file is read", g, want, w)
            for e in raised:
                said = {x for x in subterms(N.nf(e.val))} if e.val is not None else set()
                miss = [n for n in D.names if const(n) not in said and not any(x.op == "const" and isinstance(cval(x), str) and n in cval(x) for x in said)]
                ctx.require("refused", "the message names the available ones", not miss, f"{e.loc[0]}:{e.loc[1]}", f"not named: {miss}")
    for n in sorted(spoilt(D.names) - set(D.names) | {"", "unknown", "Paper data", "README.md", ".DS_Store", "../paper", "paper/", "None"}):
        with guarded(ctx, "refused", repr(n), w):
            o = D.run(n)
            if o.dead and o.exits:
                exc = sorted({e.exc.split(":")[0] for e in o.exits if not never(e)})
                ctx.require("refused", repr(n), exc == ["ValueError"] or (None if "ValueError" in exc else False), w, f"ends in {exc} instead of ValueError")
            else:
                open_ = any(not e.implicit and e.exc.split(":")[0] == "ValueError" and not never(e) for e in o.exits)
                ctx.ob("refused", repr(n), BAD if D.parts(o) and not open_ else UNDECIDED, w, "the name is not listed but it is loaded")
    # every listed name
    for n in D.names:
        with guarded(ctx, "files", n, w):
            o = D.run(n)
            for e in o.exits:
                if not e.implicit and not never(e):
                    if o.dead:
                        ctx.ob("accepted", n, BAD, f"{e.loc[0]}:{e.loc[1]}", f"raises {e.exc}")
            if o.dead:
                continue
            ctx.ob("accepted", n, OK, w)
            files = []
            for p, e in opened(o):
                if p is None:
                    ctx.ob("files", f"{n}: the files it reads", UNDECIDED, f"{e.loc[0]}:{e.loc[1]}", "unknown path " + C.short(e.args[0]))
                elif p not in files and not never(e):
                    files.append(p)
                    ctx.require("files", f"{n}: {p} exists", D.files.has(p), f"{e.loc[0]}:{e.loc[1]}", "the file is missing")
            ctx.require("files", f"{n}: its files are read", bool(files) or None, w, "no file was found that is read")
            its = D.parts(o)
            if its is None or len(its) != 3:
                ctx.ob("result", n, UNDECIDED, w, "not a triple")
                continue
            sc, co, fl = its
            I, st = W.I, o.state
            got = {x: D.of(sc, x, st) for x in ("nodes", "edges", "triangles", "edge_features", "node_features")}
            got["coordinates"] = I.tm(co, st)
            flow = I.tm(fl, st)
            for p, call, stripped, c in column_use(list(map(N.nf, list(got.values()) + [flow]))):
                h = header(D.files.lines(p), call) if D.files.has(p) else None
                if h is not None:
                    h = [x.strip() for x in h] if stripped else h
                    ctx.require("columns", f"{n}: column {c!r} of {p}", c in h, w, f"the file has the columns {h}")
            ow = D.want(n)
            wits = D.parts(ow)
            wsc, wst = wits[0], ow.state
            for x in got:
                want = W.I.tm(wits[1], wst) if x == "coordinates" else D.of(wsc, x, wst)
                wrong = []
                if x == "coordinates" and not any(y.op == "call" and y.args[0] == "networkx.spring_layout" for y in subterms(N.nf(want))):
                    wrong = [("coordinates are generated although there are given ones", W.meth(wsc, "generate_coordinates", [], {}, wst).term)]
                if x == "triangles" and any(y.op == "call" and y.args[0] == "pandas.read_csv" and y is not None for y in subterms(N.nf(want))):
                    wrong = [("all cliques are triangles, not those of the file", ctx.spec("datasets", "all_triangles", D.of(wsc, "edges", wst)))]
                D.eq("made of", f"{n}: {x}", got[x], want, wrong=wrong)


# ------------------------------------------------------------------ C23
def flows(ctx):
    D = Datasets(ctx)
    W, w = ctx.W, D.w
    if D.names is None:
        ctx.ob("flow", "the listing is a list of names", UNDECIDED, ctx.where(D.list), C.short(D.listing))
        return
    for n in D.names:
        with guarded(ctx, "flow", n, w):
            o = D.run(n)
            its = None if o.dead else D.parts(o)
            if its is None or len(its) != 3:
                ctx.ob("flow", n, UNDECIDED, w, "the data set is not loaded")
                continue
            sc, _, fl = its
            got = W.I.tm(fl, o.state)
            edges = D.of(sc, "edges", o.state)
            facts = D.nonempty(N.nf(got))
            if n in SPECS:
                ow = D.want(n)
                want = W.I.tm(D.parts(ow)[2], ow.state)
                wrong = also = []
            else:
                want = ctx.spec("datasets", "net_flow", const(n), edges)
                also = [ctx.spec("datasets", f, const(n), edges) for f in ("net_flow_2", "net_flow_3")]
                wrong = [("the volume in the opposite direction is not subtracted", ctx.spec("datasets", "one_way", const(n), edges)),
                         ("the sign of the net flow is reversed", ctx.spec("datasets", "reversed_flow", const(n), edges)),
                         ("the two volumes are added", ctx.spec("datasets", "total_flow", const(n), edges))]
            got = matched(D, got)
            D.eq("flow", f"{n}: the flow of every edge", got, want, facts=facts, wrong=wrong, also=also)
            for x in {y for y in subterms(N.nf(edges)) if y.op == "call" and y.args[0] == "pandas.read_csv" and len(y.args) > 1}:
                from sa import tables
                p = data_path(x.args[1])
                if p and D.files.has(p) and is_const(tables.kws(x).get("header", ONE), None) and n in SPECS:
                    cols = incidence_columns(D.files.lines(p))
                    if cols is not None:
                        ctx.require("positions", f"{n}: the columns of {p} are in the order of the edges", cols == sorted(cols), w)
    # the helper on its own, for any data set and any list of edges
    with guarded(ctx, "flow", "load_flow_transportation", w):
        f = W.get("io.data_loaders.transportation_loader", "load_flow_transportation")
        fw = ctx.where(f)
        st = W.base()
        N.LISTS.add(sym("edges"))
        N.ELEMENT[sym("edges")] = 2
        N.STRINGS.add(sym("dataset"))
        W.I.files = None
        o = W.call(f, [sym("dataset"), sym("edges")], {}, st)
        want = ctx.spec("datasets", "net_flow", sym("dataset"), sym("edges"))
        also = [ctx.spec("datasets", x, sym("dataset"), sym("edges")) for x in ("net_flow_2", "net_flow_3")]
        wrong = [("the volume in the opposite direction is not subtracted", ctx.spec("datasets", "one_way", sym("dataset"), sym("edges"))),
                 ("the sign of the net flow is reversed", ctx.spec("datasets", "reversed_flow", sym("dataset"), sym("edges"))),
                 ("the two volumes are added", ctx.spec("datasets", "total_flow", sym("dataset"), sym("edges")))]
        D.eq("flow", "any data set, any edges: volume there minus volume back", o.term, want, wrong=wrong, where=fw, also=also)
    # a small network written out: edges that share endpoints do not disturb each other
    with guarded(ctx, "flow", "load_flow_transportation on three edges", w):
        st = W.base()
        three = mk("list", *[mk("tuple", const(a), const(b)) for a, b in ((0, 1), (0, 2), (1, 2))])
        o = W.call(f, [sym("dataset"), W.I.alloc(st, "list", items=[W.I.alloc(st, "tuple", items=list(e.args)) for e in three.args])], {}, st)
        D.eq("flow", "three edges that share endpoints: one value each", o.term, ctx.spec("datasets", "net_flow", sym("dataset"), three), where=fw,
             also=[ctx.spec("datasets", x, sym("dataset"), three) for x in ("net_flow_2", "net_flow_3")])


def matched(D, got):
    """Walking the edges and the values of the file side by side goes through all edges when there are enough values."""
    got = N.nf(got)
    m = {}
    for x in subterms(got):
        if x.op == "minlen" and len(x.args) == 2:
            ns = [counted(D, y) for y in x.args]
            if None not in ns and ns[0] != ns[1]:
                m[x] = x.args[0] if ns[0] < ns[1] else x.args[1]
            elif None not in ns:
                m[x] = next((y for y in x.args if y.op == "dim"), x.args[0])
            else:
                for y, n in zip(x.args, ns[::-1]):
                    top = atmost(D, y)
                    if n is not None and top is not None and top <= n:
                        m[x] = y
    return N.nsubst(got, m) if m else got


def counted(D, t):
    """The number of edges or values, as far as a shipped file without a header tells it."""
    from sa import tables
    calls = {y for y in subterms(t) if y.op == "call" and y.args[0] == "pandas.read_csv"}
    if len(calls) != 1 or t.op not in ("dim", "len"):
        return None
    c = calls.pop()
    p = data_path(c.args[1])
    kw = tables.kws(c)
    if not p or not D.files.has(p) or not is_const(kw.get("header", ONE), None) or set(kw) - {"header", "sep", "delimiter"}:
        return None
    rows = [r for r in D.files.lines(p) if r.strip()]
    width = len(rows[0].split(",")) if rows else 0
    if t.op == "dim" and t.args[1] in (ZERO, ONE):
        return width if t.args[1] is ONE else len(rows)
    x = t.args[0]
    if x.op in ("idx", "flat", "call", "attr", "listof") and t.op == "len":
        return len(rows) * width if x.op == "flat" else len(rows)
    return None


def atmost(D, t):
    """At most one edge for every line below the header of a shipped file."""
    from sa import tables
    if t.op != "len" or t.args[0].op != "rec" or len(t.args[0].args[3].args) != 1:
        return None
    d, _, _, ph, ini, body, _ = t.args[0].args
    phi, b = ph.args[0], body.args[0]
    one = [x for x in (b.args[1:] if b.op == "ite" else (b,)) if x is not phi]
    if ini.args[0] is not mk("list") or not all(x.op == "cat" and x.args[0] is phi and len(x.args) == 2 and x.args[1].op == "list"
                                                and len(x.args[1].args) == 1 for x in one):
        return None
    c = d.args[0] if d.op == "len" else None
    if c is None or c.op != "call" or c.args[0] != "pandas.read_csv" or len(c.args) < 2:
        return None
    p = data_path(c.args[1])
    if not p or not D.files.has(p) or set(tables.kws(c)) - {"sep", "delimiter"}:
        return None
    return len([r for r in D.files.lines(p) if r.strip()]) - 1


def incidence_columns(lines):
    rows = [s.split(",") for s in lines if s.strip()]
    try:
        ends = {}
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                v = float(x)
                if v:
                    ends.setdefault(j, {})[v] = i
        return [(ends[j][-1.0], ends[j][1.0]) for j in sorted(ends)]
    except (ValueError, KeyError):
        return None
