"""Checks of the readers, the data sets and the random complexes."""
from __future__ import annotations

from sa import tables

from .util import *

R_MOD = "io.network_reader"
READ = {"pandas.read_csv", "pandas.DataFrame", "os.path.exists", "int"}


def table_part(x):
    return x.args[1] in ("empty", "columns", "iloc", "loc", "values") and tables.istable(x.args[0])


def cmp_read(**kw):
    return C.Cmp(calls=READ, mcalls={"strip", "drop", "sort_values", "sample", "dropna"}, extra={"setattr", "nzpos"}, distinct=READ, attrs=table_part, **kw)


class Readers:
    def __init__(self, ctx):
        self.ctx, self.W = ctx, ctx.W
        self.SRC, self.DST = const("<source column>"), const("<target column>")
        self.file, self.sep, self.skip = sym("filename"), sym("delimiter"), sym("skip_rows")

    def fn(self, name):
        return self.W.get(R_MOD, name)

    def sp(self, name, *a):
        return self.ctx.spec("io", name, *a)

    def where(self, name):
        return self.ctx.where(self.fn(name))

    def read(self, name, **kw):
        st = self.W.base()
        return self.W.call(self.fn(name), [], kw, st)

    def part(self, o, name):
        """What the builder (the first part of the result) was given."""
        v = o.value
        if isinstance(v, Ref) and o.state.heap[v.cid].kind == "tuple" and o.state.heap[v.cid].items:
            v = o.state.heap[v.cid].items[0]
        return self.W.I.tm(self.W.I.getattr(v, name, o.state), o.state)

    def networks(self):
        """(label, outcome, table, offset, feature columns) of every way to read a network."""
        W = self.W
        for zero in (None, True, False):
            off = const(1 if zero is False else 0)
            lab = {None: "index base omitted", True: "zero-based file", False: "one-based file"}[zero]
            kw = dict(filename=self.file, delimiter=self.sep, src_col=self.SRC, dest_col=self.DST)
            if zero is not None:
                kw["start_index_zero"] = const(zero)
            yield "read_tntp", lab, lambda kw=kw: self.read("read_tntp", skip_rows=self.skip, **kw), \
                self.sp("tntp", self.file, self.sep, self.skip), off, "others"
            N.LISTS.add(sym("feature_cols"))
            yield "read_csv", lab + ", features given", \
                lambda kw=kw: self.read("read_csv", feature_cols=sym("feature_cols"), **kw), \
                self.sp("csv", self.file, self.sep), off, "given"
            for none in ("omitted", "None"):
                k = dict(kw) if none == "omitted" else dict(kw, feature_cols=NONE)
                yield "read_csv", f"{lab}, features {none}", lambda k=k: self.read("read_csv", **k), \
                    self.sp("csv", self.file, self.sep), off, "none"


# ------------------------------------------------------------------ C19
def features(ctx):
    R = Readers(ctx)
    for name, lab, run, df, off, cols in R.networks():
        w = R.where(name)
        what = f"{name}, {lab}"
        with guarded(ctx, "features", what, w):
            o = run()
            if o.dead:
                ctx.ob("features", what, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                continue
            got = R.part(o, "edge_features")
            if cols == "none":
                want, wrong = mk("dict"), ()
            else:
                c = sym("feature_cols") if cols == "given" else R.sp("other_columns", df, R.SRC, R.DST)
                a = (df, R.SRC, R.DST, off, c)
                want = R.sp("features", *a)
                wrong = [("the values are those of the row at the position of the edge", R.sp("features_by_position", *a)),
                         ("the values are those of the last row of the edge", R.sp("features_of_last_row", *a)),
                         ("the values are those of the last row of the edge", R.sp("features_of_last_row_2", *a))]
            ctx.equal("features", f"{what}: every edge has the values of its own row", got, want, w, cmp=cmp_read(), wrong=wrong,
                      facts=[S.Not(mk("isnone", sym("feature_cols")))] if cols == "given" else ())
            ctx.equal("features", f"{what}: no node features", R.part(o, "node_features"), mk("dict"), w, cmp=cmp_read())


# ------------------------------------------------------------------ C20
def networks(ctx):
    R = Readers(ctx)
    for name, lab, run, df, off, cols in R.networks():
        w = R.where(name)
        what = f"{name}, {lab}"
        with guarded(ctx, "network", what, w):
            o = run()
            if o.dead:
                ctx.ob("network", what, BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
                continue
            ctx.equal("edges", f"{what}: each undirected pair once, sorted", R.part(o, "edges"),
                      R.sp("edges", df, R.SRC, R.DST, off), w, cmp=cmp_read(), wrong=[
                          ("the edges are sorted by their first endpoint only", R.sp("edges_by_source", df, R.SRC, R.DST, off)),
                          ("the edges are not in the direction of the file", R.sp("smaller_first", df, R.SRC, R.DST, off)),
                          ("the edges are not in the direction of the file", R.sp("smaller_first_2", df, R.SRC, R.DST, off)),
                          ("an edge listed in both directions is read twice", R.sp("both_directions", df, R.SRC, R.DST, off)),
                          ("the edges are not sorted", R.sp("unsorted_edges", df, R.SRC, R.DST, off))])
            ctx.equal("nodes", f"{what}: all ids from zero to the largest", R.part(o, "nodes"),
                      R.sp("nodes", df, R.SRC, R.DST, off), w, cmp=cmp_read(), wrong=[
                          ("ids without an edge are left out", R.sp("only_ends", df, R.SRC, R.DST, off)),
                          ("the ids are counted, the largest one can be left out", R.sp("number_of_ends", df, R.SRC, R.DST, off)),
                          ("these are the edges", R.sp("edges", df, R.SRC, R.DST, off))])
    w = R.where("read_coordinates")
    cols = [const(f"<{x} column>") for x in ("node", "x", "y")]
    for zero in (None, True, False):
        lab = {None: "index base omitted", True: "zero-based file", False: "one-based file"}[zero]
        with guarded(ctx, "coordinates", lab, w):
            kw = dict(filename=R.file, delimiter=R.sep, node_id_col=cols[0], x_col=cols[1], y_col=cols[2])
            if zero is not None:
                kw["start_index_zero"] = const(zero)
            o = R.read("read_coordinates", **kw)
            ctx.equal("coordinates", f"read_coordinates, {lab}: node id to (x, y), None for a missing file", o.term,
                      R.sp("coordinates", R.file, *cols, R.sep, const(1 if zero is False else 0)), w, cmp=cmp_read())
    w = R.where("read_flow")
    with guarded(ctx, "flow", "read_flow", w):
        for lab, kw, a in (("defaults", {}, (const("\t"), const("infer"))),
                           ("separator and header given", dict(sep=R.sep, header=sym("header")), (R.sep, sym("header")))):
            o = R.read("read_flow", filename=R.file, **kw)
            ctx.equal("flow", f"read_flow, {lab}: the table of the file, empty for a missing file", o.term,
                      R.sp("flow", R.file, *a), w, cmp=cmp_read())


# ------------------------------------------------------------------ C21
def incidence(ctx):
    R = Readers(ctx)
    w = R.where("read_B1_B2")
    B1, B2 = sym("B1_filename"), sym("B2_filename")
    with guarded(ctx, "incidence", "read_B1_B2", w):
        o = R.read("read_B1_B2", B1_filename=B1, B2_filename=B2)
        if o.dead:
            ctx.ob("incidence", "read_B1_B2", BAD, w, f"raises {sorted({e.exc for e in o.exits})}")
            return
        ctx.equal("edges", "each column is the edge from its -1 row to its +1 row, sorted", R.part(o, "edges"), R.sp("incidence_edges", B1), w, cmp=cmp_read())
        ctx.equal("nodes", "all ids from zero to the largest", R.part(o, "nodes"), R.sp("incidence_nodes", B1), w, cmp=cmp_read())
        ctx.equal("triangles", "each triangle spans the edges at its nonzero positions, in column order",
                  S.Idx(o.term, ONE), R.sp("incidence_triangles", B1, B2), w, cmp=cmp_read(),
                  wrong=[("the edges are sorted before the columns are looked up", R.sp("triangles_of_sorted_edges", B1, B2))])
