"""Positive and negative examples: each rule must fire on a tiny program that breaks it and stay quiet on one that does not.

The programs are in /verif/examples; nothing of /repo is read.
"""
import os

from sa import compare as C
from sa.terms import const, sym
from sa.world import World

from .util import uniq

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Bench:
    def __init__(self):
        self.W = World(os.path.join(HERE, "examples"))
        self.n, self.bad = 0, []

    def expect(self, what, got, want):
        self.n += 1
        if got != want:
            self.bad.append(f"{what}: {got!r} instead of {want!r}")

    def state(self):
        st = self.W.base()
        W = self.W
        p = dict(a=W.parr(st, "a", (sym("n"), sym("n"))), b=W.parr(st, "b", (sym("n"), sym("n"))), v=W.parr(st, "v", (sym("n"),)),
                 items=W.plist(st, "items"), values=W.parr(st, "values", (sym("n"),)), c=sym("c"), x=sym("x"), eps=sym("eps"),
                 steps=sym("steps"), seed=sym("seed"), key=sym("key"), value=sym("value"), path=sym("path"), name=uniq("other"), part=const("sec"))
        return st, p

    def run(self, fn, *params):
        st, p = self.state()
        return self.W.call(self.W.get("tiny", fn), [p[q] for q in params], {}, st)

    def same(self, f, g, *params):
        return C.Cmp(calls={"pandas.read_csv"})(self.run(f, *params).term, self.run(g, *params).term)

    def roots(self, o):
        return sorted({e.root[0] for e in o.effects})


def main():
    B = Bench()
    abv = ("a", "b", "v")
    B.expect("a product split over two statements", B.same("product", "product_split", *abv), C.EQUAL)
    B.expect("the transposed product", B.same("product", "product_transposed", *abv), C.EQUAL)
    B.expect("a product in the other order", B.same("product", "product_swapped", *abv), C.DIFFERENT)
    B.expect("one step less", B.same("power_loop", "power_loop_short", "a", "v", "steps") == C.EQUAL, False)
    B.expect("a closed threshold", B.same("threshold", "threshold_closed", "values", "eps"), C.DIFFERENT)
    B.expect("a threshold by a loop differs", B.same("threshold", "threshold_loop", "values", "eps") == C.DIFFERENT, False)
    B.expect("another column", B.same("column", "column_other", "path"), C.DIFFERENT)
    # effects and aliases
    for f, ps, want in (("scale_inplace", ("v", "c"), ["param"]), ("scale_copy", ("v", "c"), []),
                        ("append_alias", ("items", "x"), ["param"]), ("append_copy", ("items", "x"), []),
                        ("remember", ("key", "value"), ["global"]), ("default_list", ("x",), ["default"])):
        B.expect(f"effects of {f}", B.roots(B.run(f, *ps)), want)
    st, p = B.state()
    o = B.W.call(B.W.get("tiny", "Counter"), [p["items"]], {}, st)
    B.W.mark_state(o.state, o.value, "counter")
    for m, want in (("total", []), ("total_cached", True), ("clear", True)):
        r = B.W.meth(o.value, m, [], {}, o.state)
        B.expect(f"effects of Counter.{m}", bool(r.effects) if want is True else B.roots(r), want)
    # random sources and process-wide settings
    for f, ps, want in (("shuffled", ("items",), "globalrng:"), ("shuffled_own", ("items", "seed"), None),
                        ("reseed", ("seed",), "globalseed:")):
        names = [str(e.name) for e in B.run(f, *ps).events]
        got = next((n for n in names if n.startswith(("globalrng:", "globalseed:", "entropy:"))), None)
        B.expect(f"random source of {f}", got is None if want is None else str(got).startswith(want), True)
    B.expect("process-wide settings of quiet", [e.name for e in B.run("quiet").events], ["warnings.filterwarnings"])
    # names
    for f, n, want in (("choose", "name", True), ("choose", "part", True), ("choose_substring", "part", False), ("choose_else", "name", False)):
        o = B.run(f, n, "a", "b")
        B.expect(f"an unknown name in {f} is rejected", bool(o.dead) and all(e.exc.split(":")[0] == "ValueError" for e in o.exits), want)
    for line in B.bad:
        print("selftest FAILED:", line)
    print(f"selftest: {B.n} examples, {B.n - len(B.bad)} as expected")
    return 1 if B.bad else 0
