"""Obligations, evidence and the exit protocol of the checks."""
from __future__ import annotations

import hashlib
import json
import os
import sys
import time

from . import compare as C
from . import normal as N
from . import shapes
from . import simplify as S
from .interp import ClassV, ExtV, FuncV, Phi, PropV, Ref, StaticV
from .project import Module
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T, const, is_const, mk, show, subterms, sym
from .world import AnchorLost, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OK, BAD, UNDECIDED = "ok", "violation", "undecided"


class Ctx:
    """One run of the check of one property."""

    def __init__(self, pid, tier, repo):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.W = World(repo)
        self.I = self.W.I
        self.obs = []
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self._specs = {}

    thorough = property(lambda self: self.tier == "thorough")

    # ---------------------------------------------------------- anchors
    def where(self, f):
        """path:line (name) of a function value."""
        while not isinstance(f, FuncV):
            if isinstance(f, PropV):
                f = f.fget
            elif isinstance(f, StaticV):
                f = f.fn
            elif isinstance(f, Phi):
                f = f.a
            elif isinstance(f, ClassV):
                m = self.W.P.modules.get(f.module)
                return f"{m.path if m else f.module}:{f.node.lineno} class {f.name}"
            else:
                return str(f)
        m = self.W.P.modules.get(f.module)
        return f"{m.path if m else f.module}:{getattr(f.node, 'lineno', 0)} {f.qual}"

    def method_where(self, cls, name):
        v, _ = cls.lookup(name)
        return self.where(v) if v is not None else f"{cls.name}.{name}"

    # ---------------------------------------------------------- specs
    def spec(self, mod, name, *args, st=None, want="term"):
        """Term of a reference definition in /verif/spec."""
        full = "spec." + mod
        if full not in self.W.P.modules:
            import ast
            p = os.path.join(VERIF, "spec", mod + ".py")
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.W.P.modules[full] = Module(full, "spec/" + mod + ".py", ast.parse(src, p), False)
            self.I.module(full)
        fn = self.I.mods[full][name]
        s = self.W.base() if st is None else st.copy()
        save = (self.I.exc, self.I.events, self.I.effects)
        o = self.W.call(fn, list(args), {}, s)
        if o.dead:
            raise RuntimeError(f"spec {mod}.{name} has no result")
        self.I.exc, self.I.events, self.I.effects = save
        return o.term if want == "term" else o

    # ---------------------------------------------------------- obligations
    def ob(self, rule, construct, verdict, where="", detail=""):
        self.obs.append({"rule": rule, "construct": construct, "verdict": verdict,
                         "where": where, "detail": detail})
        return verdict == OK

    def require(self, rule, construct, value, where="", detail=""):
        """value: True / False / None (could not be decided)."""
        v = OK if value is True else (BAD if value is False else UNDECIDED)
        return self.ob(rule, construct, v, where, detail)

    def equal(self, rule, construct, got, want, where="", cmp=None, facts=(), detail="", wrong=(), also=()):
        """got must equal one of the reference terms.

        wrong: (what, term) of definitions that are known to differ from them;
        also: further definitions that satisfy the property."""
        cmp = cmp or C.Cmp()
        wants = want if isinstance(want, (list, tuple)) else [want]
        if got is None:
            return self.ob(rule, construct, BAD, where, "no value is returned")
        res, why = [], None
        for w in wants:
            r = cmp(got, w, facts)
            res.append(r)
            if r == C.EQUAL:
                return self.ob(rule, construct, OK, where)
            if why is None or r == C.DIFFERENT:
                why = cmp.why
        for w in also:
            if cmp(got, w, facts) == C.EQUAL:
                return self.ob(rule, construct, OK, where)
        if all(r == C.DIFFERENT for r in res):
            return self.ob(rule, construct, BAD, where, detail + C.explain(why))
        for what, w in wrong:
            if cmp(got, w, facts) == C.EQUAL:
                return self.ob(rule, construct, BAD, where, detail + what)
        return self.ob(rule, construct, UNDECIDED, where, detail + C.explain(why))

    def raises(self, rule, construct, o, exc="ValueError", where="", allow_implicit=False):
        """The call must end in exc on every path."""
        if not o.dead:
            names = sorted({e.exc for e in o.exits})
            t = o.term
            opaque = t is not None and not self.returned(o, t) or self.perhaps(o, exc)
            return self.ob(rule, construct, BAD if not opaque or t is NONE else UNDECIDED, where,
                           f"the call returns {C.short(N.nf(t)) if t is not None else ''} instead of raising {exc}; raises seen: {names}")
        kinds = [(e.exc.split(':')[0], e.implicit) for e in o.exits]
        if any(k == exc for k, _ in kinds) and all(k == exc for k, imp in kinds if not imp or True):
            return self.ob(rule, construct, OK, where)
        wrong = [k for k, _ in kinds if k != exc]
        return self.ob(rule, construct, BAD, where, f"the call ends in {wrong} instead of {exc}")

    def perhaps(self, o, exc):
        """One of the raises depends on something that is not understood."""
        cmp = C.Cmp(extra={"obj", "new"}, calls={"os.listdir", "pkg_resources.resource_filename"}, attrs=True)
        return any(e.exc.split(":")[0] == exc and not all(cmp.rigid(N.nf(g)) for g in e.guard) for e in o.exits)

    def returned(self, o, t):
        """The result is certain to be one: no unknown call that might raise made it."""
        cmp = C.Cmp(extra={"obj", "new"}, calls={"os.listdir", "pkg_resources.resource_filename"}, attrs=True)
        if isinstance(o.value, Ref) and o.value.cid in o.state.heap and o.state.heap[o.value.cid].cls is not None:
            return True
        return cmp.rigid(N.nf(t))

    def clean(self, rule, construct, o, where="", roots=("param", "state", "default", "global", "memo"), allow=()):
        """The call has no observable mutation of objects of these origins."""
        bad = []
        for e in o.effects:
            if e.root[0] in roots and not any(a(e) for a in allow):
                bad.append(e)
        if bad:
            e = bad[0]
            return self.ob(rule, construct, BAD, f"{e.loc[0]}:{e.loc[1]}",
                           f"{e.what} on {fmt_origin(e.root)} (via {' > '.join(x.split(':')[-1] for x in e.stack)})")
        return self.ob(rule, construct, OK, where)

    # ---------------------------------------------------------- finish
    def key(self, ob):
        return f"{ob['rule']}|{ob['construct']}"

    def misfits(self):
        """Calls between functions of the repository that do not fit the function called."""
        for (loc, callee, what), (caller, facts) in sorted(self.I.misfits.items(), key=lambda x: (str(x[0]), x[1][0])):
            path = [(N.nf(c), True) for c in facts]
            if any(c is FALSE for c, _ in path) or not C.feasible([x for x in path if x[0] is not TRUE]):
                continue
            self.ob("calls", f"{caller} calls {callee}", BAD, f"{loc[0]}:{loc[1]}", f"{callee} is called {what}, so the call always fails")
        self.I.misfits = {}

    def finish(self, level, explanation, known):
        self.misfits()
        bad = [o for o in self.obs if o["verdict"] == BAD]
        und = [o for o in self.obs if o["verdict"] == UNDECIDED]
        okn = [o for o in self.obs if o["verdict"] == OK]
        known_here = [o for o in bad if (self.pid, self.key(o)) in known]
        new = [o for o in bad if (self.pid, self.key(o)) not in known]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o["rule"], {"ok": 0, "violation": 0, "undecided": 0})
            r[o["verdict"]] += 1
        ev = {
            "property": self.pid, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obs), "discharged": len(okn),
                "undecided": len(und), "violations": len(new), "known_findings": len(known_here),
                "rules": rules,
                "modules_parsed": len([m for m in self.W.P.modules if not m.startswith("spec.")]),
                "functions_analysed": len([a for a in self.I.analysed if not a[0].startswith("spec/")]),
                "functions": sorted({f"{p}:{q}" for p, q in self.I.analysed if not p.startswith("spec/")}),
                "call_sites_resolved": self.I.callsites,
                "library_functions_without_model": sorted(self.I.unmodelled),
                "undecided_obligations": [{k: o[k] for k in ("rule", "construct", "where", "detail")} for o in und][:80],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [{k: o[k] for k in ("rule", "construct", "where", "detail")} for o in new],
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + ".json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.pid}: {len(self.obs)} obligations, {len(okn)} hold, {len(und)} undecided, {len(bad)} violated; "
              f"{ev['coverage']['functions_analysed']} functions of {ev['coverage']['modules_parsed']} modules analysed, "
              f"{self.I.callsites} call sites")
        for o in und:
            print(f"  UNDECIDED {o['rule']} [{o['construct']}] {o['where']} {o['detail'][:300]}")
        for o in known_here:
            print(f"KNOWN-FINDING: property={self.pid} {known[(self.pid, self.key(o))]}")
        if not self.obs:
            print(f"analysis error: no obligation was generated for {self.pid}", file=sys.stderr)
            return 2
        if new:
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w", encoding="utf-8") as fh:
                for o in new:
                    fh.write(f"rule: {o['rule']}\nconstruct: {o['construct']}\nat: {o['where']}\n{o['detail']}\n\n")
            for o in new:
                print(f"  {o['where']}: rule {o['rule']}: {o['construct']}: {o['detail'][:900]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def fmt_origin(o):
    return " ".join(str(x) for x in o)


def load_known():
    """Known findings: lines  'known: property=<id> key=<rule|construct> <what>'"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                rest = line[len("known:"):].strip()
                pid, rest = rest.split(" ", 1)
                key, what = rest.split(" :: ", 1)
                out[(pid.split("=", 1)[1], key.split("=", 1)[1].strip())] = what
    return out
