"""Abstract interpreter: an interprocedural dataflow analysis over the Python
syntax trees of the package.

For every function it computes
  * the gated value term of each result (value numbering; joins are `ite`
    nodes, loops are summarised by scalar-evolution style closed forms),
  * the exits by exception with the condition under which they happen,
  * the mutation effects, with the root object each one reaches,
  * the ordered calls to external objects (events),
on a heap of abstract objects named by allocation site.  No code of the
package is ever executed; joins keep a single abstract state per program
point, loops are analysed once per fixpoint round.
"""
from __future__ import annotations

import ast

from . import shapes
from . import simplify as S
from .simplify import (FULL, Add, And, Cat, Div, Eq, Idx, In, Index, IsNone,
                       Ite, Le, Len, Lt, MatMul, Mul, Neg, Not, Or, Pow,
                       Scatter, Sub, Tr, truth)
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, T, const, contains, cval,
                    fresh_bv, fresh_id, is_const, is_num, mk, occurs, show,
                    subst, subterms, sym)


class Dead(Exception):
    """The current path ends here (a raise was recorded)."""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cid == self.cid

    def __hash__(self):
        return hash(("ref", self.cid))

    def __repr__(self):
        return f"Ref({self.cid})"


class Phi:
    """A value that differs by condition and is not a plain term."""

    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class Fn:
    def __init__(self):
        self.uid = fresh_id()


FN_TABLE: dict = {}


# positional arguments of methods of libraries that are called with *point
STAR_ARITY = {"text": 3, "add_edge": 2}


class FuncV(Fn):
    def __init__(self, node, module, fid, name, cls=None, bound=None,
                 defaults=None, kwdefaults=None, flags=()):
        super().__init__()
        self.node, self.module, self.fid, self.name = node, module, fid, name
        self.cls, self.bound = cls, bound
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.flags = tuple(flags)
        self.attrs = {}

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def bind(self, recv):
        f = FuncV(self.node, self.module, self.fid, self.name, self.cls, recv,
                  self.defaults, self.kwdefaults, self.flags)
        f.uid = (self.uid, recv if not isinstance(recv, Ref) else recv.cid)
        return f


class ClassV(Fn):
    def __init__(self, name, module, node):
        super().__init__()
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.env = {}
        self.order = []
        self.is_enum = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.env:
                return c.env[name], c
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, ExtV):
                    out.append(b.name)
        return out

    def is_sub(self, other):
        return other in self.mro()


class ExtV(Fn):
    """An external module, function or class, by canonical dotted name."""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


class MethV(Fn):
    def __init__(self, recv, name):
        super().__init__()
        self.recv, self.name = recv, name


class PartialV(Fn):
    def __init__(self, fn, args, kw):
        super().__init__()
        self.fn, self.args, self.kw = fn, args, kw


class SuperV(Fn):
    def __init__(self, cls, recv):
        super().__init__()
        self.cls, self.recv = cls, recv


class PropV(Fn):
    def __init__(self, fget, fset=None, cached=False):
        super().__init__()
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV(Fn):
    def __init__(self, fn, kind):
        super().__init__()
        self.fn, self.kind = fn, kind


class ModV(Fn):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))


def known_len(t):
    """Length of an ordered copy, or a slice of one, of something written out."""
    if t.op in ("list", "tuple"):
        return len(t.args)
    if t.op in ("sorted", "listof", "tupleof") and len(t.args) == 1:
        return known_len(t.args[0])
    if t.op == "idx" and t.args[1].op == "slice" and all(x is NONE or x.op == "const" and isinstance(cval(x), int) for x in t.args[1].args):
        n = known_len(t.args[0])
        return None if n is None else len(range(n)[slice(*[cval(x) for x in t.args[1].args])])
    return None


def kind_known(t):
    n = known_len(t)
    return n is not None and n <= UNROLL


class Cell:
    __slots__ = ("kind", "val", "items", "cls", "attrs", "origin", "base", "site", "extra")

    def __init__(self, kind, val=None, items=None, cls=None, attrs=None,
                 origin=("alloc",), base=(), site=None, extra=None):
        self.kind, self.val, self.items = kind, val, items
        self.cls, self.attrs = cls, attrs
        self.origin, self.base, self.site, self.extra = origin, base, site, extra

    def rep(self, **kw):
        d = {s: getattr(self, s) for s in Cell.__slots__}
        d.update(kw)
        return Cell(**d)


class State:
    __slots__ = ("heap", "frames", "facts", "ctx", "globs")

    def __init__(self, heap=None, frames=None, facts=(), ctx=(), globs=None):
        self.heap = heap if heap is not None else {}
        self.frames = frames if frames is not None else {}
        self.facts = facts
        self.ctx = ctx
        self.globs = globs if globs is not None else {}

    def copy(self):
        return State(dict(self.heap), dict(self.frames), self.facts, self.ctx, dict(self.globs))

    def assign(self, o):
        self.heap, self.frames, self.facts, self.ctx, self.globs = (
            o.heap, o.frames, o.facts, o.ctx, o.globs)


class Exit:
    __slots__ = ("guard", "exc", "loc", "implicit", "stack", "val", "nev", "state")

    def __init__(self, guard, exc, loc, implicit, stack, val=None, nev=0, state=None):
        self.guard, self.exc, self.loc = guard, exc, loc
        self.implicit, self.stack, self.val, self.nev = implicit, stack, val, nev
        self.state = state


class Event:
    __slots__ = ("name", "recv", "args", "kw", "guard", "loops", "ctx", "loc", "stack", "result", "tags")

    def __init__(self, name, recv, args, kw, guard, loops, ctx, loc, stack, result=None, tags=()):
        self.name, self.recv, self.args, self.kw = name, recv, args, kw
        self.guard, self.loops, self.ctx = guard, loops, ctx
        self.loc, self.stack, self.result, self.tags = loc, stack, result, tags

    def __repr__(self):
        r = f"{show(self.recv)}." if self.recv is not None else ""
        return f"{r}{self.name}({', '.join(map(show, self.args))}; {', '.join(f'{k}={show(v)}' for k, v in self.kw.items())})"


class Effect:
    __slots__ = ("root", "what", "guard", "loc", "stack", "val", "cid")

    def __init__(self, root, what, guard, loc, stack, val=None, cid=None):
        self.root, self.what, self.guard, self.loc, self.stack = root, what, guard, loc, stack
        self.val, self.cid = val, cid

    def __repr__(self):
        return f"Effect({self.root}, {self.what}, {self.loc})"


class Outcome:
    """Result of analysing one entry call."""

    def __init__(self, value, term, state, exits, events, effects, dead):
        self.value, self.term, self.state = value, term, state
        self.exits, self.events, self.effects, self.dead = exits, events, effects, dead


BUILTINS = {
    "len", "range", "enumerate", "zip", "list", "dict", "tuple", "set",
    "frozenset", "sorted", "reversed", "sum", "min", "max", "abs", "any",
    "all", "isinstance", "print", "map", "filter", "str", "int", "float",
    "bool", "round", "iter", "next", "type", "super", "getattr", "setattr",
    "hasattr", "open", "callable", "id", "hash", "repr", "vars", "object",
    "issubclass", "pow", "divmod", "property", "staticmethod", "classmethod",
    "complex", "slice", "format", "ord", "chr", "bytes", "globals", "locals",
    "delattr", "dir", "exec", "eval", "input", "NotImplemented", "Ellipsis",
}
EXC_NAMES = {
    "Exception", "BaseException", "ValueError", "TypeError", "KeyError",
    "IndexError", "AttributeError", "RuntimeError", "AssertionError",
    "NotImplementedError", "ZeroDivisionError", "FileNotFoundError", "OSError",
    "IOError", "StopIteration", "LookupError", "ImportError", "ArithmeticError",
    "ModuleNotFoundError", "UserWarning", "DeprecationWarning", "Warning",
    "RuntimeWarning", "FutureWarning", "OverflowError", "UnicodeDecodeError",
}
EXC_PARENTS = {
    "KeyError": {"LookupError"}, "IndexError": {"LookupError"},
    "FileNotFoundError": {"OSError", "IOError"},
    "ModuleNotFoundError": {"ImportError"},
    "ZeroDivisionError": {"ArithmeticError"}, "OverflowError": {"ArithmeticError"},
    "NotImplementedError": {"RuntimeError"}, "UnicodeDecodeError": {"ValueError"},
}

MAX_DEPTH = 40
UNROLL = 24


def early_reads(target, body):
    """Names assigned in a loop body which an iteration may read before it has assigned them."""
    stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    out = []

    def expr(e, have):
        if e is None:
            return
        own = {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        own |= {a.arg for c in ast.walk(e) if isinstance(c, ast.Lambda) for a in c.args.args}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored and n.id not in have and n.id not in own and n.id not in out:
                out.append(n.id)
        have.update(n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr))

    def names(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def block(stmts, have):
        """Names certainly assigned afterwards, or None if the end is not reached."""
        for x in stmts:
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                expr(x.value, have)
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if not isinstance(t, ast.Name):
                        expr(t, have)
                    have |= names(t)
            elif isinstance(x, ast.AugAssign):
                expr(x.value, have)
                if isinstance(x.target, ast.Name) and x.target.id not in have and x.target.id not in out:
                    out.append(x.target.id)
                expr(x.target, have)
            elif isinstance(x, ast.If):
                expr(x.test, have)
                a, b = block(x.body, set(have)), block(x.orelse, set(have))
                if a is None and b is None:
                    return None
                have = a if b is None else b if a is None else a & b
            elif isinstance(x, (ast.For, ast.While)):
                expr(x.iter if isinstance(x, ast.For) else x.test, have)
                block(x.body, set(have) | (names(x.target) if isinstance(x, ast.For) else set()))
                block(x.orelse, set(have))
            elif isinstance(x, ast.With):
                for i in x.items:
                    expr(i.context_expr, have)
                    if i.optional_vars is not None:
                        have |= names(i.optional_vars)
                r = block(x.body, have)
                if r is None:
                    return None
                have = r
            elif isinstance(x, ast.Try):
                before = set(have)
                ends = [block(x.body + x.orelse, set(have))] + [block(h.body, set(before)) for h in x.handlers]
                ends = [e for e in ends if e is not None]
                if not ends:
                    return None
                have = set.intersection(*ends)
                r = block(x.finalbody, have)
                if r is None:
                    return None
                have = r
            elif isinstance(x, (ast.Continue, ast.Break)):
                return None
            elif isinstance(x, (ast.Return, ast.Raise)):
                for c in ast.iter_child_nodes(x):
                    expr(c, have)
                return None
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete)):
                pass
            else:
                for c in ast.iter_child_nodes(x):
                    if isinstance(c, ast.expr):
                        expr(c, have)
        return have

    block(body, names(target))
    return out


class Interp:
    def __init__(self, project):
        self.project = project
        self.floats = set()     # cells of arrays made into floats
        self.elements = {}      # cell -> element type of a buffer that is not of floats
        self.numbers = set()    # symbols whose elements are numbers
        self.fresh_layouts = False      # tell random layouts made at different moments apart
        self.stops = []                 # conditions under which loops were left early
        self.devices = False           # the device that holds a tensor is part of its value
        self.tensors = False            # arrays are tensors: .std() divides by n - 1
        self.imported = []      # (module, events, effects) of every module body
        self.mods = {}          # module name -> env
        self.modstate = State()
        self.gframe = {}
        self.exc = []
        self.events = []
        self.effects = []
        self.misfits = {}       # calls that do not fit the function called
        self.stack = []         # call stack of function quals
        self.locs = []          # current (path, line)
        self.loops = []         # enclosing symbolic loops (D, bv)
        self.sites = {}         # term -> location of first creation
        self.unmodelled = {}    # external name -> first location
        self.files = None              # answers questions about the files of the repository
        self.phi_init = {}
        self.rnd = 0
        self.quiet = 0
        self.memo_cells = {}
        self.analysed = set()   # functions whose body was analysed
        self.callsites = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ locations
    def loc(self):
        return self.locs[-1] if self.locs else ("?", 0)

    def note(self, t):
        if isinstance(t, T) and t not in self.sites and self.locs:
            self.sites[t] = self.locs[-1]
        return t

    # ------------------------------------------------------------ cells
    def alloc(self, st, kind, val=None, **kw):
        cid = fresh_id()
        st.heap[cid] = Cell(kind, val, site=self.loc(), **kw)
        if val is not None:
            self.note(val)
        return Ref(cid)

    def arr(self, st, t, base=()):
        return self.alloc(st, "arr", t, base=base)

    def unk(self, st, t, base=()):
        return self.alloc(st, "unk", t, base=base)

    def cell(self, st, r):
        return st.heap[r.cid]

    def view(self, st, t, base_value):
        """A value that may alias part of base_value."""
        b = self.bases_of(base_value)
        if not b:
            if isinstance(t, T) and (t.op == "const" or is_num(t)):
                return t
            return t
        return self.alloc(st, "unk", t, base=b)

    def bases_of(self, v):
        if isinstance(v, Ref):
            return (v.cid,)
        if isinstance(v, Phi):
            return self.bases_of(v.a) + self.bases_of(v.b)
        return ()

    def roots(self, st, cid, seen=None):
        """Origins of the objects a cell may be (part of)."""
        seen = seen if seen is not None else set()
        if cid in seen:
            return set()
        seen.add(cid)
        c = st.heap.get(cid)
        if c is None:
            return set()
        if c.base:
            out = set()
            for b in c.base:
                out |= self.roots(st, b, seen)
            return out
        return {(c.origin, cid)}

    def tm(self, v, st):
        """Snapshot term of a value."""
        if isinstance(v, T):
            return v
        if isinstance(v, Phi):
            return Ite(v.c, self.tm(v.a, st), self.tm(v.b, st))
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.kind in ("list", "tuple", "set") and c.items is not None:
                return mk(c.kind, *[self.tm(x, st) for x in c.items])
            if c.kind == "dict" and c.items is not None:
                return mk("dict", *[mk("kv", k, self.tm(x, st)) for k, x in c.items.items()])
            if c.val is not None:
                return c.val
            return mk("obj", v.cid)
        if isinstance(v, ExtV):
            FN_TABLE[("ext", v.name)] = v
            return mk("fn", "ext", v.name)
        if isinstance(v, ModV):
            FN_TABLE[("mod", v.name)] = v
            return mk("fn", "mod", v.name)
        if isinstance(v, ClassV):
            FN_TABLE[("class", v.name)] = v
            return mk("fn", "class", v.name)
        if isinstance(v, FuncV):
            key = ("func", v.module, v.qual, getattr(v.node, "lineno", 0), getattr(v.node, "col_offset", 0),
                   str(v.uid) if v.bound is not None or isinstance(v.node, ast.Lambda) or v.fid is not None else "")
            FN_TABLE[key] = v
            return mk("fn", *key)
        if isinstance(v, Fn):
            FN_TABLE[("other", str(v.uid))] = v
            return mk("fn", "other", str(v.uid))
        raise Unsupported(f"snapshot {type(v)}")

    def unterm(self, t):
        """Recover a function value from its term."""
        if isinstance(t, T) and t.op == "fn":
            return FN_TABLE.get(t.args, t)
        if isinstance(t, T) and t.op == "ite" and contains(t, lambda x: x.op in ("fn",)):
            return Phi(t.args[0], self.unterm(t.args[1]), self.unterm(t.args[2]))
        return t

    def inst_of(self, t, st):
        if isinstance(t, T) and t.op == "obj" and t.args[0] in st.heap:
            return Ref(t.args[0])
        return t

    # ------------------------------------------------------------ effects
    def effect(self, st, v, what, val=None):
        if isinstance(v, Phi):
            self.effect(st, v.a, what, val)
            self.effect(st, v.b, what, val)
            return
        if not isinstance(v, Ref):
            return
        for (origin, cid) in sorted(self.roots(st, v.cid), key=str):
            if origin[0] != "alloc":
                self.effects.append(Effect(origin, what, st.facts, self.loc(),
                                           tuple(self.stack), val, cid))

    def event(self, st, name, recv, args, kw, result=None, tags=()):
        e = Event(name, recv, list(args), dict(kw), st.facts, tuple(self.loops),
                  st.ctx, self.loc(), tuple(self.stack), result, tags)
        self.events.append(e)
        return e

    def raise_(self, st, exc, cond=TRUE, implicit=False, val=None):
        """Record an exit by exception under cond; dead if cond is certain."""
        cond = self.known(cond, st)
        if cond is FALSE:
            return
        g = st.facts + ((cond,) if cond is not TRUE else ())
        self.exc.append(Exit(g, exc, self.loc(), implicit, tuple(self.stack), val, len(self.events),
                             st.copy() if not implicit and cond is TRUE else None))
        if cond is TRUE:
            raise Dead()
        self.assume(st, Not(cond))

    def assume(self, st, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == "and" else (c,)):
            if x not in st.facts:
                st.facts = st.facts + (x,)

    def known(self, c, st):
        """Fold a condition under the facts of the current path."""
        if c.op == "const":
            return truth(c)
        if c in st.facts:
            return TRUE
        if Not(c) in st.facts:
            return FALSE
        if c.op == "and":
            return And(*[self.known(x, st) for x in c.args])
        if c.op == "or":
            return Or(*[self.known(x, st) for x in c.args])
        if c.op == "not":
            return Not(self.known(c.args[0], st))
        if c.op == "eq" or c.op == "in" or c.op == "lt" or c.op == "le" or c.op == "isnone" or c.op == "truthy":
            m = {}
            for f in st.facts:
                if f.op == "eq":
                    a, b = f.args
                    if b.op == "const" and a.op != "const":
                        m[a] = b
                    elif a.op == "const" and b.op != "const":
                        m[b] = a
                elif f.op == "isnone":
                    m[f.args[0]] = NONE
            if m:
                r = subst(c, m)
                if r.op == "const":
                    return truth(r)
            if c.op == "truthy":
                r = mk("isnone", c.args[0])
                if r in st.facts:
                    return FALSE
        return c

    # ------------------------------------------------------------ modules
    def module(self, name):
        env = self.mods.get(name)
        if env is not None:
            return env
        m = self.project.modules.get(name)
        if m is None:
            return None
        env = {"__name__": const(name)}
        self.mods[name] = env
        save = (self.locs, self.stack, self.exc, self.events, self.effects, self.loops)
        self.locs, self.stack, self.exc, self.events, self.effects, self.loops = [(m.path, 0)], [], [], [], [], []
        st = self.modstate
        fid = fresh_id()
        st.frames[fid] = {"__module__": name, "__envmod__": True}
        try:
            self.exec_block(m.tree.body, st, fid)
        except Dead:
            pass
        self.imported.append((name, self.events, self.effects))
        (self.locs, self.stack, self.exc, self.events, self.effects, self.loops) = save
        # objects created at import time are shared by every later call
        for k, v in list(env.items()):
            self.mark_global(st, v, ("global", name, k))
        return env

    def mark_global(self, st, v, origin, seen=None):
        seen = seen or set()
        if isinstance(v, Ref) and v.cid not in seen:
            seen.add(v.cid)
            c = st.heap[v.cid]
            if c.origin == ("alloc",):
                st.heap[v.cid] = c.rep(origin=origin)
            if c.items:
                for x in (c.items.values() if isinstance(c.items, dict) else c.items):
                    self.mark_global(st, x, origin, seen)

    def import_name(self, cur, level, module, name=None):
        """Resolve an import to a Value."""
        if level:
            m = self.project.modules[cur]
            parts = cur.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (level - 1)]
            base = ".".join(parts + ([module] if module else []))
        else:
            base = module
        if base.split(".")[0] == self.project.package:
            env = self.module(base)
            # importing a submodule runs the parent packages first
            if name is None:
                return ModV(base)
            if env is not None and name in env:
                return env[name]
            sub = base + "." + name
            if sub in self.project.modules:
                self.module(sub)
                return ModV(sub)
            return ExtV(sub)
        return self.ext(base if name is None else base + "." + name)

    def ext(self, dotted):
        return ExtV(self.models.canonical(dotted))

    # ------------------------------------------------------------ frames
    def frame(self, st, fid):
        return st.frames[fid]

    def module_of(self, st, fid):
        f = st.frames[fid]
        while "__module__" not in f:
            f = st.frames[f["__parent__"]]
        return f["__module__"]

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is None:
                break
            if fr.get("__class__") and f != fid:
                f = fr.get("__parent__")
                continue
            if name in fr and not (name in fr.get("__globals__", ())):
                return fr[name]
            if fr.get("__envmod__"):
                break
            f = fr.get("__parent__")
        mod = self.module_of(st, fid)
        if (mod, name) in st.globs:
            return st.globs[(mod, name)]
        env = self.mods.get(mod, {})
        if name in env:
            return env[name]
        if name in EXC_NAMES:
            return ExtV("builtins." + name)
        if name in BUILTINS:
            return ExtV("builtins." + name)
        if name == "__file__":
            return const(mod)
        return None

    def store_name(self, name, v, st, fid):
        fr = st.frames[fid]
        if fr.get("__envmod__"):
            self.mods[fr["__module__"]][name] = v
            return
        if name in fr.get("__globals__", ()):
            mod = self.module_of(st, fid)
            st.globs[(mod, name)] = v
            self.effects.append(Effect(("global", mod, name), "rebind", st.facts, self.loc(), tuple(self.stack)))
            return
        if name in fr.get("__nonlocals__", ()):
            p = fr.get("__parent__")
            while p is not None:
                pf = st.frames[p]
                if name in pf:
                    st.frames[p] = {**pf, name: v}
                    return
                p = pf.get("__parent__")
        st.frames[fid] = {**fr, name: v}

    # ------------------------------------------------------------ statements
    # exec returns a list of abrupt completions; st is updated in place and
    # Dead is raised when no normal completion is possible.
    def exec_block(self, stmts, st, fid):
        for s in stmts:
            self.exec_stmt(s, st, fid)

    def exec_stmt(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        path = self.locs[-1][0] if self.locs else "?"
        self.locs.append((path, getattr(s, "lineno", 0)))
        try:
            if m is None:
                raise Unsupported(f"statement {type(s).__name__}")
            return m(s, st, fid)
        finally:
            self.locs.pop()

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, fid)

    def s_Pass(self, s, st, fid):
        pass

    def s_Import(self, s, st, fid):
        for a in s.names:
            if a.asname:
                v = self.import_name(self.module_of(st, fid), 0, a.name)
                self.store_name(a.asname, v, st, fid)
            else:
                top = a.name.split(".")[0]
                self.import_name(self.module_of(st, fid), 0, a.name)
                self.store_name(top, self.import_name(self.module_of(st, fid), 0, top), st, fid)

    def s_ImportFrom(self, s, st, fid):
        for a in s.names:
            if a.name == "*":
                base = self.import_name(self.module_of(st, fid), s.level, s.module)
                if isinstance(base, ModV):
                    for k, v in list(self.mods.get(base.name, {}).items()):
                        if not k.startswith("_"):
                            self.store_name(k, v, st, fid)
                continue
            v = self.import_name(self.module_of(st, fid), s.level, s.module or "", a.name)
            self.store_name(a.asname or a.name, v, st, fid)

    def s_Global(self, s, st, fid):
        fr = st.frames[fid]
        st.frames[fid] = {**fr, "__globals__": tuple(fr.get("__globals__", ())) + tuple(s.names)}

    def s_Nonlocal(self, s, st, fid):
        fr = st.frames[fid]
        st.frames[fid] = {**fr, "__nonlocals__": tuple(fr.get("__nonlocals__", ())) + tuple(s.names)}

    def make_func(self, node, st, fid, name, cls=None):
        defaults, kwdefaults = [], {}
        a = node.args
        for p, d in zip((a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else [], a.defaults):
            v = self.eval(d, st, fid)
            if isinstance(v, Ref) and st.heap[v.cid].origin == ("alloc",):
                st.heap[v.cid] = st.heap[v.cid].rep(origin=("default", name, p.arg))
            defaults.append(v)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.eval(d, st, fid)
                if isinstance(v, Ref) and st.heap[v.cid].origin == ("alloc",):
                    st.heap[v.cid] = st.heap[v.cid].rep(origin=("default", name, p.arg))
                kwdefaults[p.arg] = v
        fr = st.frames[fid]
        closure = None if fr.get("__envmod__") else fid
        return FuncV(node, self.module_of(st, fid), closure, name, cls, None, defaults, kwdefaults)

    def s_FunctionDef(self, s, st, fid):
        v = self.make_func(s, st, fid, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fid)
        self.store_name(s.name, v, st, fid)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, st, fid):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            base = self.eval(d.value, st, fid)
            if isinstance(base, PropV):
                if d.attr == "setter":
                    return PropV(base.fget, v, base.cached)
                if d.attr == "getter":
                    return PropV(v, base.fset, base.cached)
                return base
        dv = self.eval(d, st, fid)
        return self.apply_decorator(dv, v, st)

    def apply_decorator(self, dv, v, st):
        if isinstance(dv, ExtV):
            n = dv.name
            if n == "builtins.property":
                return PropV(v)
            if n == "builtins.staticmethod":
                return StaticV(v, "static")
            if n == "builtins.classmethod":
                return StaticV(v, "class")
            if n == "functools.cached_property":
                return PropV(v, None, True)
            if n in ("functools.lru_cache", "functools.cache"):
                f = FuncV(v.node, v.module, v.fid, v.name, v.cls, v.bound, v.defaults, v.kwdefaults, v.flags + ("memo",))
                return f
            if n in ("functools.wraps", "abc.abstractmethod", "typing.final", "typing.overload",
                     "functools.singledispatch", "torch.no_grad", "typing.no_type_check"):
                return v
        if isinstance(dv, PartialV) and isinstance(dv.fn, ExtV):
            n = dv.fn.name
            if n in ("functools.lru_cache", "functools.cache"):
                return FuncV(v.node, v.module, v.fid, v.name, v.cls, v.bound, v.defaults, v.kwdefaults, v.flags + ("memo",))
            if n in ("functools.wraps",):
                return v
            return v
        if isinstance(dv, FuncV):
            return self.call(dv, [v], {}, st)
        return v

    def s_ClassDef(self, s, st, fid):
        c = ClassV(s.name, self.module_of(st, fid), s)
        for b in s.bases:
            v = self.eval(b, st, fid)
            c.bases.append(v)
            if isinstance(v, ExtV) and v.name in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag"):
                c.is_enum = True
            if isinstance(v, ClassV) and v.is_enum:
                c.is_enum = True
        cf = fresh_id()
        st.frames[cf] = {"__parent__": fid if not st.frames[fid].get("__envmod__") else None,
                         "__module__": self.module_of(st, fid), "__class__": True}
        self.exec_block(s.body, st, cf)
        fr = st.frames[cf]
        for k, v in fr.items():
            if k.startswith("__") and k in ("__parent__", "__module__", "__class__", "__globals__", "__envmod__"):
                continue
            v = self.own(v, c)
            if c.is_enum and not k.startswith("_") and not isinstance(v, (Fn,)):
                t = mk("enum", c.name, k)
                FN_TABLE[("enum", c.name, k)] = v
                c.order.append(k)
                c.env[k] = t
            else:
                self.mark_global(st, v, ("global", c.name, k))
                c.env[k] = v
        ENUMS[c.name] = c
        v = c
        for d in reversed(s.decorator_list):
            self.eval(d, st, fid)
        self.store_name(s.name, v, st, fid)

    def own(self, v, c):
        if isinstance(v, FuncV):
            if v.cls is None:
                v.cls = c
            if v.fid is not None and v.fid and isinstance(v.node, (ast.FunctionDef, ast.Lambda)):
                v.fid = None if self._is_class_frame(v.fid) else v.fid
        elif isinstance(v, PropV):
            self.own(v.fget, c)
            if v.fset:
                self.own(v.fset, c)
        elif isinstance(v, StaticV):
            self.own(v.fn, c)
        return v

    def _is_class_frame(self, fid):
        fr = self.modstate.frames.get(fid)
        return bool(fr and fr.get("__class__"))

    def s_Return(self, s, st, fid):
        v = self.eval(s.value, st, fid) if s.value is not None else NONE
        self.rets[-1].append((st.facts, v, st.copy()))
        raise Dead()

    def s_Break(self, s, st, fid):
        self.brks[-1].append((st.facts, st.copy()))
        self.stops.append(st.facts)
        raise Dead()

    def s_Continue(self, s, st, fid):
        self.conts[-1].append((st.facts, st.copy()))
        raise Dead()

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = dict(st.frames[fid])
                fr.pop(t.id, None)
                st.frames[fid] = fr
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fid)
                k = self.eval_index(t.slice, st, fid)
                self.container_method(b, "__delitem__", [k], {}, st)
            else:
                b = self.eval(t.value, st, fid)
                self.effect(st, b, f"del .{t.attr}")

    def s_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        self.raise_(st, "AssertionError", Not(c))

    def s_Raise(self, s, st, fid):
        if s.exc is None:
            self.raise_(st, getattr(self, "handling", "Exception"))
        e = s.exc
        name = "Exception"
        val = None
        if isinstance(e, ast.Call):
            f = self.eval(e.func, st, fid)
            args = []
            for a in e.args:
                try:
                    args.append(self.tm(self.eval(a, st, fid), st))
                except Unsupported:
                    pass
            val = mk("tuple", *args)
            name = self.exc_name(f)
        else:
            f = self.eval(e, st, fid)
            name = self.exc_name(f)
        self.raise_(st, name, val=val)

    def exc_name(self, f):
        if isinstance(f, ExtV):
            return f.name.split(".")[-1]
        if isinstance(f, ClassV):
            for b in f.ext_bases():
                return b.split(".")[-1] + ":" + f.name
            return f.name
        if isinstance(f, Ref):
            return getattr(self, "handling", "Exception")
        if isinstance(f, T) and f.op == "exc":
            return f.args[0]
        return "Exception"

    def s_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if c is TRUE:
            return self.exec_block(s.body, st, fid)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fid)
        self.branch(st, c, lambda x: self.exec_block(s.body, x, fid),
                    lambda x: self.exec_block(s.orelse, x, fid))

    def branch(self, st, c, f, g):
        base = st.facts
        a, b = st.copy(), st.copy()
        self.assume(a, c)
        self.assume(b, Not(c))
        va = vb = None
        try:
            va = f(a)
        except Dead:
            a = None
        try:
            vb = g(b)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        if a is None:
            st.assign(b)
            return vb
        if b is None:
            st.assign(a)
            return va
        m = self.merge(c, a, b, base)
        st.assign(m)
        if va is not None or vb is not None:
            return self.join(c, va, vb, st)
        return None

    def s_Match(self, s, st, fid):
        subj = self.eval(s.subject, st, fid)
        subj_t = self.tm(subj, st)

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return Eq(subj_t, self.tm(self.eval(p.value, st, fid), st)), None
            if isinstance(p, ast.MatchSingleton):
                return (IsNone(subj_t) if p.value is None else Eq(subj_t, const(p.value))), None
            if isinstance(p, ast.MatchOr):
                return Or(*[pat(q)[0] for q in p.patterns]), None
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return TRUE, p.name
            raise Unsupported("match pattern")

        def go(i, x):
            if i == len(s.cases):
                return
            case = s.cases[i]
            c, name = pat(case.pattern)
            if name:
                self.store_name(name, subj, x, fid)
            if case.guard is not None:
                c = And(c, self.cond(case.guard, x, fid))
            c = self.known(c, x)
            if c is TRUE:
                return self.exec_block(case.body, x, fid)
            if c is FALSE:
                return go(i + 1, x)
            self.branch(x, c, lambda y: self.exec_block(case.body, y, fid), lambda y: go(i + 1, y))

        go(0, st)

    # ------------------------------------------------------------ joins
    def join(self, c, a, b, st):
        if a is b or (a is not None and a == b):
            return a
        if a is None:
            a = NONE
        if b is None:
            b = NONE
        plain = lambda v: isinstance(v, T) and v.op not in ("obj",)
        if plain(a) and plain(b):
            return Ite(c, a, b)
        ca = st.heap.get(a.cid) if isinstance(a, Ref) else None
        cb = st.heap.get(b.cid) if isinstance(b, Ref) else None
        if isinstance(a, Fn) or isinstance(b, Fn) or isinstance(a, Phi) or isinstance(b, Phi):
            return Phi(c, a, b)
        if (ca and ca.kind == "inst") or (cb and cb.kind == "inst"):
            return Phi(c, a, b)
        t = Ite(c, self.tm(a, st), self.tm(b, st))
        kinds = {x.kind for x in (ca, cb) if x}
        if ca and cb and ca.kind == cb.kind == "tuple" and len(ca.items) == len(cb.items):
            return self.alloc(st, "tuple", items=[self.join(c, x, y, st) for x, y in zip(ca.items, cb.items)])
        if ca and cb and ca.kind == cb.kind == "dict" and ca.items is not None and cb.items is not None \
                and list(ca.items) == list(cb.items):
            r = self.alloc(st, "dict", items={k: self.join(c, ca.items[k], cb.items[k], st) for k in ca.items},
                           base=())
            st.heap[r.cid] = st.heap[r.cid].rep(extra=("phi", a.cid, b.cid))
            return r
        k = kinds.pop() if len(kinds) == 1 and ca and cb else "unk"
        if k in ("tuple",):
            k = "unk"
        bases = tuple(x.cid for x in (a, b) if isinstance(x, Ref))
        return self.alloc(st, k, t, base=bases)

    def merge(self, c, a, b, base):
        """Join of the states after the two branches on c."""
        heap = {}
        pend = []
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                heap[k] = x
            elif x is None:
                heap[k] = y
            elif y is None:
                heap[k] = x
            else:
                heap[k] = x
                pend.append((k, x, y))
        st = State(heap, {}, base, a.ctx, {})
        # values are compared against their own branch state
        for k, x, y in pend:
            st.heap[k] = self.merge_cell(c, x, y, a, b, st)
        for f in a.frames.keys() | b.frames.keys():
            x, y = a.frames.get(f), b.frames.get(f)
            if x is y or y is None:
                st.frames[f] = x
            elif x is None:
                st.frames[f] = y
            else:
                d = {}
                for n in list(x) + [n for n in y if n not in x]:
                    if n not in x:
                        d[n] = y[n]
                    elif n not in y:
                        d[n] = x[n]
                    elif x[n] is y[n] or x[n] == y[n]:
                        d[n] = x[n]
                    elif n.startswith("__"):
                        d[n] = x[n]
                    else:
                        d[n] = self.join2(c, x[n], y[n], a, b, st)
                st.frames[f] = d
        for k in a.globs.keys() | b.globs.keys():
            x, y = a.globs.get(k), b.globs.get(k)
            st.globs[k] = x if x == y or y is None else (y if x is None else self.join2(c, x, y, a, b, st))
        nb = len(base)
        ea = [f for f in a.facts[nb:] if f is not c and f not in (c.args if c.op == "and" else ())]
        nc = Not(c)
        eb = [f for f in b.facts[nb:] if f is not nc and f not in (nc.args if nc.op == "and" else ())]
        if ea or eb:
            g = Or(And(c, *ea), And(nc, *eb))
            if g is not TRUE:
                self.assume(st, g)
        return st

    def join2(self, c, x, y, a, b, st):
        """Join values x of state a and y of state b into st."""
        if isinstance(x, Ref) and isinstance(y, Ref) and x.cid == y.cid:
            return x
        if isinstance(x, T) and isinstance(y, T):
            return Ite(c, x, y)
        # snapshot through the branch states, which hold the values
        if isinstance(x, Ref) or isinstance(y, Ref):
            cx = a.heap.get(x.cid) if isinstance(x, Ref) else None
            cy = b.heap.get(y.cid) if isinstance(y, Ref) else None
            if isinstance(x, (Fn, Phi)) or isinstance(y, (Fn, Phi)) or (cx and cx.kind == "inst") or (cy and cy.kind == "inst"):
                return Phi(c, x, y)
            if cx and cy and cx.kind == cy.kind == "dict" and cx.items is not None and cy.items is not None \
                    and list(cx.items) == list(cy.items):
                return self.alloc(st, "dict", items={
                    k: self.join2(c, cx.items[k], cy.items[k], a, b, st) for k in cx.items})
            if cx and cy and cx.kind == cy.kind and cx.kind in ("tuple", "list") and cx.items is not None \
                    and cy.items is not None and len(cx.items) == len(cy.items):
                return self.alloc(st, cx.kind, items=[
                    self.join2(c, p, q, a, b, st) for p, q in zip(cx.items, cy.items)],
                    extra=("phi", x.cid, y.cid) if cx.kind == "list" else None)
            t = Ite(c, self.tm(x, a), self.tm(y, b))
            k = cx.kind if cx and cy and cx.kind == cy.kind and cx.kind != "tuple" else "unk"
            bases = tuple(v.cid for v in (x, y) if isinstance(v, Ref))
            return self.alloc(st, k, t, base=bases)
        return Phi(c, x, y)

    def merge_cell(self, c, x, y, a, b, st):
        if x.kind == "inst" and y.kind == "inst":
            attrs = {}
            for n in list(x.attrs) + [n for n in y.attrs if n not in x.attrs]:
                p, q = x.attrs.get(n), y.attrs.get(n)
                if p is not None and q is not None:
                    attrs[n] = p if p == q else self.join2(c, p, q, a, b, st)
                else:
                    attrs[n] = p if p is not None else q
                    if x.val is not None:   # symbolic instance: lazily read attribute
                        present = p if p is not None else q
                        s2 = a if p is not None else b
                        lazy = mk("attr", x.val, n)
                        if self.tm(present, s2) is not lazy:
                            attrs[n] = self.join2(c, p if p is not None else lazy, q if q is not None else lazy, a, b, st)
            return x.rep(attrs=attrs)
        if x.items is not None and y.items is not None and type(x.items) is type(y.items):
            if isinstance(x.items, dict) and list(x.items) == list(y.items):
                return x.rep(items={k: (x.items[k] if x.items[k] == y.items[k] else
                                        self.join2(c, x.items[k], y.items[k], a, b, st)) for k in x.items})
            if isinstance(x.items, list) and len(x.items) == len(y.items):
                return x.rep(items=[p if p == q else self.join2(c, p, q, a, b, st)
                                    for p, q in zip(x.items, y.items)])
        tx = self.cell_term(x, a)
        ty = self.cell_term(y, b)
        return x.rep(items=None, val=Ite(c, tx, ty))

    def cell_term(self, c, st):
        if c.items is not None:
            if c.kind == "dict":
                return mk("dict", *[mk("kv", k, self.tm(x, st)) for k, x in c.items.items()])
            return mk(c.kind, *[self.tm(x, st) for x in c.items])
        return c.val if c.val is not None else mk("obj", 0)

    # ------------------------------------------------------------ assignment
    def s_Assign(self, s, st, fid):
        v = self.eval(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fid), st, fid)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fid)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fid)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fid)
            k = self.eval_index(t.slice, st, fid)
            self.setitem(b, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            raise Unsupported("assign target")

    def unpack(self, elts, v, st, fid):
        items = self.known_items(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None:
            if star:
                i = star[0]
                n = len(elts) - 1
                tail = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, st, fid)
                mid = items[i: len(items) - tail]
                self.assign(elts[i], self.alloc(st, "list", items=list(mid)), st, fid)
                for e, x in zip(elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, st, fid)
                return
            if len(items) == len(elts):
                for e, x in zip(elts, items):
                    self.assign(e, x, st, fid)
                return
            self.raise_(st, "ValueError", implicit=True)
        if isinstance(v, Phi):
            t = v
            for i, e in enumerate(elts):
                self.assign(e, self.getitem(v, const(i), st), st, fid)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                raise Unsupported("starred unpack of unknown sequence")
            self.assign(e, self.getitem(v, const(i), st), st, fid)

    def known_items(self, v, st):
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.kind in ("list", "tuple", "set") and c.items is not None:
                return list(c.items)
            if c.kind == "dict" and c.items is not None:
                return list(c.items.keys())
            if c.kind == "iter" and c.items is not None:
                return list(c.items)
            v = c.val
        if isinstance(v, T):
            if v.op in ("list", "tuple", "set"):
                return [self.unterm(x) for x in v.args]
            if v.op == "dict":
                return [kv.args[0] for kv in v.args]
            if v.op in ("sorted", "listof", "tupleof", "idx") and kind_known(v):
                n = known_len(v)
                return [S.Idx(v, const(i)) for i in range(n)]
            if v.op == "const" and isinstance(cval(v), str) and not isinstance(cval(v), S.Uniq):
                return [const(ch) for ch in cval(v)]
            if v.op == "range" and all(is_const(a) for a in v.args):
                r = range(*[cval(a) for a in v.args])
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
        if isinstance(v, ClassV) and v.is_enum:
            return [v.env[k] for k in v.order]
        return None

    def s_AugAssign(self, s, st, fid):
        t = s.target
        op = type(s.op).__name__
        rhs = self.eval(s.value, st, fid)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid)
            if cur is None:
                raise Unsupported(f"unbound {t.id}")
            nv = self.inplace(cur, op, rhs, st)
            self.store_name(t.id, nv, st, fid)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fid)
            k = self.eval_index(t.slice, st, fid)
            cur = self.getitem(b, k, st)
            nv = self.binop(cur, op, rhs, st)
            self.setitem(b, k, nv, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fid)
            cur = self.getattr(b, t.attr, st)
            nv = self.inplace(cur, op, rhs, st)
            self.setattr(b, t.attr, nv, st)

    def inplace(self, cur, op, rhs, st):
        """x op= y: in place for mutable objects, rebinding otherwise."""
        if isinstance(cur, Ref):
            c = st.heap[cur.cid]
            if c.kind == "list" and op == "Add":
                self.container_method(cur, "extend", [rhs], {}, st)
                return cur
            if c.kind == "set" and op == "BitOr":
                self.container_method(cur, "update", [rhs], {}, st)
                return cur
            if c.kind == "dict" and op == "BitOr":
                self.container_method(cur, "update", [rhs], {}, st)
                return cur
            rep = self.models.rep(self, self.tm(cur, st))
            nt = self.binop(cur, op, rhs, st)
            ntt = self.tm(nt, st)
            if rep in ("sparse", "scalar", "str", "tuple"):
                return nt
            if c.kind == "arr" and not c.base:
                if c.origin != ("alloc",):
                    self.effect(st, cur, f"in-place {op}", ntt)
                st.heap[cur.cid] = c.rep(val=ntt)
                self.note(ntt)
                return cur
            roots = self.roots(st, cur.cid)
            scalar_view = c.extra == "elem"
            if not scalar_view:
                self.effect(st, cur, f"in-place {op}", ntt)
                self.write_through(st, cur, ntt)
                new = st.heap[nt.cid] if isinstance(nt, Ref) else None
                st.heap[cur.cid] = c.rep(val=new.val, items=new.items) if new is not None and new.items is not None else c.rep(val=ntt, items=None)
                return cur
            return nt
        return self.binop(cur, op, rhs, st)

    def write_through(self, st, r, newval):
        """A whole-object in-place update of a view changes its base too."""
        c = st.heap[r.cid]
        for b in c.base:
            bc = st.heap.get(b)
            if bc is None:
                continue
            if c.extra == "alias" and bc.val is not None:
                st.heap[b] = bc.rep(val=newval)
                self.write_through(st, Ref(b), newval)
            elif bc.val is not None:
                st.heap[b] = bc.rep(val=mk("opaque", "write through a view", bc.val, newval))

    # ------------------------------------------------------------ attributes
    def setattr(self, b, name, v, st):
        if isinstance(b, Phi):
            self.setattr(b.a, name, v, st)
            self.setattr(b.b, name, v, st)
            return
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind == "inst":
                if c.cls is not None:
                    d, _ = c.cls.lookup(name)
                    if isinstance(d, PropV) and d.fset is not None:
                        self.call(d.fset, [b, v], {}, st)
                        return
                self.effect(st, b, f"set .{name}", self.tm(v, st))
                attrs = dict(c.attrs)
                attrs[name] = v
                st.heap[b.cid] = c.rep(attrs=attrs)
                return
            self.effect(st, b, f"set .{name}")
            if c.val is not None:
                st.heap[b.cid] = c.rep(val=mk("setattr", c.val, name, self.tm(v, st)), items=None)
            return
        if isinstance(b, ClassV):
            self.effects.append(Effect(("global", b.name, name), "set class attribute", st.facts, self.loc(), tuple(self.stack)))
            return
        if isinstance(b, (ExtV, ModV)):
            self.event(st, "setattr:" + b.name + "." + name, None, [self.tm(v, st)], {})
            return
        if isinstance(b, FuncV):
            self.effects.append(Effect(("global", b.qual, name), "set function attribute", st.facts, self.loc(), tuple(self.stack)))
            return
        if isinstance(b, T):
            self.event(st, "setattr." + name, b, [self.tm(v, st)], {})

    def getattr(self, b, name, st, default=None):
        if isinstance(b, T):
            b = self.inst_of(self.unterm(b), st)
        if isinstance(b, Phi):
            xa, xb = st.copy(), None
            return self.both(b, st, lambda v, s: self.getattr(v, name, s, default))
        if isinstance(b, ModV):
            env = self.module(b.name)
            if name in env:
                return env[name]
            if b.name + "." + name in self.project.modules:
                self.module(b.name + "." + name)
                return ModV(b.name + "." + name)
            return ExtV(b.name + "." + name)
        if isinstance(b, ExtV):
            return self.models.ext_attr(self, b, name, st)
        if isinstance(b, ClassV):
            v, c = b.lookup(name)
            if v is None:
                if name == "__name__":
                    return const(b.name)
                if name == "__members__" and b.is_enum:
                    return self.alloc(st, "dict", items={const(k): b.env[k] for k in b.order})
                return ExtV(f"{b.name}.{name}")
            if isinstance(v, StaticV):
                return v.fn if v.kind == "static" else (v.fn.bind(b) if isinstance(v.fn, FuncV) else v.fn)
            return v
        if isinstance(b, SuperV):
            mro = self.dyn_class(b.recv, st, b.cls).mro()
            i = mro.index(b.cls) if b.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.env:
                    return self.bind_member(c.env[name], b.recv, st)
            return MethV(b.recv, "super." + name)
        if isinstance(b, FuncV):
            if name == "__name__":
                return const(b.name)
            if name == "__func__":
                return b
            return MethV(b, name)
        if isinstance(b, PropV):
            return MethV(b, name)
        if isinstance(b, Fn):
            return MethV(b, name)
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind == "inst":
                if name in c.attrs:
                    return c.attrs[name]
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return self.alloc(st, "dict", items={const(k): v for k, v in c.attrs.items()})
                if c.cls is not None:
                    v, _ = c.cls.lookup(name)
                    if v is not None:
                        if isinstance(v, PropV) and v.cached:
                            return self.cached_prop(v, b, name, st)
                        return self.bind_member(v, b, st)
                    if c.cls.is_enum and False:
                        pass
                return self.models.inst_ext_attr(self, b, c, name, st, default)
            return self.models.attr(self, b, name, st)
        if isinstance(b, T):
            return self.models.attr(self, b, name, st)
        raise Unsupported(f"getattr {name}")

    def cached_prop(self, p, recv, name, st):
        v = self.call(p.fget, [recv], {}, st)
        c = st.heap[recv.cid]
        attrs = dict(c.attrs)
        if isinstance(v, Ref) and st.heap[v.cid].origin == ("alloc",):
            st.heap[v.cid] = st.heap[v.cid].rep(origin=("attr", name, c.origin))
        attrs[name] = v
        self.effect(st, recv, f"cache .{name}")
        st.heap[recv.cid] = st.heap[recv.cid].rep(attrs=attrs)
        return v

    def dyn_class(self, recv, st, dflt):
        if isinstance(recv, Ref) and st.heap[recv.cid].cls is not None:
            return st.heap[recv.cid].cls
        return dflt

    def bind_member(self, v, recv, st):
        if isinstance(v, FuncV):
            return v.bind(recv)
        if isinstance(v, PropV):
            return self.call(v.fget, [recv], {}, st)
        if isinstance(v, StaticV):
            if v.kind == "static":
                return v.fn
            return v.fn.bind(self.dyn_class(recv, st, None)) if isinstance(v.fn, FuncV) else v.fn
        return v

    def both(self, p, st, f):
        """Apply f to both sides of a conditional value."""
        c = self.known(p.c, st)
        if c is TRUE:
            return f(p.a, st)
        if c is FALSE:
            return f(p.b, st)
        out = {}

        def fa(s):
            return f(p.a, s)

        def fb(s):
            return f(p.b, s)

        return self.branch(st, c, fa, fb)

    # ------------------------------------------------------------ subscripts
    def eval_index(self, n, st, fid):
        if isinstance(n, ast.Slice):
            f = lambda x: self.tm(self.eval(x, st, fid), st) if x is not None else NONE
            return mk("slice", f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            vs = [self.eval_index(e, st, fid) for e in n.elts]
            return mk("tuple", *[self.tm(v, st) for v in vs])
        return self.eval(n, st, fid)

    def getitem(self, b, k, st):
        if isinstance(b, Phi):
            return self.both(b, st, lambda v, s: self.getitem(v, k, s))
        if isinstance(b, ClassV) and b.is_enum:
            kt = self.tm(k, st)
            if is_const(kt) and cval(kt) in b.env:
                return b.env[cval(kt)]
        if isinstance(b, (ExtV, ClassV)):
            return b           # typing subscripts
        if b is NONE and self.stack and self.stack[-1].startswith("pytspl."):
            self.raise_(st, "TypeError", implicit=True)
        if isinstance(k, Ref) or isinstance(k, Phi) or isinstance(k, Fn):
            kt = self.tm(k, st)
        else:
            kt = k
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind in ("list", "tuple") and c.items is not None:
                if is_const(kt) and isinstance(cval(kt), int):
                    n = len(c.items)
                    if -n <= cval(kt) < n:
                        return c.items[cval(kt)]
                    self.raise_(st, "IndexError", implicit=True)
                if kt.op == "slice" and all(a.op == "const" for a in kt.args):
                    return self.alloc(st, c.kind, items=c.items[slice(*[cval(a) for a in kt.args])])
            if c.kind == "dict" and c.items is not None:
                if kt in c.items:
                    return c.items[kt]
                if S._constlike(kt) and all(S._constlike(x) for x in c.items):
                    for x, v in c.items.items():
                        if S._constval(x) == S._constval(kt):
                            return v
                    self.raise_(st, "KeyError", implicit=True)
                # dispatch table with a symbolic key
                if c.items and all(S._constlike(x) for x in c.items):
                    conds = [(self.known(Eq(kt, x), st), v) for x, v in c.items.items()]
                    self.raise_(st, "KeyError", Not(Or(*[x for x, _ in conds])), implicit=True)
                    out = conds[-1][1]
                    for cnd, v in reversed(conds[:-1]):
                        out = self.join(cnd, v, out, st)
                    return out
            if c.kind == "inst":
                m, _ = c.cls.lookup("__getitem__") if c.cls else (None, None)
                if m is not None:
                    return self.call(m.bind(b), [k], {}, st)
            base_t = self.tm(b, st)
            t = self.models.getitem(self, base_t, kt, st)
            if isinstance(t, (Fn, Ref, Phi)):
                return t
            if t.op in ("fn", "obj"):
                return self.inst_of(self.unterm(t), st)
            if t.op == "const" or t.op in ("bv", "enum"):
                return t
            if self.models.rep(self, t) in ("scalar", "str", "tuple"):
                return t
            if c.kind in ("list", "tuple") and kt.op == "slice":
                return self.alloc(st, c.kind, t)        # a new list (of the same elements)
            elem = "elem" if not contains_slice(kt) else None
            r = self.alloc(st, "unk", t, base=(b.cid,))
            st.heap[r.cid] = st.heap[r.cid].rep(extra=elem)
            return r
        if isinstance(b, T):
            t = self.models.getitem(self, b, kt, st)
            return self.inst_of(self.unterm(t), st)
        if isinstance(b, Fn):
            return b
        raise Unsupported("getitem")

    def setitem(self, b, k, v, st):
        if isinstance(b, Phi):
            self.setitem(b.a, k, v, st)
            self.setitem(b.b, k, v, st)
            return
        kt = self.tm(k, st)
        if isinstance(b, (ExtV, ModV)):
            self.event(st, "setitem:" + b.name, None, [kt, self.tm(v, st)], {})
            return
        if not isinstance(b, Ref):
            return
        c = st.heap[b.cid]
        vt = self.tm(v, st)
        self.effect(st, b, f"store [{show(kt)}]", vt)
        if c.kind == "inst" and c.cls is not None:
            m, _ = c.cls.lookup("__setitem__")
            if m is not None:
                self.call(m.bind(b), [k, v], {}, st)
                return
        if c.kind == "dict" and c.items is not None:
            if kt in c.items or (S._constlike(kt) and all(S._constlike(x) for x in c.items)):
                items = dict(c.items)
                items[kt] = v
                st.heap[b.cid] = c.rep(items=items)
                return
        if c.kind == "list" and c.items is not None and is_const(kt) and isinstance(cval(kt), int):
            n = len(c.items)
            if -n <= cval(kt) < n:
                items = list(c.items)
                items[cval(kt)] = v
                st.heap[b.cid] = c.rep(items=items)
                return
        from .lib import stored
        cur = self.cell_term(c, st)
        nv = cur
        for k1, v1 in listed_keys(kt, stored(self, b, vt)):
            nv = self.store_term(nv, k1, v1)
        self.note(nv)
        st.heap[b.cid] = c.rep(val=nv, items=None)
        self.store_through(st, c, nv)

    def store_term(self, cur, kt, vt):
        if cur.op == "store" and cur.args[1] is kt:
            return mk("store", cur.args[0], kt, vt)
        return mk("store", cur, kt, vt)

    def store_through(self, st, c, nv):
        for bcid in c.base:
            bc = st.heap.get(bcid)
            if bc is None or bc.val is None:
                continue
            if c.extra == "alias":
                st.heap[bcid] = bc.rep(val=nv)
            elif c.val is not None and c.val.op == "idx" and c.val.args[0] is bc.val:
                st.heap[bcid] = bc.rep(val=mk("store", bc.val, c.val.args[1], nv))
            elif c.val is not None and c.val.op == "attr" and c.val.args[0] is bc.val and c.val.args[1] in ("edges", "nodes", "adj"):
                # the views of a graph write to the graph
                st.heap[bcid] = bc.rep(val=mk("setattr", bc.val, c.val.args[1], nv))
            else:
                st.heap[bcid] = bc.rep(val=mk("opaque", "store through a view", bc.val, nv))
            self.store_through(st, bc, st.heap[bcid].val)

    # ------------------------------------------------------------ containers
    def container_method(self, b, name, args, kw, st):
        return self.models.container_method(self, b, name, args, kw, st)

    # ------------------------------------------------------------ try / with
    def s_With(self, s, st, fid):
        names = []
        for it in s.items:
            mark = len(self.events)
            v = self.eval(it.context_expr, st, fid)
            t = self.tm(v, st)
            names.append(self.models.ctx_name(self, v, t))
            for e in self.events[mark:]:
                if str(e.name) == str(names[-1]):
                    e.tags = tuple(e.tags) + ("block",)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.models.ctx_enter(self, v, t, st), st, fid)
        old = st.ctx
        st.ctx = old + tuple(names)
        try:
            self.exec_block(s.body, st, fid)
        finally:
            st.ctx = old

    def s_Try(self, s, st, fid):
        start = st.copy()
        mark = len(self.exc)
        body_dead = False
        tm0 = self.try_modelled
        self.try_modelled = False
        self.try_depth += 1
        try:
            self.exec_block(s.body, st, fid)
        except Dead:
            body_dead = True
        finally:
            self.try_depth -= 1
        new = self.exc[mark:]
        del self.exc[mark:]
        nb = len(start.facts)
        handled = []
        for e in new:
            for h in s.handlers:
                if self.catches(h, e.exc, start, fid):
                    handled.append((h, e))
                    break
            else:
                self.exc.append(e)
        result = None if body_dead else st.copy()
        states = []
        if not body_dead:
            states.append((None, result))
        groups = {}
        for h, e in handled:
            groups.setdefault(id(h), (h, []))[1].append(e)
        for h in s.handlers:
            if id(h) in groups:
                continue
            # a handler for errors of calls we have no model of
            if self.models.body_may_raise(self, s.body, h):
                groups[id(h)] = (h, [Exit(start.facts + (mk("raises", fresh_id()),), "Exception", self.loc(), True, ())])
        self.try_modelled = tm0
        if s.orelse and not body_dead:
            try:
                self.exec_block(s.orelse, st, fid)
                states[0] = (None, st.copy())
            except Dead:
                states = []
        for h, es in groups.values():
            g = Or(*[And(*[self.rel(x, start.facts) for x in e.guard[nb:]]) for e in es])
            g = self.known(g, start)
            if g is FALSE:
                continue
            hs = start.copy()
            self.assume(hs, g)
            if h.name:
                self.store_name(h.name, mk("exc", es[0].exc), hs, fid)
            old = getattr(self, "handling", "Exception")
            self.handling = es[0].exc
            try:
                self.exec_block(h.body, hs, fid)
                states.append((g, hs))
            except Dead:
                pass
            finally:
                self.handling = old
        if not states:
            if s.finalbody:
                self.exec_block(s.finalbody, st, fid)
            raise Dead()
        # states with guard g are exceptional completions; the one with None is
        # the normal completion
        if states[0][0] is None:
            cur = states[0][1]
            rest = states[1:]
        else:
            cur = states[-1][1]
            rest = states[:-1]
        for g, hs in rest:
            cur = self.merge(g, hs, cur, start.facts)
        st.assign(cur)
        if s.finalbody:
            self.exec_block(s.finalbody, st, fid)

    def rel(self, f, facts):
        return TRUE if f in facts else f

    def catches(self, h, exc, st, fid):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            v = self.eval(t, st, fid)
            n = self.exc_name(v)
            e = exc.split(":")[0]
            if n == exc or n == e or n in ("Exception", "BaseException") or n in EXC_PARENTS.get(e, ()):
                return True
        return False

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fid):
        it = self.eval(s.iter, st, fid)
        self.for_each(it, st, fid,
                      lambda v, x: self.assign(s.target, v, x, fid),
                      lambda x: self.exec_block(s.body, x, fid),
                      s.orelse, (s.target, s.body))

    def for_each(self, it, st, fid, bind, body, orelse=(), code=None):
        if isinstance(it, Phi):
            # iterate over a join of two containers
            it = self.alloc(st, "unk", self.tm(it, st), base=self.bases_of(it))
        items = self.known_items(it, st)
        self.brks.append([])
        try:
            if items is not None and len(items) <= 64:
                self.unrolled(items, st, bind, body, orelse, fid)
            else:
                D, elem = self.iter_desc(it, st)
                if code is not None:
                    fr = st.frames[fid]
                    if not fr.get("__envmod__"):
                        for n in early_reads(*code):
                            # what is there is left over from the round before, if there was one
                            if n not in fr and n not in fr.get("__globals__", ()) and n not in fr.get("__nonlocals__", ()):
                                st.frames[fid] = fr = {**fr, n: mk("opaque", f"unbound {n}")}
                self.symbolic_loop(D, elem, st, fid, bind, body)
                if orelse:
                    self.exec_block(orelse, st, fid)
        finally:
            self.brks.pop()

    def unrolled(self, items, st, bind, body, orelse, fid):
        dead = False
        base = st.facts
        pending = []      # break states, with the order they were met
        for v in items:
            self.conts.append([])
            n = len(self.brks[-1])
            try:
                bind(v, st)
                body(st)
            except Dead:
                dead = True
            conts = self.conts.pop()
            if conts:
                cur = None if dead else st.copy()
                for g, s2 in reversed(conts):
                    gg = And(*g[len(base):]) if len(g) >= len(base) else And(*g)
                    cur = s2 if cur is None else self.merge(gg, s2, cur, base)
                dead = False
                st.assign(cur)
            if dead:
                break
        brks = self.brks[-1]
        if not dead and orelse:
            try:
                self.exec_block(orelse, st, fid)
            except Dead:
                dead = True
        if brks:
            cur = None if dead else st.copy()
            for g, s2 in reversed(brks):
                gg = And(*g[len(base):])
                cur = s2 if cur is None else self.merge(gg, s2, cur, base)
            st.assign(cur)
            self.brks[-1] = []
            return
        if dead:
            raise Dead()

    def iter_desc(self, it, st):
        """(domain length term, element function k -> Value)."""
        return self.models.iter_desc(self, it, st)

    def symbolic_loop(self, D, elem, st, fid, bind, body):
        k = fresh_bv()
        lid = fresh_id()
        carried = {}          # key -> phi
        start = st.copy()
        start_cids = set(start.heap)

        def key_term(key, s):
            if key[0] == "var":
                fr = s.frames.get(key[1], {})
                v = fr.get(key[2])
                return None if v is None else self.tm(v, s)
            if key[0] == "cell":
                return self.cell_term(s.heap[key[1]], s)
            if key[0] == "attr":
                v = s.heap[key[1]].attrs.get(key[2])
                if v is None:
                    c = s.heap[key[1]]
                    return mk("attr", c.val, key[2]) if c.val is not None else NONE
                return self.tm(v, s)
            v = s.globs.get(key[1])
            return NONE if v is None else self.tm(v, s)

        unshaped = set()
        for rnd in range(12):
            x = start.copy()
            for key, phi in carried.items():
                self.install(x, key, phi, start)
            marks = (len(self.exc), len(self.events), len(self.effects), [len(r) for r in self.rets[-1:]])
            self.loops.append((D, k))
            self.conts.append([])
            nb = len(self.brks[-1])
            nr = len(self.rets[-1]) if self.rets else 0
            base = x.facts
            dead = False
            rndsave = self.rnd
            try:
                v = elem(k, x)
                bind(v, x)
                body(x)
            except Dead:
                dead = True
            conts = self.conts.pop()
            self.loops.pop()
            if conts:
                cur = None if dead else x
                for g, s2 in reversed(conts):
                    gg = And(*g[len(base):])
                    cur = s2 if cur is None else self.merge(gg, s2, cur, base)
                x, dead = cur, False
            brk = self.brks[-1][nb:]
            changed = set()
            ends = ([] if dead else [x]) + [s2 for _, s2 in brk] + [r[2] for r in (self.rets[-1][nr:] if self.rets else [])]
            for e in ends:
                for f, fr in e.frames.items():
                    if f not in start.frames:
                        continue
                    for n, v in fr.items():
                        if n.startswith("__"):
                            continue
                        if n in start.frames[f]:
                            ref = start.frames[f][n]
                            kk = ("var", f, n)
                            if kk in carried:
                                continue
                            if v != ref:
                                changed.add(kk)
                for cid in start_cids:
                    a, b = start.heap[cid], e.heap.get(cid)
                    if b is None or a is b or ("cell", cid) in carried:
                        continue
                    if a.kind == "inst":
                        for n in b.attrs:
                            if ("attr", cid, n) in carried:
                                continue
                            if n not in a.attrs:
                                lazy = mk("attr", a.val, n) if a.val is not None else None
                                if lazy is not None and self.tm(b.attrs[n], e) is lazy:
                                    continue
                                changed.add(("attr", cid, n))
                            elif a.attrs[n] != b.attrs[n]:
                                changed.add(("attr", cid, n))
                    elif self.cell_term(a, start) is not self.cell_term(b, e):
                        changed.add(("cell", cid))
                for g in e.globs:
                    if ("glob", g) not in carried and e.globs[g] != start.globs.get(g):
                        changed.add(("glob", g))
            if not changed:
                redo = False
                for key, phi in carried.items():
                    if phi in shapes.SHAPES and not dead:
                        now = key_term(key, x)
                        if shapes.shape(now) != shapes.SHAPES[phi] or shapes.rep(now) != shapes.rep(phi):
                            shapes.SHAPES.pop(phi, None)
                            shapes.REPS.pop(phi, None)
                            unshaped.add(phi)
                            redo = True
                if not redo:
                    break
            # another round with the loop-carried values abstracted
            del self.exc[marks[0]:], self.events[marks[1]:], self.effects[marks[2]:]
            del self.brks[-1][nb:]
            if self.rets:
                del self.rets[-1][nr:]
            self.rnd = rndsave
            for key in sorted(changed, key=str):
                name = key[2] if key[0] in ("var", "attr") else f"c{len(carried)}"
                carried[key] = mk("phi", lid, f"{name}#{len(carried)}")
                it = key_term(key, start)
                self.phi_init[carried[key]] = it
                if shapes.shape(it) is not None and shapes.rep(it) in ("dense", "sparse") \
                        and not any(k2 in subterms(d) for _, k2 in self.loops for d in shapes.shape(it)):
                    # assumed, and checked once the body's effect is stable
                    shapes.SHAPES[carried[key]] = shapes.shape(it)
                    shapes.REPS[carried[key]] = shapes.rep(it)
        else:
            raise Unsupported("loop fixpoint not reached")

        # ---- summarise -------------------------------------------------
        new_exc = self.exc[marks[0]:]
        new_ev = self.events[marks[1]:]
        new_eff = self.effects[marks[2]:]
        new_ret = self.rets[-1][nr:] if self.rets else []
        if self.rets:
            del self.rets[-1][nr:]
        del self.brks[-1][nb:]
        irregular = bool(brk) or bool(new_ret)
        step, init = {}, {}
        for key, phi in carried.items():
            init[phi] = key_term(key, start)
            step[phi] = key_term(key, x) if not dead else phi
        closed_k, closed_end = {}, {}
        if not irregular:
            self.closed_forms(D, k, lid, init, step, closed_k, closed_end)
        for phi in step:
            if phi not in closed_k:
                j = list(step).index(phi)
                t = mk("rec", D, k, const(j), mk("tuple", *list(step)), mk("tuple", *[init[p] for p in step]),
                       mk("tuple", *[step[p] for p in step]), const(irregular))
                closed_end[phi] = t
                closed_k[phi] = mk("recat", t, k)
        # last-iteration substitution, used for cells/vars first set in the body
        last = {p: subst(c, {k: Add(D, const(-1))}) for p, c in closed_k.items()}
        last[k] = Add(D, const(-1))
        if irregular:
            last = {p: closed_end[p] for p in closed_end}
            last[k] = mk("opaque", "index at loop exit", k)
        # events/effects/exits: express phi by its closed form at iteration k
        def fixt(t):
            return subst(t, closed_k) if isinstance(t, T) else t

        for e in new_ev:
            e.args = [fixt(a) for a in e.args]
            e.kw = {n: fixt(a) for n, a in e.kw.items()}
            e.recv = fixt(e.recv) if e.recv is not None else None
            e.guard = tuple(fixt(g) for g in e.guard)
            e.result = fixt(e.result) if e.result is not None else None
        for e in new_eff:
            e.guard = tuple(fixt(g) for g in e.guard)
            e.val = fixt(e.val) if e.val is not None else None
        nbf = len(start.facts)
        for e in new_exc:
            inner = And(*[fixt(g) for g in e.guard[nbf:]])
            e.guard = e.guard[:nbf] + (S.rebuild_q("any", D, k, inner),)
        if dead and not brk and not conts:
            # the body never completes: the loop runs at most once
            end = start.copy()
            if not new_ret and not new_exc:
                raise Dead()
            if new_exc and not new_ret:
                self.assume(end, mk("empty", mk("range", ZERO, D, ONE)) if D.op != "len" else mk("empty", D.args[0]))
                st.assign(end)
                return
            x = end
        end = start.copy()
        # cells created in the loop survive as their last instance
        for cid, c in x.heap.items():
            if cid not in start_cids:
                end.heap[cid] = self.map_cell(c, last, x, end)
        for f, fr in x.frames.items():
            if f not in start.frames:
                end.frames[f] = fr
                continue
            d = dict(end.frames[f])
            for n, v in fr.items():
                if n.startswith("__"):
                    continue
                kk = ("var", f, n)
                if kk in carried:
                    d[n] = self.end_value(closed_end[carried[kk]], start.frames[f][n], v, start, x, end)
                elif n not in start.frames[f]:
                    d[n] = subst(v, last) if isinstance(v, T) else (
                        v if isinstance(v, Ref) else v)
            end.frames[f] = d
        for key, phi in carried.items():
            ct = closed_end[phi]
            if key[0] == "cell":
                c = end.heap[key[1]]
                end.heap[key[1]] = c.rep(val=ct, items=None) if not self._reconst(c, ct) else self._reconst(c, ct)
            elif key[0] == "attr":
                c = end.heap[key[1]]
                attrs = dict(c.attrs)
                xv = x.heap[key[1]].attrs.get(key[2], ct)
                attrs[key[2]] = self.end_value(ct, start.heap[key[1]].attrs.get(key[2], NONE), xv, start, x, end)
                end.heap[key[1]] = c.rep(attrs=attrs)
            elif key[0] == "glob":
                end.globs[key[1]] = ct
        # lazily read attributes discovered in the body
        for cid in start_cids:
            a, b = end.heap[cid], x.heap.get(cid)
            if b is not None and a.kind == "inst" and b.attrs is not a.attrs:
                attrs = dict(a.attrs)
                for n, v in b.attrs.items():
                    if n not in attrs:
                        attrs[n] = v
                end.heap[cid] = end.heap[cid].rep(attrs=attrs)
        if new_exc:
            for e in new_exc:
                self.assume(end, Not(e.guard[-1])) if len(e.guard) == nbf + 1 else None
        if new_ret:
            gs = []
            for g, v, s2 in new_ret:
                cnd = And(*[fixt(y) for y in g[nbf:]])
                q = S.rebuild_q("any", D, k, cnd)
                gs.append(q)
                val = mk("first", D, k, cnd, fixt(self.tm(v, s2)))
                plain = isinstance(v, T) and v.op == "const"
                r2 = start.copy()
                for cid, c in s2.heap.items():
                    if cid not in start_cids:
                        r2.heap[cid] = c
                for key, phi in carried.items():
                    if key[0] == "cell":
                        r2.heap[key[1]] = r2.heap[key[1]].rep(val=closed_end[phi], items=None)
                rv = v if plain else self.alloc(r2, "unk", val)
                self.rets[-1].append((start.facts + ((q,) if q is not TRUE else ()), rv, r2))
                if q is TRUE and not contains(cnd, lambda y: y is k):
                    pass
            for q in gs:
                self.assume(end, Not(q))
        st.assign(end)

    def _reconst(self, c, ct):
        return None

    def install(self, x, key, phi, start):
        if key[0] == "var":
            fr = x.frames[key[1]]
            old = fr[key[2]]
            if isinstance(old, Ref) and start.heap[old.cid].kind in ("list", "dict", "set", "arr", "unk"):
                c = start.heap[old.cid]
                r = self.alloc(x, c.kind, phi, origin=("alloc",))
                x.frames[key[1]] = {**fr, key[2]: r}
            else:
                x.frames[key[1]] = {**fr, key[2]: phi}
        elif key[0] == "cell":
            c = x.heap[key[1]]
            x.heap[key[1]] = c.rep(val=phi, items=None)
        elif key[0] == "attr":
            c = x.heap[key[1]]
            attrs = dict(c.attrs)
            attrs[key[2]] = phi
            x.heap[key[1]] = c.rep(attrs=attrs)
        else:
            x.globs[key[1]] = phi

    def end_value(self, t, old, new, start, x, end):
        """Value of a rebound variable after the loop."""
        if isinstance(t, T) and t.op == "fn":
            return self.unterm(t)
        if isinstance(new, Ref) or isinstance(old, Ref):
            kind = "unk"
            for v, s in ((new, x), (old, start)):
                if isinstance(v, Ref) and v.cid in s.heap:
                    kind = s.heap[v.cid].kind
                    break
            if kind in ("inst", "tuple", "iter"):
                kind = "unk"
            bases = tuple(v.cid for v in (new, old) if isinstance(v, Ref))
            bases = tuple(b for b in bases if b in end.heap)
            bases = tuple(b for b in bases if self.nonfresh(end, b))
            return self.alloc(end, kind, t, base=bases)
        return t

    def nonfresh(self, st, cid):
        return any(o[0] != "alloc" for o, _ in self.roots(st, cid))

    def map_cell(self, c, m, x, end):
        if c.val is not None:
            nv = subst(c.val, m)
            if nv is not c.val:
                c = c.rep(val=nv)
        if c.items is not None and c.kind in ("list", "tuple", "set"):
            c = c.rep(items=[subst(i, m) if isinstance(i, T) else i for i in c.items])
        elif c.items is not None and isinstance(c.items, dict):
            c = c.rep(items={subst(kk, m): (subst(i, m) if isinstance(i, T) else i) for kk, i in c.items.items()})
        if c.attrs:
            c = c.rep(attrs={n: (subst(v, m) if isinstance(v, T) else v) for n, v in c.attrs.items()})
        return c

    # closed forms (scalar evolution) ---------------------------------
    def closed_forms(self, D, k, lid, init, step, closed_k, closed_end):
        pend = list(step)
        isphi = lambda t: t.op == "phi" and t.args[0] == lid
        progress = True
        work = dict(step)
        while pend and progress:
            progress = False
            for phi in list(pend):
                s = subst(work[phi], closed_k) if closed_k else work[phi]
                others = [p for p in pend if p is not phi and occurs(p, s)]
                if others:
                    continue
                r = self.closed_form(D, k, phi, init[phi], s)
                if r is None:
                    continue
                closed_k[phi], closed_end[phi] = r
                for p in list(closed_k):
                    closed_k[p] = subst(closed_k[p], {phi: closed_k[phi]}) if occurs(phi, closed_k[p]) else closed_k[p]
                pend.remove(phi)
                progress = True

    def closed_form(self, D, k, phi, init, s):
        last = Add(D, const(-1))
        if s is phi:
            return init, init
        if not occurs(phi, s):
            end = subst(s, {k: last})
            at_k = end if not occurs(k, s) else Ite(Eq(k, ZERO), init, subst(s, {k: Add(k, const(-1))}))
            if not occurs(k, s):
                at_k = Ite(Eq(k, ZERO), init, s)
            if D.op == "len" and init is not None and init.op != "const":
                pass
            return at_k, end
        # counter
        if s.op == "add" and phi in s.args:
            rest = [a for a in s.args if a is not phi]
            inc = Add(*rest) if rest else ZERO
            if not occurs(phi, inc):
                if any(a.op in ("list", "map", "cat", "flatmap") for a in rest) or (init is not None and init.op in ("list", "map", "cat")):
                    if s.args[0] is phi:
                        return self.closed_seq(D, k, phi, init, Cat(*[phi] + rest))
                    return None
                if not occurs(k, inc):
                    return Add(init, Mul(k, inc)), Add(init, Mul(D, inc))
                k2 = fresh_bv()
                b2 = subst(inc, {k: k2})
                return Add(init, mk("sum", k, k2, b2)), Add(init, mk("sum", D, k2, b2))
        r = self.closed_seq(D, k, phi, init, s)
        if r is not None:
            return r
        r = self.closed_store(D, k, phi, init, s)
        if r is not None:
            return r
        if s.op == "matmul" and s.args[-1] is phi and not any(occurs(phi, a) for a in s.args[:-1]):
            M = MatMul(*s.args[:-1])
            if not occurs(k, M):
                return MatMul(mk("matpow", M, k), init), MatMul(mk("matpow", M, D), init)
        if s.op == "matmul" and s.args[0] is phi and not any(occurs(phi, a) for a in s.args[1:]):
            M = MatMul(*s.args[1:])
            if not occurs(k, M):
                return MatMul(init, mk("matpow", M, k)), MatMul(init, mk("matpow", M, D))
        if s.op == "mul" and phi in s.args:
            rest = Mul(*[a for a in s.args if a is not phi])
            if not occurs(phi, rest):
                k2 = fresh_bv()
                b2 = subst(rest, {k: k2})
                if not occurs(k, rest):
                    return Mul(init, Pow(rest, k)), Mul(init, Pow(rest, D))
                return Mul(init, mk("prod", k, k2, b2)), Mul(init, mk("prod", D, k2, b2))
        # set accumulation
        def sadds(e):
            if e is phi:
                return []
            if e.op == "sadd":
                p = sadds(e.args[0])
                return None if p is None or occurs(phi, e.args[1]) else p + [(TRUE, e.args[1])]
            if e.op == "ite":
                a, b = sadds(e.args[1]), sadds(e.args[2])
                if a is None or b is None or occurs(phi, e.args[0]):
                    return None
                return [(And(e.args[0], c), v) for c, v in a] + [(And(Not(e.args[0]), c), v) for c, v in b]
            return None

        sa = sadds(s)
        if sa is not None:
            def build(dom):
                t = init
                for c, v in sa:
                    k2 = fresh_bv()
                    t = mk("union", t, mk("setmap", dom, k2, subst(v, {k: k2}), subst(c, {k: k2})))
                return t
            return build(k), build(D)
        # boolean accumulation
        if s.op == "or" and phi in s.args:
            rest = Or(*[a for a in s.args if a is not phi])
            if not occurs(phi, rest):
                k2 = fresh_bv()
                q = S.rebuild_q("any", D, k2, subst(rest, {k: k2}))
                return mk("opaque", "flag", phi), Or(truth(init), q)
        if s.op == "and" and phi in s.args:
            rest = And(*[a for a in s.args if a is not phi])
            if not occurs(phi, rest):
                k2 = fresh_bv()
                q = S.rebuild_q("all", D, k2, subst(rest, {k: k2}))
                return mk("opaque", "flag", phi), And(truth(init), q)
        return None

    def closed_seq(self, D, k, phi, init, s):
        ap = appends(s, phi)
        if ap is None or any(occurs(phi, c) or any(occurs(phi, x) for x in xs) for c, xs in ap):
            return None
        k2 = fresh_bv()

        def build(dom):
            m = {k: k2}
            if len(ap) == 1 and len(ap[0][1]) == 1 and ap[0][1][0].op == "list" and len(ap[0][1][0].args) == 1:
                c, x = ap[0][0], ap[0][1][0].args[0]
                body = mk("map", dom, k2, subst(x, m), subst(c, m))
            else:
                parts = []
                for c, xs in ap:
                    seq = Cat(*xs)
                    parts.append(subst(seq if c is TRUE else Ite(c, seq, mk("list")), m))
                body = mk("flatmap", dom, k2, Cat(*parts) if parts else mk("list"), TRUE)
            return Cat(init, body)

        return build(k), build(D)

    def closed_store(self, D, k, phi, init, s):
        es = stores(s, phi)
        if es is None:
            return None
        if any(occurs(phi, x) for e in es for x in e):
            # a table filled from its own earlier entries
            return None
        k2 = fresh_bv()

        def build(dom):
            out = []
            for e in es:
                cond, idx, val, mode, *binders = e
                out.append(mk("entry", subst(cond, {k: k2}), subst(idx, {k: k2}), subst(val, {k: k2}), mode,
                              *( [mk("bind", dom, k2)] + [subst(b, {k: k2}) for b in binders])))
            return Scatter(init, *out)

        return build(k), build(D)

    def s_While(self, s, st, fid):
        r = self.counting_while(s, st, fid)
        if r:
            return
        # general while loop: abstract everything it may change
        c0 = self.cond(s.test, st, fid)
        if c0 is FALSE:
            return
        self.brks.append([])
        try:
            D = mk("opaque", "while", const(fresh_id()))

            def body(x):
                c = self.cond(s.test, x, fid)
                self.assume(x, c) if c.op != "const" else None
                self.exec_block(s.body, x, fid)
            self.symbolic_loop(D, lambda k, x: k, st, fid, lambda v, x: None, body)
        finally:
            self.brks.pop()

    def counting_while(self, s, st, fid):
        """while with a counter that one statement of the body moves by a fixed whole number."""
        t = s.test
        if isinstance(t, ast.Name):
            # while n:
            t = ast.Compare(left=t, ops=[ast.NotEq()], comparators=[ast.Constant(0)])
            ast.copy_location(t, s.test)
            ast.fix_missing_locations(t)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or s.orelse:
            return False
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        left, right, op = t.left, t.comparators[0], type(t.ops[0])
        FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        if op not in FLIP:
            return False
        if not (isinstance(left, ast.Name) and left.id in stored):
            left, right, op = right, left, FLIP[op]
        if not (isinstance(left, ast.Name) and left.id in stored):
            return False
        name = left.id
        # the bound stays what it is
        named = {n.id for n in ast.walk(right) if isinstance(n, ast.Name)}
        if named & stored or any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(right)) and any(
                isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b)):
            return False
        for b in s.body:
            for n in ast.walk(b):
                base = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    base = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    base = n.value
                elif isinstance(n, ast.AugAssign):
                    base = n.target
                if base is not None and isinstance(base, ast.Name) and base.id in named:
                    return False
                if isinstance(n, ast.Continue):
                    return False

        def step_of(b):
            if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == name:
                v, sign = b.value, {ast.Add: 1, ast.Sub: -1}.get(type(b.op))
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == name \
                    and isinstance(b.value, ast.BinOp) and isinstance(b.value.left, ast.Name) and b.value.left.id == name:
                v, sign = b.value.right, {ast.Add: 1, ast.Sub: -1}.get(type(b.value.op))
            else:
                return None
            if sign and isinstance(v, ast.Constant) and type(v.value) is int and v.value > 0:
                return sign * v.value
            return None

        moves = [(i, step_of(b)) for i, b in enumerate(s.body) if step_of(b)]
        writes = sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b))
        if len(moves) != 1 or writes != 1:
            return False
        at, step = moves[0]
        if any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            # only a loop that is left for good by its first statements' test is the same as one over a range
            return False
        if step > 0 and op not in (ast.Lt, ast.LtE, ast.NotEq) or step < 0 and op not in (ast.Gt, ast.GtE, ast.NotEq):
            return False
        if abs(step) != 1 and op is ast.NotEq:
            return False
        i0 = self.lookup(name, st, fid)
        if not isinstance(i0, T):
            return False
        bound = self.tm(self.eval(right, st, fid), st)
        one = const(1 if step > 0 else -1)
        end = Add(bound, one) if op in (ast.LtE, ast.GtE) else bound
        if step > 0:
            it = mk("range", i0, end, const(step))
        else:
            # counted down: the value of each round from the number of the round
            n = Sub(i0, end) if step == -1 else None
            if n is None:
                return False
            it = mk("range", ZERO, n, ONE)

        def bind(v, x):
            v = self.tm(v, x)
            self.store_name(name, v if step > 0 else Sub(i0, v), x, fid)

        self.for_each(it, st, fid, bind, lambda x: self.exec_block(s.body, x, fid))
        if abs(step) == 1:
            self.store_name(name, end, st, fid)
        else:
            self.store_name(name, mk("opaque", f"{name} after the loop"), st, fid)
        return True

    # ------------------------------------------------------------ expressions
    def cond(self, node, st, fid):
        """Evaluate a condition to a boolean term, folded under path facts."""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            acc = []
            sub = st.copy() if len(node.values) > 1 else st
            first = True
            for n in node.values:
                c = self.cond(n, st if first else sub, fid)
                first = False
                acc.append(c)
                if (is_and and c is FALSE) or (not is_and and c is TRUE):
                    break
                sub = State(st.heap, sub.frames if sub is not st else st.frames, sub.facts, st.ctx, st.globs)
                self.assume(sub, c if is_and else Not(c))
            return And(*acc) if is_and else Or(*acc)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return Not(self.cond(node.operand, st, fid))
        v = self.eval(node, st, fid)
        return self.known(self.truth_of(v, st), st)

    def truth_of(self, v, st):
        if isinstance(v, Phi):
            return Ite(v.c, self.truth_of(v.a, st), self.truth_of(v.b, st))
        if isinstance(v, Fn):
            return TRUE
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.items is not None:
                return const(len(c.items) > 0)
            if c.kind == "inst":
                m, _ = c.cls.lookup("__bool__") if c.cls else (None, None)
                return TRUE if m is None and c.val is None else truth(self.tm(v, st))
            if c.kind in ("list", "dict", "set"):
                return Not(Eq(Len(c.val), ZERO)) if Len(c.val).op == "const" else truth(c.val) if truth(c.val).op != "truthy" else Not(mk("empty", c.val))
        return truth(self.tm(v, st))

    def eval(self, n, st, fid):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        ln = getattr(n, "lineno", None)
        if ln is not None and self.locs:
            old = self.locs[-1]
            self.locs[-1] = (old[0], ln)
            try:
                return m(n, st, fid)
            finally:
                self.locs[-1] = old
        return m(n, st, fid)

    def e_Constant(self, n, st, fid):
        return const(n.value)

    def e_Name(self, n, st, fid):
        v = self.lookup(n.id, st, fid)
        if v is None:
            return mk("opaque", f"name {n.id}")
        return v

    def e_NamedExpr(self, n, st, fid):
        v = self.eval(n.value, st, fid)
        self.assign(n.target, v, st, fid)
        return v

    def e_Attribute(self, n, st, fid):
        b = self.eval(n.value, st, fid)
        return self.getattr(b, n.attr, st)

    def e_Subscript(self, n, st, fid):
        b = self.eval(n.value, st, fid)
        k = self.eval_index(n.slice, st, fid)
        return self.getitem(b, k, st)

    def e_Slice(self, n, st, fid):
        return self.eval_index(n, st, fid)

    def e_Tuple(self, n, st, fid):
        vs = self.eval_elts(n.elts, st, fid)
        if vs is None:
            return self.unk(st, mk("opaque", "starred"))
        if all(isinstance(v, T) for v in vs):
            return mk("tuple", *vs)
        return self.alloc(st, "tuple", items=vs)

    def eval_elts(self, elts, st, fid):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fid)
                items = self.known_items(v, st)
                if items is None:
                    return None
                out.extend(items)
            else:
                out.append(self.eval(e, st, fid))
        return out

    def e_List(self, n, st, fid):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            vs = self.eval_elts(n.elts, st, fid)
            if vs is None:
                parts = []
                for e in n.elts:
                    if isinstance(e, ast.Starred):
                        parts.append(mk("listof", self.models.seq_term(self, self.eval(e.value, st, fid), st)))
                    else:
                        parts.append(mk("list", self.tm(self.eval(e, st, fid), st)))
                return self.alloc(st, "list", Cat(*parts))
            return self.alloc(st, "list", items=vs)
        return self.alloc(st, "list", items=[self.eval(e, st, fid) for e in n.elts])

    def e_Set(self, n, st, fid):
        vs = self.eval_elts(n.elts, st, fid)
        return self.alloc(st, "set", items=vs)

    def e_Dict(self, n, st, fid):
        items = {}
        sym_parts = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st, fid)
                if isinstance(d, Ref) and st.heap[d.cid].kind == "dict" and st.heap[d.cid].items is not None and sym_parts is None:
                    items.update(st.heap[d.cid].items)
                else:
                    cur = sym_parts if sym_parts is not None else mk("dict", *[mk("kv", a, self.tm(b, st)) for a, b in items.items()])
                    sym_parts = mk("dupdate", cur, self.tm(d, st))
                continue
            kt = self.tm(self.eval(k, st, fid), st)
            vv = self.eval(v, st, fid)
            if sym_parts is not None:
                sym_parts = mk("store", sym_parts, kt, self.tm(vv, st))
            else:
                items[kt] = vv
        if sym_parts is not None:
            return self.alloc(st, "dict", sym_parts)
        return self.alloc(st, "dict", items=items)

    def e_JoinedStr(self, n, st, fid):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.tm(self.eval(v.value, st, fid), st)
                if x.op == "const" and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(const(str(cval(x))) if not isinstance(cval(x), S.Uniq) else x)
                else:
                    parts.append(mk("fmt", x))
        return self.models.concat_str(parts)

    def e_FormattedValue(self, n, st, fid):
        return mk("fmt", self.tm(self.eval(n.value, st, fid), st))

    def e_IfExp(self, n, st, fid):
        c = self.cond(n.test, st, fid)
        if c is TRUE:
            return self.eval(n.body, st, fid)
        if c is FALSE:
            return self.eval(n.orelse, st, fid)
        return self.branch(st, c, lambda x: self.eval(n.body, x, fid), lambda x: self.eval(n.orelse, x, fid))

    def e_BoolOp(self, n, st, fid):
        vals = n.values
        is_and = isinstance(n.op, ast.And)

        def go(i, x):
            v = self.eval(vals[i], x, fid)
            if i == len(vals) - 1:
                return v
            c = self.known(self.truth_of(v, x), x)
            if c is TRUE:
                return go(i + 1, x) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1, x)
            if isinstance(v, T) and v.op in S.BOOLOPS:
                keep = FALSE if is_and else TRUE
            else:
                keep = v
            if is_and:
                return self.branch(x, c, lambda y: go(i + 1, y), lambda y: keep)
            return self.branch(x, c, lambda y: keep, lambda y: go(i + 1, y))

        return go(0, st)

    def e_UnaryOp(self, n, st, fid):
        if isinstance(n.op, ast.Not):
            return self.cond(n, st, fid)
        v = self.eval(n.operand, st, fid)
        t = self.tm(v, st)
        if isinstance(n.op, ast.USub):
            r = Neg(t)
            return self.models.wrap(self, st, r, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if t.op in S.BOOLOPS:
                return Not(t)
            return self.models.wrap(self, st, mk("inv_mask", t), v)
        raise Unsupported("unary")

    def e_BinOp(self, n, st, fid):
        a = self.eval(n.left, st, fid)
        b = self.eval(n.right, st, fid)
        return self.binop(a, type(n.op).__name__, b, st)

    def binop(self, a, op, b, st):
        if isinstance(a, Phi):
            return self.both(a, st, lambda v, s: self.binop(v, op, b, s))
        if isinstance(b, Phi):
            return self.both(b, st, lambda v, s: self.binop(a, op, v, s))
        return self.models.binop(self, a, op, b, st)

    def e_Compare(self, n, st, fid):
        left = self.eval(n.left, st, fid)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st, fid)
            out.append(self.models.compare(self, left, type(op).__name__, right, st))
            left = right
        if len(out) == 1:
            return out[0]
        return And(*out)

    def e_Starred(self, n, st, fid):
        return self.eval(n.value, st, fid)

    def e_Lambda(self, n, st, fid):
        v = self.make_func(n, st, fid, "<lambda>")
        v.fid = fid if not st.frames[fid].get("__envmod__") else None
        return v

    def comp(self, gens, st, fid, emit):
        """Evaluate comprehension generators; emit(state, frame) -> produces.

        Returns a nested description: ('known', [..]) or ('sym', D, k, cond, inner)."""
        g = gens[0]
        it = self.eval(g.iter, st, fid)
        if isinstance(it, Phi):
            it = self.alloc(st, "unk", self.tm(it, st), base=self.bases_of(it))
        items = self.known_items(it, st)

        def rest(x):
            conds = []
            for c in g.ifs:
                cc = self.cond(c, x, fid)
                conds.append(cc)
                if cc is FALSE:
                    break
                self.assume(x, cc)
            cnd = And(*conds)
            if cnd is FALSE:
                return FALSE, None
            if len(gens) == 1:
                return cnd, ("leaf", emit(x))
            return cnd, self.comp(gens[1:], x, fid, emit)

        if items is not None and len(items) <= 64:
            out = []
            for v in items:
                facts = st.facts
                self.assign(g.target, v, st, fid)
                cnd, inner = rest(st)
                st.facts = facts
                if inner is not None:
                    out.append((cnd, inner))
            return ("known", out)
        D, elem = self.iter_desc(it, st)
        k = fresh_bv()
        self.loops.append((D, k))
        facts = st.facts
        nexc = len(self.exc)
        try:
            v = elem(k, st)
            self.assign(g.target, v, st, fid)
            cnd, inner = rest(st)
        finally:
            self.loops.pop()
            st.facts = facts
        for e in self.exc[nexc:]:
            nbf = len(facts)
            e.guard = e.guard[:nbf] + (S.rebuild_q("any", D, k, And(*e.guard[nbf:])),)
        return ("sym", D, k, cnd, inner)

    def comp_frame(self, st, fid):
        cf = fresh_id()
        st.frames[cf] = {"__parent__": fid if not st.frames[fid].get("__envmod__") else None,
                         "__module__": self.module_of(st, fid)}
        return cf

    def e_ListComp(self, n, st, fid):
        cf = self.comp_frame(st, fid)
        d = self.comp(n.generators, st, cf, lambda x: self.eval(n.elt, x, cf))
        return self.seq_of(d, st, "list")

    def e_SetComp(self, n, st, fid):
        cf = self.comp_frame(st, fid)
        d = self.comp(n.generators, st, cf, lambda x: self.eval(n.elt, x, cf))
        r = self.seq_of(d, st, "list")
        return self.models.call_builtin(self, "set", [r], {}, st)

    def e_GeneratorExp(self, n, st, fid):
        cf = self.comp_frame(st, fid)
        d = self.comp(n.generators, st, cf, lambda x: self.eval(n.elt, x, cf))
        return self.seq_of(d, st, "list")

    def seq_of(self, d, st, kind):
        known = self.comp_leaves(d) if d[0] == "known" else None
        if known is not None:
            return self.alloc(st, kind, items=known)
        t = self.seq_term(d, st)
        return self.alloc(st, kind, t)

    def seq_term(self, d, st):
        if d[0] == "leaf":
            return mk("list", self.tm(d[1], st))
        if d[0] == "known":
            parts = []
            for c, i in d[1]:
                s = self.seq_term(i, st)
                parts.append(s if c is TRUE else Ite(c, s, mk("list")))
            return Cat(*parts) if parts else mk("list")
        _, D, k, cnd, inner = d
        if inner is None:
            return mk("list")
        if inner[0] == "leaf":
            return self.models.mk_map(D, k, self.tm(inner[1], st), cnd)
        return mk("flatmap", D, k, self.seq_term(inner, st), cnd)

    def comp_leaves(self, d):
        """The members of a comprehension whose generators are all known and
        unconditional, in order, or None."""
        if d is None:
            return None
        if d[0] == "leaf":
            return [d[1]]
        if d[0] != "known":
            return None
        out = []
        for c, i in d[1]:
            sub = self.comp_leaves(i) if c is TRUE else None
            if sub is None:
                return None
            out += sub
        return out

    def e_DictComp(self, n, st, fid):
        cf = self.comp_frame(st, fid)

        def emit(x):
            return (self.tm(self.eval(n.key, x, cf), x), self.eval(n.value, x, cf))

        d = self.comp(n.generators, st, cf, emit)
        known = self.comp_leaves(d)
        if known is not None:
            return self.alloc(st, "dict", items=dict(known))
        entries = []

        def walk(d, cond, binders):
            if d is None:
                return
            if d[0] == "leaf":
                k, v = d[1]
                entries.append(mk("entry", cond, k, self.tm(v, st), NONE, *binders))
            elif d[0] == "known":
                for c, i in d[1]:
                    walk(i, And(cond, c), binders)
            else:
                _, D, k, c, inner = d
                walk(inner, And(cond, c), binders + [mk("bind", D, k)])

        walk(d, TRUE, [])
        return self.alloc(st, "dict", Scatter(mk("dict"), *entries))

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fid):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup("super", st, fid) == ExtV("builtins.super"):
            return self.make_super(n, st, fid)
        f = self.eval(n.func, st, fid)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fid)
                items = self.known_items(v, st)
                if items is None:
                    args.append(mk("star", self.tm(v, st)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, st, fid))
        for k in n.keywords:
            v = self.eval(k.value, st, fid)
            if k.arg is None:
                if isinstance(v, Ref) and st.heap[v.cid].kind == "dict" and st.heap[v.cid].items is not None \
                        and all(is_const(x) for x in st.heap[v.cid].items):
                    for kk, vv in st.heap[v.cid].items.items():
                        kw[cval(kk)] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.callsites += 1
        return self.call(f, args, kw, st)

    def make_super(self, n, st, fid):
        f = fid
        while f is not None and "__self__" not in st.frames[f]:
            f = st.frames[f].get("__parent__")
        if f is None:
            return self.unk(st, mk("opaque", "super"))
        fr = st.frames[f]
        return SuperV(fr["__cls__"], fr["__self__"])

    def call(self, f, args, kw, st):
        if isinstance(f, T):
            f = self.inst_of(self.unterm(f), st)
        if isinstance(f, Phi):
            return self.both(f, st, lambda v, s: self.call(v, args, kw, s))
        if isinstance(f, PartialV):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw}, st)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kw, st)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, ExtV):
            return self.models.call_ext(self, f.name, args, kw, st)
        if isinstance(f, MethV):
            if f.name in STAR_ARITY and len([x for x in args if isinstance(x, T) and x.op == "star"]) == 1:
                need = STAR_ARITY[f.name] - (len(args) - 1)
                i = next(j for j, x in enumerate(args) if isinstance(x, T) and x.op == "star")
                if need > 0:
                    args = list(args[:i]) + [self.getitem(args[i].args[0], const(j), st) for j in range(need)] + list(args[i + 1:])
            return self.models.call_method(self, f.recv, f.name, args, kw, st)
        if isinstance(f, Ref):
            c = st.heap[f.cid]
            if c.kind == "inst" and c.cls is not None:
                m, _ = c.cls.lookup("__call__")
                if m is not None:
                    return self.call(m.bind(f), args, kw, st)
            if isinstance(c.extra, tuple) and c.extra and c.extra[0] == "bound":
                return self.models.call_method(self, c.extra[1], c.extra[2], args, kw, st)
            return self.models.call_value(self, f, args, kw, st)
        if isinstance(f, T):
            return self.models.call_value(self, f, args, kw, st)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, c, args, kw, st):
        if c.is_enum:
            t = self.tm(args[0], st)
            conds = []
            for k in c.order:
                v = FN_TABLE[("enum", c.name, k)]
                conds.append((self.known(Eq(t, self.tm(v, st)), st), c.env[k]))
            self.raise_(st, "ValueError", Not(Or(*[x for x, _ in conds])), implicit=True)
            out = conds[-1][1]
            for cnd, v in reversed(conds[:-1]):
                out = Ite(cnd, v, out)
            return out
        r = self.alloc(st, "inst", cls=c, attrs={})
        if c.ext_bases():
            st.heap[r.cid] = st.heap[r.cid].rep(val=mk("new", c.name, r.cid))
        m, _ = c.lookup("__init__")
        if m is not None:
            self.call(m.bind(r), args, kw, st)
        elif any(x.node.decorator_list for x in c.mro()):
            flds = [s2.target.id for s2 in c.node.body if isinstance(s2, ast.AnnAssign) and isinstance(s2.target, ast.Name)]
            attrs = {}
            for n2, v in zip(flds, args):
                attrs[n2] = v
            attrs.update(kw)
            st.heap[r.cid] = st.heap[r.cid].rep(attrs=attrs)
        return r

    def call_func(self, f, args, kw, st):
        if f.bound is not None:
            args = [f.bound] + list(args)
        if len(self.stack) > MAX_DEPTH or self.stack.count(f.module + ":" + f.qual) > 2:
            ts = [self.tm(a, st) for a in args]
            return self.unk(st, mk("opaque", f"recursion {f.qual}", *ts))
        if "memo" in f.flags:
            return self.memo_call(f, args, kw, st)
        return self.run_func(f, args, kw, st)

    def memo_call(self, f, args, kw, st):
        key = (f.module, f.qual, tuple(self.tm(a, st) if not isinstance(a, Ref) or st.heap[a.cid].kind != "inst" else mk("obj", a.cid) for a in args),
               tuple(sorted((k, self.tm(v, st)) for k, v in kw.items())) if kw else ())
        memo = st.globs.get(("memo", key))
        if memo is not None:
            return memo
        v = self.run_func(f, args, kw, st)
        if isinstance(v, Ref) and st.heap[v.cid].origin == ("alloc",):
            st.heap[v.cid] = st.heap[v.cid].rep(origin=("memo", f.qual))
        elif isinstance(v, Ref) and st.heap[v.cid].kind == "tuple":
            pass
        if isinstance(v, Ref) and st.heap[v.cid].items is not None:
            its = st.heap[v.cid].items
            for x in (its.values() if isinstance(its, dict) else its):
                if isinstance(x, Ref) and st.heap[x.cid].origin == ("alloc",):
                    st.heap[x.cid] = st.heap[x.cid].rep(origin=("memo", f.qual))
        st.globs[("memo", key)] = v
        return v

    def unfit(self, f, what, st):
        """A function of the repository called in a way it cannot be: certain failure once the call is reached."""
        if self.stack and self.stack[-1].startswith("pytspl.") and f.module.startswith("pytspl."):
            self.misfits.setdefault((self.loc(), f.qual, what), (self.stack[-1].split(":")[-1], st.facts))
        self.raise_(st, "TypeError", implicit=True)

    def run_func(self, f, args, kw, st):
        node = f.node
        a = node.args
        fr = {"__module__": f.module, "__parent__": f.fid}
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        star = [x for x in args if isinstance(x, T) and x.op == "star"]
        if star:
            need = len([p for p in params[:len(params) - len(f.defaults)] if p not in kw]) - (len(args) - 1)
            if len(star) != 1 or a.vararg or need < 1:
                raise Unsupported("call with unknown *args")
            # as many members as the parameters without a default still lack
            i = next(j for j, x in enumerate(args) if isinstance(x, T) and x.op == "star")
            args = list(args[:i]) + [self.getitem(star[0].args[0], const(j), st) for j in range(need)] + list(args[i + 1:])
        for p, v in zip(params, args):
            vals[p] = v
        extra = args[len(params):]
        if a.vararg:
            fr[a.vararg.arg] = mk("tuple", *extra) if all(isinstance(x, T) for x in extra) else self.alloc(st, "tuple", items=list(extra))
        elif extra:
            self.unfit(f, f"with {len(extra)} argument{'s'[:len(extra) > 1]} too many", st)
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = {}
        symkw = kw.get("**")
        for k, v in kw.items():
            if k == "**":
                continue
            if k in vals and k in params:
                self.unfit(f, f"with {k!r} given twice", st)
            if k in params or k in kwonly:
                vals[k] = v
            else:
                rest[k] = v
        dstart = len(params) - len(f.defaults)
        for i, p in enumerate(params):
            if p not in vals:
                if i >= dstart:
                    d = f.defaults[i - dstart]
                    if isinstance(d, Ref) and d.cid not in st.heap:
                        st.heap[d.cid] = self.modstate.heap[d.cid]
                    vals[p] = d
                    if symkw is not None:
                        dt = self.tm(symkw, st)
                        vals[p] = self.join(In(const(p), dt), Idx(dt, const(p)), d, st)
                elif symkw is not None:
                    vals[p] = Idx(self.tm(symkw, st), const(p))
                else:
                    self.unfit(f, f"without its argument {p!r}", st)
        for p in kwonly:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                else:
                    self.unfit(f, f"without its argument {p!r}", st)
        if a.kwarg:
            if symkw is not None and not rest:
                fr[a.kwarg.arg] = symkw
            else:
                fr[a.kwarg.arg] = self.alloc(st, "dict", items={const(k): v for k, v in rest.items()})
        elif rest:
            self.unfit(f, f"with arguments it does not have: {', '.join(map(repr, rest))}", st)
        fr.update(vals)
        if f.cls is not None and params and args:
            fr["__self__"] = args[0]
            fr["__cls__"] = f.cls
        fid = fresh_id()
        st.frames[fid] = fr
        m = self.project.modules.get(f.module)
        path = m.path if m else f.module
        self.stack.append(f.module + ":" + f.qual)
        self.locs.append((path, node.lineno))
        self.rets.append([])
        self.brks.append([])
        self.conts.append([])
        self.analysed.add((path, f.qual))
        base = st.facts
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, st, fid)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)):
                return self.generator(node, st, fid)
            dead = False
            try:
                self.exec_block(node.body, st, fid)
            except Dead:
                dead = True
            rets = self.rets[-1]
            if not dead:
                rets = rets + [(st.facts, NONE, st.copy())]
            if not rets:
                raise Dead()
            return self.merge_returns(rets, st, base)
        finally:
            self.stack.pop()
            self.locs.pop()
            self.rets.pop()
            self.brks.pop()
            self.conts.pop()
            st.frames = {k: v for k, v in st.frames.items() if k != fid} if not self.captured(st, fid) else st.frames

    def captured(self, st, fid):
        return True

    def generator(self, node, st, fid):
        """A generator is analysed as the list of the values it yields."""
        acc = self.alloc(st, "list", items=[])
        st.frames[fid] = {**st.frames[fid], "__yield__": acc}
        try:
            self.exec_block(node.body, st, fid)
        except Dead:
            rets = self.rets[-1]
            if not rets:
                raise
            st.assign(rets[-1][2])
        return acc

    def e_Yield(self, n, st, fid):
        f = fid
        while "__yield__" not in st.frames[f]:
            f = st.frames[f]["__parent__"]
        v = self.eval(n.value, st, fid) if n.value else NONE
        self.container_method(st.frames[f]["__yield__"], "append", [v], {}, st)
        return NONE

    def merge_returns(self, rets, st, base):
        nb = len(base)
        if len(rets) == 1:
            g, v, s = rets[0]
            st.assign(s)
            return v
        # prune facts already implied by the failure of earlier guards
        cur = rets[-1]
        cur_v, cur_s = cur[1], cur[2]
        guards = []
        seen = []
        for g, v, s in rets[:-1]:
            own = [x for x in g[nb:] if x not in seen]
            gg = And(*own)
            guards.append(gg)
            n = Not(gg)
            for x in (n.args if n.op == "and" else (n,)):
                seen.append(x)
        for (g, v, s), gg in reversed(list(zip(rets[:-1], guards))):
            m = self.merge(gg, s, cur_s, base)
            nv = self.join2(gg, v, cur_v, s, cur_s, m) if not (v is cur_v or v == cur_v) else v
            cur_v, cur_s = nv, m
        # the facts common to all returning paths (exits excluded)
        cur_s.facts = base
        alls = [tuple(x for x in g[nb:]) for g, _, _ in rets]
        common = [x for x in alls[0] if all(x in y for y in alls)]
        for x in common:
            self.assume(cur_s, x)
        st.assign(cur_s)
        return cur_v

    # ------------------------------------------------------------ entry
    def fresh_run(self):
        self.exc, self.events, self.effects = [], [], []
        self.rets, self.brks, self.conts = [[]], [[]], [[]]
        self.stack, self.loops = [], []
        self.locs = [("<entry>", 0)]
        self.rnd = 0
        self.handling = "Exception"
        self.stops = []
        self.try_depth, self.try_modelled = 0, False

    rets, brks, conts = [[]], [[]], [[]]
    handling = "Exception"
    try_depth = 0
    try_modelled = False

    def base_state(self):
        return self.modstate.copy()

    def run(self, fn, args, kw, st):
        """Analyse one call from the given abstract state."""
        self.fresh_run()
        dead = False
        v = None
        try:
            v = self.call(fn, args, kw, st)
        except Dead:
            dead = True
        t = None if dead else self.tm(v, st)
        return Outcome(v, t, st, list(self.exc), list(self.events), list(self.effects), dead)


ENUMS: dict = {}


def position(x):
    """one position along an axis (not a mask, a slice or positions)"""
    return S.is_intlike(x) or shapes.rep(x) == "scalar" or shapes.shape(x) == () or x.op == "idx" and S.is_intlike(x.args[1]) and shapes.rep(x) == "unk"


def listed_keys(k, v):
    """the entries an assignment with written-out index lists sets, one after
    another: m[[i, j], [j, i]] = x is m[i, j] = x; m[j, i] = x"""
    parts = k.args if k.op == "tuple" else (k,)
    sizes = {len(a.args) for a in parts if a.op == "list"}
    if len(sizes) != 1 or not all(a.op == "list" or position(a) for a in parts) \
            or not all(position(x) for a in parts if a.op == "list" for x in a.args):
        return [(k, v)]
    n = sizes.pop()
    if v.op in ("list", "tuple") and len(v.args) == n:
        vs = list(v.args)
    elif is_const(v) or shapes.rep(v) == "scalar" or shapes.shape(v) == ():
        vs = [v] * n
    else:
        return [(k, v)]
    at = lambda a, i: a.args[i] if a.op == "list" else a
    return [(mk("tuple", *(at(a, i) for a in parts)) if k.op == "tuple" else at(k, i), vs[i]) for i in range(n)]


def walk_own(node):
    """Nodes of a function body, not entering nested functions."""
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


def contains_slice(t):
    return t.op == "slice" or (t.op == "tuple" and any(a.op == "slice" for a in t.args)) or t.op in ("list", "map", "store", "scatter")


def appends(s, phi):
    """Decompose s as phi with conditional appends: [(cond, [seq, ...])]."""
    if s is phi:
        return []
    if s.op == "cat" and s.args:
        p = appends(s.args[0], phi)
        if p is None:
            return None
        rest = list(s.args[1:])
        if any(occurs(phi, r) for r in rest):
            return None
        return p + [(TRUE, rest)] if rest else p
    if s.op == "ite":
        c = s.args[0]
        a, b = appends(s.args[1], phi), appends(s.args[2], phi)
        if a is None or b is None or occurs(phi, c):
            return None
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        ra, rb = a[n:], b[n:]
        if ra and rb:
            # both sides append: combine element-wise when possible
            if len(ra) == 1 and len(rb) == 1 and ra[0][0] is TRUE and rb[0][0] is TRUE:
                sa, sb = Cat(*ra[0][1]), Cat(*rb[0][1])
                if sa.op == "list" and sb.op == "list" and len(sa.args) == len(sb.args) == 1:
                    return a[:n] + [(TRUE, [mk("list", Ite(c, sa.args[0], sb.args[0]))])]
                return a[:n] + [(TRUE, [Ite(c, sa, sb)])]
            fa = Cat(*[Ite(x, Cat(*y), mk("list")) for x, y in ra])
            fb = Cat(*[Ite(x, Cat(*y), mk("list")) for x, y in rb])
            return a[:n] + [(TRUE, [Ite(c, fa, fb)])]
        return a[:n] + [(And(c, x), y) for x, y in ra] + [(And(Not(c), x), y) for x, y in rb]
    return None


def stores(s, phi):
    """Decompose s as phi with conditional stores: [(cond, idx, val, mode, *binders)]."""
    if s is phi:
        return []
    if s.op == "store":
        p = stores(s.args[0], phi)
        return None if p is None else p + [(TRUE, s.args[1], s.args[2], NONE)]
    if s.op == "store1":
        p = stores(s.args[0], phi)
        return None if p is None else p + [(TRUE, s.args[1], s.args[2], const("first"))]
    if s.op == "scatter":
        p = stores(s.args[0], phi)
        if p is None:
            return None
        return p + [tuple(e.args) for e in s.args[1:]]
    if s.op == "ite":
        c = s.args[0]
        # first-wins dictionary update
        if c.op == "in" and c.args[1] is phi and s.args[1] is phi and s.args[2].op == "store" \
                and s.args[2].args[0] is phi and s.args[2].args[1] is c.args[0]:
            return [(TRUE, c.args[0], s.args[2].args[2], const("first"))]
        a, b = stores(s.args[1], phi), stores(s.args[2], phi)
        if a is None or b is None or occurs(phi, c):
            return None
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        ra, rb = a[n:], b[n:]
        if len(ra) == len(rb) and all(x[1] is y[1] and x[0] is y[0] and x[3:] == y[3:] for x, y in zip(ra, rb)):
            return a[:n] + [(x[0], x[1], Ite(c, x[2], y[2])) + x[3:] for x, y in zip(ra, rb)]
        return (a[:n] + [(And(c, x[0]),) + x[1:] for x in ra] + [(And(Not(c), x[0]),) + x[1:] for x in rb])
    return None
