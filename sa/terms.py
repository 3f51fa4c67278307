"""Hash-consed value terms.

A term is the value number the dataflow analysis gives to an expression.  Terms
are immutable and interned, so equality of value numbers is object identity.
"""
from __future__ import annotations

_table: dict = {}


class T:
    __slots__ = ("op", "args", "uid", "_nf", "_fp", "__weakref__")

    def __repr__(self):
        return show(self)


_counter = [0]


def mk(op, *args):
    key = (op,) + tuple(
        (id(a) if isinstance(a, T) else (type(a).__name__, a)) for a in args
    )
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _counter[0] += 1
        t.uid = _counter[0]
        t._nf = None
        t._fp = None
        _table[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t, v=...):
    if not (isinstance(t, T) and t.op == "const"):
        return False
    if v is ...:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


def cval(t):
    return t.args[0]


def is_num(t):
    return (
        isinstance(t, T)
        and t.op == "const"
        and isinstance(t.args[0], (int, float))
        and not isinstance(t.args[0], bool)
    )


def sym(name):
    return mk("sym", name)


_fresh = [0]


def fresh_bv():
    _fresh[0] += 1
    return mk("bv", _fresh[0])


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


# binders: op -> index of bound variable argument(s) within args
BINDERS = {
    "map": 1,       # (domain, bv, body, cond)
    "flatmap": 1,   # (domain, bv, seq, cond)
    "sum": 1,       # (domain, bv, body)
    "prod": 1,
    "any": 1,
    "all": 1,
    "bind": 1,      # (domain, bv, inner)
    "first": 1,     # (domain, bv, cond, val)
    "dictmap": 1,   # (domain, bv, key, val, cond)
    "setmap": 1,    # (domain, bv, elem, cond)
    "lam": 0,       # (bv, body)
    "rec": 1,       # (domain, bv, which, phis, inits, steps, irregular)
    "last": 1,
}


def children(t):
    return [a for a in t.args if isinstance(a, T)]


def subst(t, m, _memo=None):
    """Capture-free substitution (bound variables are globally fresh)."""
    if not m:
        return t
    if _memo is None:
        _memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = _memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args):
            _memo[x] = x
            return x
        new = tuple(go(a) if isinstance(a, T) else a for a in x.args)
        if all(p is q for p, q in zip(new, x.args)):
            r = x
        else:
            r = rebuild(x.op, new)
        _memo[x] = r
        return r

    return go(t)


# constructors with local simplification, installed by simplify.py
_smart: dict = {}


def rebuild(op, args):
    f = _smart.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def contains(t, pred, _memo=None):
    if _memo is None:
        _memo = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        stack.extend(children(x))
    return False


def subterms(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def occurs(x, t):
    return contains(t, lambda y: y is x)


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "bv":
        return f"k{a[0]}"
    if o == "phi":
        return f"phi<{a[1]}>"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a)
    if o == "tuple":
        return "(" + ", ".join(map(s, a)) + ")"
    if o == "list":
        return "[" + ", ".join(map(s, a)) + "]"
    if o == "matmul":
        return "(" + " @ ".join(map(s, a)) + ")"
    if o == "add":
        return "(" + " + ".join(map(s, a)) + ")"
    if o == "mul":
        return "(" + " * ".join(map(s, a)) + ")"
    if o == "tr":
        return s(a[0]) + ".T"
    if o == "ite":
        return f"if({s(a[0])}; {s(a[1])}; {s(a[2])})"
    if o == "call":
        return f"{a[0]}({', '.join(map(s, a[1:]))})"
    if o == "mcall":
        return f"{s(a[0])}.{a[1]}({', '.join(map(s, a[2:]))})"
    if o == "kw":
        return f"{a[0]}={s(a[1])}"
    if o == "opaque":
        return f"<unknown:{a[0]}>"
    return f"{o}(" + ", ".join(s(x) for x in a) + ")"
