"""Path explorer for Python code that branches on symbolic values.

`explore(ctx, fn, modules)` runs `fn` once per feasible path.  While it runs,
the truth value of a CasADi comparison between symbols is a decision: z3 decides
which outcomes are possible under the decisions taken so far, one is taken, the
other is queued, and the constraint becomes part of the path condition
(`ctx.path`), which every claim stated during that run assumes.  `float(x)` of a
symbol, and DM([...]) of symbols, are the symbols themselves in the listed modules.

Two values compared as "less" are at least GAP apart; otherwise "not less".  In
replay mode nothing is patched: fn runs on numbers, first the solver's, then on
seeded ones.
"""
import builtins
import contextlib
import math

import casadi as ca

from .core import HarnessError
from .solve import Group

GAP = 1e-3
SX = ca.SX


class _FloatType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)


class symfloat(builtins.float, metaclass=_FloatType):
    def __new__(cls, x=0.0):
        if isinstance(x, SX) and not x.is_constant():
            return x
        return builtins.float(x)


class _DMType(type(ca.DM)):
    def __instancecheck__(cls, o):
        return isinstance(o, ca.DM)


def _symbolic(a):
    if isinstance(a, (list, tuple)):
        return any(_symbolic(q) for q in a)
    return isinstance(a, SX) and not a.is_constant()


class symDM(ca.DM, metaclass=_DMType):
    """DM(...) of symbols is the symbolic vector itself."""

    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and _symbolic(a[0]):
            return ca.vertcat(*a[0]) if isinstance(a[0], (list, tuple)) else a[0]
        return ca.DM(*a, **k)


def _flat(a):
    return list(a[0]) if len(a) == 1 else list(a)


def symmax(*a, **k):
    """max(...) of symbolic scalars is one symbolic value."""
    v = _flat(a)
    if k or not any(_symbolic(q) for q in v):
        return builtins.max(*v, **k) if len(v) != 1 else builtins.max(v, **k)
    m = v[0]
    for q in v[1:]:
        m = ca.fmax(m, q)
    return m


class DeadPath(BaseException):
    pass


class Path:
    def __init__(self, prefix):
        self.prefix, self.taken, self.rows, self.pending = prefix, [], [], []


def _less(ctx, path, a, b):
    """Decides a < b on this path."""
    for q, sign in ((a, 1), (b, -1)):
        if q.is_constant() and abs(builtins.float(q)) == math.inf:
            return builtins.float(q) * sign < 0     # the symbols are finite
    d = a - b
    i = len(path.taken)
    yes, no = (d, None, -GAP), (d, 0.0, None)
    if i < len(path.prefix):
        v = path.prefix[i]
    else:
        can = []
        for r in (yes, no):
            rows = path.rows + [r]
            ps = ctx.polys([q[0] for q in rows])
            g = Group(ctx.enc, ctx.stats, [(p, q[1], q[2]) for p, q in zip(ps, rows)])
            can.append(str(g.feasible()) != "unsat")
        if not any(can):
            raise DeadPath()        # only values within GAP of a threshold lead here
        v = can[0]
        if all(can):
            path.pending.append(path.taken + [False])
    path.taken.append(v)
    path.rows.append(yes if v else no)
    return v


def _truth(ctx, path, c):
    if c.is_constant():
        return builtins.float(c) != 0
    if c.numel() != 1:
        raise HarnessError("truth value of a vector")
    op = c.op()
    if op == ca.OP_LT:
        return _less(ctx, path, c.dep(0), c.dep(1))
    if op == ca.OP_LE:
        return not _less(ctx, path, c.dep(1), c.dep(0))
    if op == ca.OP_EQ:
        return not _less(ctx, path, c.dep(0), c.dep(1)) and not _less(ctx, path, c.dep(1), c.dep(0))
    if op == ca.OP_NE:
        return _less(ctx, path, c.dep(0), c.dep(1)) or _less(ctx, path, c.dep(1), c.dep(0))
    if op == ca.OP_NOT:
        return not _truth(ctx, path, c.dep(0))
    if op == ca.OP_AND:
        return _truth(ctx, path, c.dep(0)) and _truth(ctx, path, c.dep(1))
    if op == ca.OP_OR:
        return _truth(ctx, path, c.dep(0)) or _truth(ctx, path, c.dep(1))
    return _less(ctx, path, c, SX(0)) or _less(ctx, path, SX(0), c)


@contextlib.contextmanager
def _patched(ctx, path, modules):
    names = [n for n in ("__bool__", "__nonzero__") if hasattr(SX, n)]
    old = {n: SX.__dict__.get(n) for n in names}

    def truth(self):
        return _truth(ctx, path, self)

    for n in names:
        setattr(SX, n, truth)
    had = []
    for m in modules:
        for n, v in (("float", symfloat), ("DM", symDM), ("max", symmax)):
            if n == "DM" and m.__dict__.get(n) is not ca.DM:
                continue
            had.append((m, n, m.__dict__.get(n)))
            setattr(m, n, v)
    fmt = SX.__dict__.get("__format__")
    SX.__format__ = lambda self, spec: str(self)
    try:
        yield
    finally:
        for n in names:
            if old[n] is None:
                delattr(SX, n)
            else:
                setattr(SX, n, old[n])
        if fmt is None:
            del SX.__format__
        else:
            SX.__format__ = fmt
        for m, n, f in had:
            if f is None:
                delattr(m, n)
            else:
                setattr(m, n, f)


def explore(ctx, fn, modules=(), assume=(), max_paths=400, replays=12):
    """fn(vals) states its claims through ctx; vals(name, n) makes an input."""
    if ctx.mode == "num":
        for k in range(4 * replays):
            fn(lambda name, n=1: ctx.number(name, n, k))
            if ctx.confirmed:
                return
        return
    if ctx.semi:
        for k in range(replays):
            ctx.path = []
            fn(lambda name, n=1: ctx.number(name, n, k + 1))
        return
    todo, n, done = [[]], 0, 0
    while todo:
        n += 1
        if n > max_paths:
            raise HarnessError("more than %d paths" % max_paths)
        path = Path(todo.pop())
        path.rows = list(assume)
        with _patched(ctx, path, modules):
            ctx.path = path.rows
            try:
                fn(lambda name, n=1: ctx.input(name, n))
                done += 1
            except DeadPath:
                pass
        ctx.path = []
        todo += path.pending
    if not done:
        raise HarnessError("no path was completed")
    ctx.stats.paths = ctx.stats.paths + n
