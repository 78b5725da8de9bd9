"""The numerical boundary of the library: nlpsol/qpsol, integrator, rootfinder.

Wrappers are installed in the casadi module before yaocptool is imported, so the
library binds them like the originals.  While no hook is active they call the
real CasADi functions; a check activates hooks around the code it executes:

  nlpsol / qpsol  -> records the problem and the call arguments and returns an
                     arbitrary (symbolic) solution: "the optimiser may return
                     anything"; what is proved holds whatever it returns.
  integrator      -> contract stub: the end state is an arbitrary function of
                     (t0, tf, x0, p, the vector field itself).  The vector field
                     enters through its values at three instants of [t0, tf], so
                     two integrations agree only if their dynamics agree.
  rootfinder      -> an arbitrary value with the residual recorded.
  solve/inv/chol  -> their exact definitions on symbolic matrices (vf/linalg.py).
"""
import contextlib

import casadi as ca

NAMES = ("nlpsol", "qpsol", "integrator", "rootfinder", "solve", "inv", "chol")
REAL = {n: getattr(ca, n) for n in NAMES}
ACTIVE = dict.fromkeys(NAMES)


def _wrap(name):
    def f(*a, **k):
        h = ACTIVE[name]
        return REAL[name](*a, **k) if h is None else h(*a, **k)
    f.__name__ = name
    f.__doc__ = REAL[name].__doc__
    return f


def install():
    for n in REAL:
        if getattr(ca, n) is REAL[n]:
            setattr(ca, n, _wrap(n))
    import sys
    if "casadi.casadi" in sys.modules:
        for n in REAL:
            setattr(sys.modules["casadi.casadi"], n, getattr(ca, n))


def _dm_setitem():
    """Writing a symbolic value into a DM turns that matrix (the same object)
    into the symbolic one, as if the library had been given symbols all along."""
    real = ca.DM.__setitem__

    def passthrough(self, k, v):
        if isinstance(v, ca.SX):
            if v.is_constant():
                return real(self, k, ca.DM(v))
            q = ca.SX(self)
            q[k] = v
            self.__class__, self.this = ca.SX, q.this
            return None
        return real(self, k, v)
    ca.DM.__setitem__ = passthrough


_dm_setitem()


def exact_linalg(ctx):
    """Hooks for solve/inv/chol; none in replays, where CasADi's own are used."""
    if ctx.mode == "num":
        return {}
    from . import linalg

    def on(name):
        def f(*a, **k):
            if any(isinstance(q, ca.SX) and not q.is_constant() for q in a):
                return getattr(linalg, name)(*a[:2])
            return REAL[name](*a, **k)
        return f
    return {n: on(n) for n in ("solve", "inv", "chol")}


@contextlib.contextmanager
def active(**hooks):
    old = dict(ACTIVE)
    ACTIVE.update(hooks)
    try:
        yield
    finally:
        ACTIVE.update(old)


class FakeSolver:
    """What nlpsol/qpsol return while hooked."""

    def __init__(self, rec, name, plugin, prob, opts):
        self.rec, self._name, self.plugin, self.prob, self.opts = rec, name, plugin, prob, opts
        self.calls = []

    def __call__(self, *a, **kw):
        if a:
            raise TypeError("positional solver call")
        return self.call(kw)

    def call(self, kw):
        self.calls.append(dict(kw))
        return self.rec.solution(self, kw)

    def stats(self):
        return {"success": True, "return_status": "Solve_Succeeded", "iter_count": 1,
                "t_proc_total": 0.0, "t_wall_total": 0.0}

    def name(self):
        return self._name


class NlpRecorder:
    """Hook for nlpsol/qpsol.  `w(solver)` supplies the returned point."""

    def __init__(self, wmaker=None):
        self.solvers = []
        self.wmaker = wmaker

    def __call__(self, name, plugin, prob, opts=None):
        s = FakeSolver(self, name, plugin, prob, opts)
        self.solvers.append(s)
        return s

    def solution(self, solver, kw):
        n = _n(solver.prob, "x")
        w = self.wmaker(solver, n) if self.wmaker else ca.SX.sym("w", n)
        solver.w = w
        ng = _n(solver.prob, "g")
        return {"x": w, "f": ca.SX.sym("fval"), "g": ca.SX.sym("gval", ng),
                "lam_x": ca.SX.sym("lamx", n), "lam_g": ca.SX.sym("lamg", ng),
                "lam_p": ca.SX.sym("lamp", _n(solver.prob, "p"))}


def _n(d, k):
    v = d.get(k)
    return 0 if v is None else v.numel()


class Nlp:
    """The optimisation problem as the numerical solver received it, with the
    decision vector w and everything else substituted."""

    def __init__(self, solver, w=None, call=0):
        kw = solver.calls[call]
        prob = solver.prob
        n, npar, ng = _n(prob, "x"), _n(prob, "p"), _n(prob, "g")
        self.n, self.np, self.ng = n, npar, ng
        self.w = ca.SX(w if w is not None else solver.w)
        par = kw.get("p", ca.DM(0, 1))
        par = ca.SX(par) if not isinstance(par, ca.SX) else par
        self.par = par
        from .core import Structural
        if self.w.numel() != n or par.numel() != npar:
            raise Structural("the solver was built for %d variables and %d parameters but called with %d and %d"
                             % (n, npar, self.w.numel(), par.numel()))
        for k, m in (("lbx", n), ("ubx", n), ("lbg", ng), ("ubg", ng)):
            if kw.get(k) is not None and ca.DM(kw[k]).numel() not in (1, m):
                raise Structural("%s has %d entries for %d rows" % (k, ca.DM(kw[k]).numel(), m))
        mk = lambda k, m: prob[k] if m else ca.MX(0, 1)  # noqa: E731
        f = prob.get("f")
        g = prob.get("g")
        ins = [prob["x"], mk("p", npar)]
        if isinstance(prob["x"], ca.SX):
            ins = [prob["x"], prob["p"] if npar else ca.SX(0, 1)]
        F = ca.Function("nlp", ins, [f if f is not None else 0, g if ng else type(prob["x"])(0, 1)])
        if not F.is_a("SXFunction"):
            F = F.expand()
        self.F = F
        self.f, self.g = F(self.w, par if npar else ca.SX(0, 1))
        g1 = lambda k, m, dv: _full(kw.get(k), m, dv)  # noqa: E731
        self.lbx, self.ubx = g1("lbx", n, -ca.inf), g1("ubx", n, ca.inf)
        self.lbg, self.ubg = g1("lbg", ng, -ca.inf), g1("ubg", ng, ca.inf)
        self.x0 = kw.get("x0")

    def rows(self):
        from .core import bounds
        return bounds(self.g, self.lbg, self.ubg) + bounds(self.w, self.lbx, self.ubx)


def _full(v, n, default):
    if v is None:
        return ca.DM.ones(n, 1) * default if n else ca.DM(0, 1)
    v = ca.DM(v)
    if v.numel() == 1 and n != 1:
        return ca.DM.ones(n, 1) * float(v)
    return ca.densify(v)


def integrator_stub(ctx, probes=False):
    """Contract stub for casadi.integrator (see module docstring).  With probes
    the vector field is also taken at points around the initial state, for
    integrations that start at constants."""

    def make(name, plugin, dae, *rest):
        opts = {}
        t0, tf = 0.0, 1.0
        rest = list(rest)
        if rest and isinstance(rest[-1], dict):
            opts = rest.pop()
        if len(rest) >= 2:
            t0, tf = rest[0], rest[1]
        t0 = opts.get("t0", t0)
        tf = opts.get("tf", tf)
        if isinstance(tf, (list, tuple)):
            tf = tf[-1]
        t0, tf = float(t0), float(tf)
        x = dae["x"]
        cls = type(x)
        z = dae.get("z", cls(0, 1))
        p = dae.get("p", cls(0, 1))
        t = dae.get("t", None)
        ode = dae["ode"]
        alg = dae.get("alg", cls(0, 1))
        if t is None:
            t = cls.sym("t_unused")
        fun = ca.Function("field", [t, x, z, p], [ode, alg])
        if not fun.is_a("SXFunction"):
            fun = fun.expand()
        X, Z, P = ca.SX.sym("x0", x.numel()), ca.SX.sym("z0", z.numel()), ca.SX.sym("p", p.numel())
        zz = ctx.ufv(9000, z.numel(), X) if z.numel() else ca.SX(0, 1)
        finger = []
        for s in (0.0, 0.4142, 1.0):
            o, g = fun(t0 + s * (tf - t0), X, zz, P)
            finger += [o, g]
        if probes:
            for i in range(x.numel()):
                o, g = fun(t0, X + 0.37 * ca.SX(ca.DM([float(k == i) for k in range(x.numel())])), zz, P)
                finger += [o, g]
        finger = ca.vertcat(*finger)
        xf = ctx.ufv(8000, x.numel(), t0, tf, X, finger) if x.numel() else ca.SX(0, 1)
        zf = ctx.ufv(8500, z.numel(), t0, tf, X, finger) if z.numel() else ca.SX(0, 1)
        return ca.Function(name, [X, Z, P], [xf, zf], ["x0", "z0", "p"], ["xf", "zf"])

    return make


def integrator_concrete(ctx):
    """Replay integrator: classical RK4 (6 steps) with the algebraic variables
    eliminated by Newton steps; expandable, so claims can be evaluated."""

    def make(name, plugin, dae, *rest):
        opts = {}
        t0, tf = 0.0, 1.0
        rest = list(rest)
        if rest and isinstance(rest[-1], dict):
            opts = rest.pop()
        if len(rest) >= 2:
            t0, tf = rest[0], rest[1]
        t0, tf = opts.get("t0", t0), opts.get("tf", tf)
        if isinstance(tf, (list, tuple)):
            tf = tf[-1]
        t0, tf = float(t0), float(tf)
        x = dae["x"]
        cls = type(x)
        z, p = dae.get("z", cls(0, 1)), dae.get("p", cls(0, 1))
        t = dae.get("t", None)
        if t is None:
            t = cls.sym("t_unused")
        alg = dae.get("alg", cls(0, 1))
        fun = ca.Function("field", [t, x, z, p], [dae["ode"], alg])
        if not fun.is_a("SXFunction"):
            fun = fun.expand()
        nz = z.numel()
        X, Z, P = ca.SX.sym("x0", x.numel()), ca.SX.sym("z0", nz), ca.SX.sym("p", p.numel())
        if nz:
            ts, xs, zs, ps = (ca.SX.sym("t"), ca.SX.sym("x", x.numel()), ca.SX.sym("z", nz),
                              ca.SX.sym("p", p.numel()))
            g = fun(ts, xs, zs, ps)[1]
            step = zs - ca.solve(ca.jacobian(g, zs), g)
            newton = ca.Function("newton", [ts, xs, zs, ps], [step])

        def zsol(tt, xx, zz):
            for _ in range(4 if nz else 0):
                zz = newton(tt, xx, zz, P)
            return zz

        def f(tt, xx):
            return fun(tt, xx, zsol(tt, xx, ca.SX.zeros(nz)), P)[0]

        n = 4
        h = (tf - t0) / n
        xx = X
        for i in range(n):
            tt = t0 + i * h
            k1 = f(tt, xx)
            k2 = f(tt + h / 2, xx + h / 2 * k1)
            k3 = f(tt + h / 2, xx + h / 2 * k2)
            k4 = f(tt + h, xx + h * k3)
            xx = xx + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        zf = zsol(tf, xx, ca.SX.zeros(nz)) if nz else ca.SX(0, 1)
        return ca.Function(name, [X, Z, P], [xx, zf], ["x0", "z0", "p"], ["xf", "zf"])

    return make


def integrator_for(ctx, probes=False):
    return integrator_concrete(ctx) if ctx.mode == "num" else integrator_stub(ctx, probes)
