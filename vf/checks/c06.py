"""C06: the indirect method solves the first-order optimality conditions."""
from types import SimpleNamespace

import casadi as ca

from .. import ocplib as L
from ..core import zero
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "The indirect method is executed end to end on problems with polynomial dynamics, costs and terminal constraints "
    "whose coefficients are symbolic parameters.  The reference is Pontryagin's system written from the definition: "
    "H = L + lambda.f + nu.g, lambda' = -dH/dx, 0 = dH/dy, lambda(tf) = dV/dx + (dh/dx)'eta and the minimiser of H "
    "over the control box; its collocation (or flow) rows are compared with the rows the solver received in both "
    "directions, and the reported control with the minimiser, by z3 for all coefficients and trajectories.")
BOUNDS = ("1..2 states, 0..1 algebraics, 1..2 controls, polynomial degree <= 3 with symbolic coefficients, control "
          "Hessian diagonal with symbolic or numeric entries (full when unbounded), 1..3 elements, degree 1..3")
ASSUMPTIONS = [
    "Hamiltonian quadratic in u; with control bounds its Hessian in u is diagonal and positive",
    "no state bounds, path constraints or element costs (not part of the indirect formulation)",
    "CasADi's differentiation is trusted on both sides",
    "terminal cost and constraints do not depend on the adjoints",
]


class PolyOcp:
    def __init__(self, ctx, nx=2, ny=1, nu=1, hfinal=1, t0=0.0, tf=1.0, bounds=None, R="sym", full=False,
                 yin=True, hinit=0, nth=0, box=False):
        from yaocptool.modelling import OptimalControlProblem, SystemModel
        m = SystemModel("m")
        self.nx, self.ny, self.nu, self.nth = nx, ny, nu, nth
        self.t0, self.tf = t0, tf
        x = m.create_state("x", nx)
        y = m.create_algebraic_variable("y", ny) if ny else SX(0, 1)
        u = m.create_control("u", nu)
        npar = 60
        p = m.create_parameter("p", npar)
        self.np = npar
        th = m.create_theta("th", nth) if nth else SX(0, 1)
        t = m.t
        it = iter(range(npar))
        c = lambda: p[next(it)]  # noqa: E731
        yy = y[0] if ny else SX(0)
        ode = []
        for i in range(nx):
            j = (i + 1) % nx
            e = c() * x[i] + c() * x[i] * x[j] * x[0] + c() * t
            if ny and yin:
                e = e + c() * yy * x[j]
            for k in range(nu):
                e = e + c() * u[k] + c() * u[k] * x[i]
            for k in range(nth):
                e = e + (k + 1) * th[k] * x[j] * (1 if k else u[0])
            ode.append(e)
        self.ode = ca.vertcat(*ode)
        alg = []
        for i in range(ny):
            alg.append(c() * y[i] + c() * x[0] * y[i] + c() * x[nx - 1] + c() * u[0])
        self.alg = ca.vertcat(*alg) if ny else SX(0, 1)
        Lc = c() * x[0] * x[0] * x[nx - 1] + c() * t * x[0]
        if ny:
            Lc = Lc + c() * yy * yy + c() * yy * x[0]
        for k in range(nu):
            r = {"sym": p[npar - 1 - k], "num": DM(0.7 + 0.4 * k)}[R]
            Lc = Lc + r * u[k] * u[k] + c() * u[k] * x[0] + c() * u[k]
        if full and nu > 1:
            Lc = Lc + DM(0.3) * u[0] * u[1]
        for k in range(nth):
            Lc = Lc + (k + 2) * th[k] * (u[0] if k else x[0])
        self.L = SX(Lc)
        self.V = c() * x[0] * x[0] + c() * x[0] * x[nx - 1] + c() * x[nx - 1]
        self.hf = ca.vertcat(*[c() * x[0] * x[nx - 1] + c() * x[0] + c() for _ in range(hfinal)]) \
            if hfinal else SX(0, 1)
        m.include_equations(ode=self.ode)
        if ny:
            m.include_equations(alg=self.alg)
        self.x, self.y, self.u, self.p, self.th, self.t = x, y, u, p, th, m.t
        x0 = DM([0.3 + 0.1 * i for i in range(nx)])
        self.x0_default = x0
        pr = OptimalControlProblem(m, x_0=x0, t_0=t0, t_f=tf)
        pr.L, pr.V = self.L, self.V
        if hfinal:
            pr.include_final_time_equality(self.hf)
        self.ubd = bounds or [(-ca.inf, ca.inf)] * nu
        pr.u_min, pr.u_max = DM([b[0] for b in self.ubd]), DM([b[1] for b in self.ubd])
        if box:     # the indirect method has no state and algebraic constraints: it warns and leaves them out
            pr.x_min, pr.x_max = DM([-1.0 - i for i in range(nx)]), DM([2.0 + i for i in range(nx)])
            if ny:
                pr.y_min, pr.y_max = DM([-1.5 - i for i in range(ny)]), DM([2.5 + i for i in range(ny)])
        self.given = {k: (getattr(pr, k), DM(getattr(pr, k))) for k in
                      (("x_min", "x_max") + (("y_min", "y_max") if ny else ()) if box else ()) + ("u_min", "u_max")}
        self.problem = pr


def pontryagin(o):
    """(extended ode, extended alg, L*, u*, symbols) from the definition."""
    lam, nu = SX.sym("lam", o.nx), SX.sym("nu", o.ny)
    H = o.L + ca.dot(lam, o.ode) + (ca.dot(nu, o.alg) if o.ny else 0)
    dH = ca.jacobian(H, o.u).T
    hess = ca.jacobian(dH, o.u)
    q = ca.substitute(dH, o.u, SX.zeros(o.nu))
    us = []
    if o.nu == 1 or all(hess[i, j].is_zero() for i in range(o.nu) for j in range(o.nu) if i != j):
        for i in range(o.nu):
            us.append(-q[i] / hess[i, i])
    else:   # Cramer, 2 controls
        det = hess[0, 0] * hess[1, 1] - hess[0, 1] * hess[1, 0]
        us = [-(hess[1, 1] * q[0] - hess[0, 1] * q[1]) / det, -(hess[0, 0] * q[1] - hess[1, 0] * q[0]) / det]
    for i, (lo, hi) in enumerate(o.ubd):
        if lo != -ca.inf:
            us[i] = ca.fmax(us[i], lo)
        if hi != ca.inf:
            us[i] = ca.fmin(us[i], hi)
    us = ca.vertcat(*us)
    S = lambda e: ca.substitute(e, o.u, us)  # noqa: E731
    ode = ca.vertcat(S(o.ode), S(-ca.jacobian(H, o.x).T))
    alg = ca.vertcat(S(o.alg), S(ca.jacobian(H, o.y).T)) if o.ny else SX(0, 1)
    return lam, nu, ode, alg, S(o.L), us


def case(ctx, d=2, N=2, scheme="collocation", cost_state=False, **kw):
    from yaocptool.methods import IndirectMethod
    o = PolyOcp(ctx, **kw)
    lam, nu, ode, alg, Ls, us = pontryagin(o)
    T = L.transcribe(ctx, o, method_cls=IndirectMethod, d=d, N=N, dc=None, scheme=scheme,
                     method_opts=dict(create_cost_state=True) if cost_state else None)
    for k, (v, w) in o.given.items():   # vectors of the caller, possibly given to other problems too
        ctx.require("the caller's %s is unchanged" % k, ca.is_equal(DM(v), w) or str(v) == str(w), "%s instead of %s" % (v, w))
    names = T.xn
    li = [i for i in range(len(names)) if i not in T.ui and "lamb" in names[i]]
    if len(li) != o.nx:     # names are not part of the contract: take the next nx states
        li = [i for i in range(len(names)) if i not in T.ui][:o.nx]
    ctx.require("adjoint states", len(li) == o.nx and len(names) == 2 * o.nx + (1 if cost_state else 0),
                "expected %d adjoint states, result has %s" % (o.nx, names))
    if len(li) != o.nx:
        return
    cost_i = [i for i in range(len(names)) if i not in T.ui and i not in li]
    T.ui = T.ui + li
    T.extra = cost_i
    U = T.U
    T.U = [[SX(0, 1)]] * N
    T.dc = 1
    x0full = ca.vertcat(T.x0, T.X[0][0][li])
    o2 = SimpleNamespace(
        nx=2 * o.nx, ny=2 * o.ny, nu=0, np=o.np, nth=o.nth, t0=o.t0, tf=o.tf, x=ca.vertcat(o.x, lam),
        y=ca.vertcat(o.y, nu), u=SX(0, 1), p=o.p, th=o.th, t=o.t, ode=ode, alg=alg, L=Ls, hinit=SX(0, 1),
        positive=False, g_eq=[], g_ineq=[], hfinal=SX(0, 1), h=SX(0, 1), delta=None, popt=[], thopt=[],
        xb=(-DM.inf(2 * o.nx), DM.inf(2 * o.nx)), yb=(-DM.inf(2 * o.ny), DM.inf(2 * o.ny)), ub=(DM(0, 1), DM(0, 1)))
    o2.syms = [o.t, o2.x, o2.y, o2.u, o2.p, o2.th]
    o2.fun = lambda e: ca.Function("ref", o2.syms, [SX(e)])
    T.x0 = x0full
    rows = L.reference(ctx, o2, T)
    xf = (T.X[N - 1][d] if scheme == "collocation" else T.X[N][0])
    eta = SX(T.res.eta)
    ctx.require("eta size", eta.numel() == o.hf.numel(), "one multiplier per terminal constraint")
    if eta.numel() != o.hf.numel():
        return
    es = SX.sym("eta", o.hf.numel())
    trans = lam - ca.jacobian(o.V, o.x).T
    if o.hf.numel():
        trans = trans - ca.mtimes(ca.jacobian(o.hf, o.x).T, es)
    fT = ca.Function("tr", [o.x, lam, es, o.p], [ca.vertcat(o.hf, trans)])
    rows += zero(fT(xf[T.ui[:o.nx]], xf[li], eta, T.P))
    ctx.same_set("optimality system", T.nlp.rows(), rows)
    # reported control
    fu = ca.Function("us", o2.syms, [us])
    nodes = L.radau(d)
    for k in range(N):
        tk = o.t0 + k * T.h
        if scheme == "collocation":
            if d == 1:
                ctx.require("control count", len(U[k]) == 1, "one control value per element")
                ctx.equal("control %d" % k, U[k][0], fu(tk, T.X[k][0][T.ui], T.Y[k][0], SX(0, 1), T.P, T.TH[k]))
                continue
            ctx.require("control count", len(U[k]) == d, "one control value per collocation point")
            for j in range(min(d, len(U[k]))):
                ctx.equal("control %d.%d" % (k, j), U[k][j],
                          fu(tk + T.h * nodes[j], T.X[k][j + 1][T.ui], T.Y[k][j], SX(0, 1), T.P, T.TH[k]))
        elif d > 1:
            tj = tk + T.h * nodes[0]
            xf_, zf_ = L.flow(ctx, o2, T, k, tk, tj, T.X[k][0], T.P, T.TH[k], [SX(0, 1)])
            ctx.equal("control %d.0" % k, U[k][0], fu(tj, xf_[T.ui], zf_, SX(0, 1), T.P, T.TH[k]))


def scenarios(tier):
    M = "multiple-shooting"
    q = [
        ("dae", dict()),
        ("ode", dict(ny=0, d=3)),
        ("ode no terminal", dict(ny=0, hfinal=0, N=3)),
        ("bounded control", dict(ny=0, bounds=[(-0.5, 0.8)], R="num")),
        ("one sided bounds", dict(ny=0, nu=2, bounds=[(-0.5, ca.inf), (-ca.inf, 0.3)], R="num", N=1)),
        ("two bounded controls", dict(ny=0, nu=2, bounds=[(-0.5, 0.8), (-1.2, 0.3)], R="num", N=1)),
        ("ms two bounded controls", dict(ny=0, nu=2, bounds=[(-0.5, 0.8), (-1.2, 0.3)], R="num", N=1, scheme=M)),
        ("two controls symbolic weights", dict(ny=0, nu=2, N=1)),
        ("two controls coupled", dict(ny=0, nu=2, R="num", full=True, N=1)),
        ("two terminal constraints", dict(ny=0, hfinal=2, N=1)),
        ("shifted horizon", dict(t0=1.0, tf=3.5, ny=0)),
        ("cost state", dict(ny=0, cost_state=True)),
        ("scalar", dict(nx=1, ny=1, d=3, N=1)),
        ("state bounds", dict(box=True, N=1)),
        ("ms state bounds", dict(box=True, N=1, scheme=M)),
        ("ms ode", dict(ny=0, scheme=M)),
        ("thetas", dict(ny=0, nth=2, N=2)),
        ("twelve elements", dict(ny=0, nx=1, nth=1, N=12)),
        ("ms twelve elements", dict(ny=0, nx=1, nth=1, N=12, scheme=M)),
        ("thetas bounded dae", dict(nth=1, bounds=[(-0.5, 0.8)], R="num", N=2)),
        ("ms thetas", dict(ny=0, nth=2, scheme=M)),
        ("ms thetas dae", dict(nth=1, scheme=M)),
        ("ms dae bounded", dict(scheme=M, bounds=[(-0.5, 0.8)], R="num", N=1)),
    ]
    if tier == "thorough":
        for N in (1, 2, 3):
            for d in (1, 2, 3, 4):
                q.append(("sweep N%d d%d" % (N, d), dict(N=N, d=d, nx=2, ny=1, nu=2, t0=0.5, tf=0.5 + N, R="num",
                                                          bounds=[(-0.5, 0.8), (-1, 1)])))
    return [Scenario(n, case, **k) for n, k in q]
