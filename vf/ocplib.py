"""Generic optimal control problems for the transcription checks.

`Ocp` builds a SystemModel and an OptimalControlProblem through the public API
with arbitrary (uninterpreted) dynamics, costs and constraints, and keeps its own
independent copy of the mathematics.  `transcribe` runs the real solution method
end to end up to the numerical solver and back, and returns the problem the
solver received together with the decoded trajectories."""
import math

import casadi as ca

from . import hooks
from .core import HarnessError, Structural, bounds, zero

SX, DM = ca.SX, ca.DM


def radau(d):
    return list(ca.collocation_points(d, "radau"))


def lagrange(nodes, t):
    """Values at t of the Lagrange basis on the nodes."""
    out = []
    for j, a in enumerate(nodes):
        v = 1.0
        for k, b in enumerate(nodes):
            if k != j:
                v *= (t - b) / (a - b)
        out.append(v)
    return out


def lagrange_d(nodes, t):
    """Derivatives at t of the Lagrange basis on the nodes."""
    out = []
    for j, a in enumerate(nodes):
        s = 0.0
        for m, b in enumerate(nodes):
            if m == j:
                continue
            v = 1.0 / (a - b)
            for k, c in enumerate(nodes):
                if k not in (j, m):
                    v *= (t - c) / (a - c)
            s += v
        out.append(s)
    return out


def radau_weights(d):
    """Quadrature weights of the Radau rule: integral over [0,1] of the Lagrange
    basis on the d collocation points (exact polynomial integration)."""
    import numpy as np
    nodes = radau(d)
    w = []
    for j, a in enumerate(nodes):
        p = np.poly1d([1.0])
        for k, b in enumerate(nodes):
            if k != j:
                p = p * np.poly1d([1.0, -b]) / (a - b)
        q = p.integ()
        w.append(float(q(1.0) - q(0.0)))
    return w


class Ocp:
    """Configuration keys: nx ny nu np nth, t0 tf, popt (indices of p that are
    optimised), thopt, uses of features below."""

    def __init__(self, ctx, nx=2, ny=1, nu=1, np=1, nth=0, t0=0.0, tf=1.0, popt=(), thopt=(),
                 xb=True, yb=True, ub=True, cost=True, S=False, V=True, h=0, hfinal=0, hinit=0,
                 g_eq=(), g_ineq=(), delta=None, last_u=None, positive=False, names=None,
                 name="OCP", uses_t=True, user_x0=None, use_create=False):
        from yaocptool.modelling import OptimalControlProblem, SystemModel
        self.ctx = ctx
        self.cfg = dict(nx=nx, ny=ny, nu=nu, np=np, nth=nth)
        m = SystemModel("m")
        self.nx, self.ny, self.nu, self.np, self.nth = nx, ny, nu, np, nth
        self.t0, self.tf = t0, tf
        x = m.create_state("x", nx)
        y = m.create_algebraic_variable("y", ny) if ny else SX(0, 1)
        u = m.create_control("u", nu) if nu else SX(0, 1)
        p = m.create_parameter("p", np) if np else SX(0, 1)
        th = m.create_theta("th", nth) if nth else SX(0, 1)
        t = m.t if uses_t else SX(0, 1)
        self.x, self.y, self.u, self.p, self.th, self.t = x, y, u, p, th, m.t
        self.syms = [m.t, x, y, u, p, th]
        self.ode = ctx.ufv(10, nx, t, x, y, u, p, th)
        self.alg = ctx.ufv(40, ny, t, x, y, u, p, th)
        m.include_equations(ode=self.ode)
        if ny:
            m.include_equations(alg=self.alg)
        self.model0 = m
        x0 = user_x0 if user_x0 is not None else DM([0.3 + 0.1 * i for i in range(nx)])
        self.x0_default = x0
        pr = OptimalControlProblem(m, name=name, x_0=x0, t_0=t0, t_f=tf)
        self.problem = pr
        xs, us = x, u
        # ---- costs
        part = lambda on, e: e() if on is True else SX(on or 0)  # noqa: E731
        self.L = part(cost, lambda: ctx.uf(60, t, x, y, u, p, th))
        self.V = part(V, lambda: ctx.uf(61, x, p))
        self.S = part(S, lambda: ctx.uf(62, t, x, y, u, p, th))
        pr.L, pr.V, pr.S = [w if isinstance(w, (int, float)) and not isinstance(w, bool) else e
                            for w, e in ((cost, self.L), (V, self.V), (S, self.S))]     # numbers as numbers
        # ---- bounds (all distinct)
        c = iter(range(1, 200))

        def bnd(n, on):
            lo = DM([-2.0 - 0.11 * next(c) / 3 for _ in range(n)]) if on else -DM.inf(n)
            hi = DM([2.0 + 0.13 * next(c) / 3 for _ in range(n)]) if on else DM.inf(n)
            return (lo, hi) if n else (DM(0, 1), DM(0, 1))

        self.xb, self.yb, self.ub = bnd(nx, xb), bnd(ny, yb), bnd(nu, ub)
        if nx > 1 and xb:            # mixed finite/infinite
            self.xb[0][1] = -ca.inf
        pr.x_min, pr.x_max = DM(self.xb[0]), DM(self.xb[1])
        pr.y_min, pr.y_max = DM(self.yb[0]), DM(self.yb[1])
        pr.u_min, pr.u_max = DM(self.ub[0]), DM(self.ub[1])
        # ---- optimised parameters
        self.popt, self.thopt = list(popt), list(thopt)
        self.pob, self.tob = bnd(len(popt), True), bnd(len(thopt), True)
        for k, i in enumerate(self.popt):
            pr.set_parameter_as_optimization_parameter(p[i], self.pob[0][k], self.pob[1][k])
        for k, i in enumerate(self.thopt):
            pr.set_theta_as_optimization_theta(th[i], self.tob[0][k], self.tob[1][k])
        # ---- constraints
        self.h = ctx.ufv(70, h, p)
        if h:
            pr.include_equality(self.h)
        self.hfinal = ctx.ufv(80, hfinal, x, p)
        if hfinal:
            pr.include_final_time_equality(self.hfinal)
        self.hinit = ctx.ufv(90, hinit, x)
        if hinit:
            pr.include_initial_time_equality(self.hinit)
        self.g_eq, self.g_ineq = [], []
        for k, when in enumerate(g_eq):
            e = ctx.uf(100 + k, t, x, y, u, p, th)
            pr.include_time_equality(e, when=when) if when else pr.include_time_equality(e)
            self.g_eq.append((e, when or "default"))
        for k, when in enumerate(g_ineq):
            e = ctx.uf(120 + k, t, x, y, u, p, th)
            pr.include_time_inequality(e, when=when) if when else pr.include_time_inequality(e)
            self.g_ineq.append((e, when or "default"))
        self.delta = delta
        if delta is not None:
            pr.delta_u_min, pr.delta_u_max = DM(delta[0]), DM(delta[1])
        if last_u is not None:
            pr.last_u = DM(last_u)
        self.positive = positive
        if positive:
            pr.positive_objective = True

    def fun(self, e):
        return ca.Function("ref", self.syms, [e])


class Traj:
    """Decoded solution: X[k][j], Y[k][j], U[k][j], per element p/theta, times."""


def transcribe(ctx, o, method_cls=None, d=2, N=2, dc=1, scheme="collocation", method_opts=None,
               pass_p=True, pass_x0=True, pass_last=None, solve_kw=None, guess="given", form=None):
    from yaocptool.methods import DirectMethod
    cls = method_cls or DirectMethod
    kw = dict(degree=d, finite_elements=N, discretization_scheme=scheme)
    if dc is not None:
        kw["degree_control"] = dc
    kw.update(method_opts or {})
    m = cls(o.problem, **kw)
    rec = hooks.NlpRecorder()
    T = Traj()
    T.method = m
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        names = [m.model.x[i].name() for i in range(m.model.n_x)]
        xn = [o.x[i].name() for i in range(o.nx)]
        T.p = SX(ctx.arg("pv", o.np)) if o.np else SX(0, 1)
        T.theta = {k: SX(ctx.arg("thv%d_" % k, o.nth)) for k in range(N)} if o.nth else \
            {k: SX(0, 1) for k in range(N)}
        call = {}
        call["p"] = _as(ctx, T.p)
        call["theta"] = {k: _as(ctx, v) for k, v in T.theta.items()}
        x0u = SX(ctx.arg("x0v", o.nx)) if pass_x0 else SX(o.x0_default)
        T.x0 = x0u
        if pass_x0:
            full = [x0u[xn.index(n)] if n in xn else SX(0) for n in names]
            call["x_0"] = _as(ctx, ca.vertcat(*full))
        if pass_last:
            T.last_u = SX(ctx.arg("luv", o.nu))
            call["last_u"] = _as(ctx, T.last_u)
        if guess == "given":
            call["initial_guess"] = DM.zeros(m.opt_problem.x.numel())
        call.update(solve_kw or {})
        if form is not None:
            call = form(call)
            T.kept = snapshot(call)
        T.call = call
        res = solve_any(ctx, m, rec, call)
    if not rec.solvers or not rec.solvers[-1].calls:
        raise Structural("the numerical solver was never called")
    T.solver = rec.solvers[-1]
    T.nlp = hooks.Nlp(T.solver)
    T.res = res
    T.xn = list(res.x_names)
    T.ui = [T.xn.index(n) for n in xn]
    T.extra = [i for i in range(len(T.xn)) if i not in T.ui]
    T.X = [[SX(v) for v in el] for el in res.x_data["values"]]
    T.Y = [[SX(v) for v in el] for el in res.y_data["values"]]
    T.U = [[SX(v) for v in el] for el in res.u_data["values"]]
    T.P = SX(res.p) if o.np else SX(0, 1)
    T.TH = {k: (SX(res.theta[k]) if o.nth else SX(0, 1)) for k in range(N)}
    T.N, T.d, T.dc = N, d, dc or 1
    T.scheme = scheme
    T.h = (o.tf - o.t0) / N
    return T


def solve_any(ctx, m, rec, call):
    """m.solve(**call) with an arbitrary solver answer w.  Where the code insists
    on numbers (semi mode) the result is an affine function of w, recovered by
    running the real decoding on w = 0 and on the unit vectors."""
    if not ctx.semi:
        return m.solve(**call)

    def fresh():
        c = dict(call)
        for k in ("p", "x_0", "last_u"):
            if isinstance(c.get(k), DM):
                c[k] = DM(c[k])
            elif isinstance(c.get(k), list):
                c[k] = list(c[k])
        if c.get("theta") is not None:
            c["theta"] = {k: DM(v) for k, v in c["theta"].items()}
        return c

    cur = {}

    def maker(solver, n):
        cur["n"] = n
        v = DM.zeros(n)
        if isinstance(cur.get("i"), str):
            s, c = {"a": (0.7, 0.4), "b": (6.0, -3.0), "c": (-9.0, 5.0)}[cur["i"]]
            v = DM([s * math.cos(3.0 * k + 1.0) + c for k in range(n)])
        elif cur.get("i") is not None:
            v[cur["i"]] = 1.0
        return v

    rec.wmaker = maker
    base = m.solve(**fresh())
    n = cur["n"]
    solver = rec.solvers[-1]
    first_call = dict(solver.calls[-1])
    w = SX.sym("w", n)
    cols = []
    for i in range(n):
        cur["i"] = i
        cols.append(m.solve(**fresh()))
    probes = []
    for cur["i"] in ("a", "b", "c"):
        probes.append((m.solve(**fresh()), maker(None, n)))
    import copy
    res = copy.copy(base)

    def lift(get):
        b = DM(get(base))
        out = SX(b)
        for i in range(n):
            out = out + (DM(get(cols[i])) - b) * w[i]
        for probe, wp in probes:
            at = DM(b)
            for i in range(n):
                at = at + (DM(get(cols[i])) - b) * wp[i]
            d = ca.vec(ca.densify(at - DM(get(probe))))
            if any(not abs(float(d[i])) < 1e-7 for i in range(d.numel())):
                raise HarnessError("on numbers the decoded result is not an affine function of the decision vector")
        return out

    for attr in ("x_data", "y_data", "u_data"):
        vals = getattr(base, attr)["values"]
        setattr(res, attr, {"time": getattr(base, attr)["time"], "values": [
            [lift(lambda r, a=attr, k=k, j=j: getattr(r, a)["values"][k][j])
             for j in range(len(vals[k]))] for k in range(len(vals))]})
    res.p = lift(lambda r: r.p)
    res.p_opt = lift(lambda r: r.p_opt)
    res.theta = {k: lift(lambda r, k=k: r.theta[k]) for k in base.theta}
    res.theta_opt = [lift(lambda r, k=k: r.theta_opt[k]) for k in range(len(base.theta_opt))]
    if base.x_c_final is not None:
        res.x_c_final = lift(lambda r: r.x_c_final)
    solver.w = w
    solver.calls = [first_call]
    return res


def snapshot(v):
    """An independent copy of arguments."""
    if isinstance(v, dict):
        return {k: snapshot(q) for k, q in v.items()}
    if isinstance(v, list):
        return [snapshot(q) for q in v]
    return type(v)(v) if isinstance(v, (SX, DM)) else v


def _as(ctx, v):
    """Numeric argument in the form the mode asks for."""
    if ctx.semi:
        return DM(ca.evalf(v)) if isinstance(v, SX) else DM(v)
    return v


def u_at(T, k, tau):
    if T.dc == 1:
        return T.U[k][0]
    L = lagrange(radau(T.dc), tau)
    return sum((L[i] * T.U[k][i] for i in range(T.dc)), SX.zeros(T.U[k][0].numel()))


def bound_rows(v, b):
    return bounds(v, b[0], b[1])


def collocation_reference(o, T, what=("dyn", "bounds", "path")):
    """Constraint rows the discretised problem must impose, from the definition."""
    d, N, h = T.d, T.N, T.h
    nodes = [0.0] + radau(d)
    f, g = o.fun(o.ode), o.fun(o.alg)
    fL = o.fun(o.L)
    rows = []
    for k in range(N):
        tk = o.t0 + k * h
        X = [T.X[k][j][T.ui] for j in range(d + 1)]
        E = [T.X[k][j][T.extra] for j in range(d + 1)]
        if "dyn" in what:
            for j in range(1, d + 1):
                D = lagrange_d(nodes, nodes[j])
                arg = (tk + h * nodes[j], X[j], T.Y[k][j - 1], u_at(T, k, nodes[j]), T.P, T.TH[k])
                rows += zero(sum((D[i] * X[i] for i in range(d + 1)), SX.zeros(o.nx)) - h * f(*arg))
                if o.ny:
                    rows += zero(g(*arg))
                if T.extra:
                    rows += zero(sum((D[i] * E[i] for i in range(d + 1)), SX.zeros(len(T.extra)))
                                 - h * fL(*arg))
            if k:
                rows += zero(X[0] - T.X[k - 1][d][T.ui])
                if T.extra:
                    rows += zero(E[0] - T.X[k - 1][d][T.extra])
            else:
                rows += zero(X[0] - T.x0)
                if o.hinit.numel():
                    rows += zero(ca.Function("hi", [o.x], [o.hinit])(X[0]))
                if T.extra:
                    rows += zero(E[0])
        if "bounds" in what:
            for j in range(d + 1):
                rows += bound_rows(X[j], o.xb)
                if o.positive and T.extra:
                    rows += bound_rows(E[j], (DM.zeros(len(T.extra)), DM.inf(len(T.extra))))
            for j in range(d):
                rows += bound_rows(T.Y[k][j], o.yb)
            rows += control_bounds(o, T, k)
        if "path" in what:
            for lst, hi in ((o.g_eq, True), (o.g_ineq, False)):
                for e, when in lst:
                    ge = o.fun(e)
                    taus = {"start": [0.0], "end": [1.0], "default": nodes[1:]}[when]
                    for tau in taus:
                        Lx = lagrange(nodes, tau)
                        Ly = lagrange(nodes[1:], tau)
                        xx = sum((Lx[i] * X[i] for i in range(d + 1)), SX.zeros(o.nx))
                        yy = sum((Ly[i] * T.Y[k][i] for i in range(d)), SX.zeros(o.ny))
                        v = ge(tk + h * tau, xx, yy, u_at(T, k, tau), T.P, T.TH[k])
                        rows += [(v, 0.0 if hi else None, 0.0)]
    if "path" in what:
        rows += static_rows(o, T, T.X[N - 1][d][T.ui])
    return rows


def control_bounds(o, T, k):
    rows = []
    for v in T.U[k]:
        rows += bound_rows(v, o.ub)
    return rows


def static_rows(o, T, xf):
    """Terminal, time-independent, rate and optimised-parameter constraints."""
    rows = []
    if o.hfinal.numel():
        rows += zero(ca.Function("hf", [o.x, o.p], [o.hfinal])(xf, T.P))
    if o.h.numel():
        rows += zero(ca.Function("hh", [o.p], [o.h])(T.P))
    if o.delta is not None:
        lo, hi = DM(o.delta[0]), DM(o.delta[1])
        for k in range(T.N):
            if k:
                rows += bounds(T.U[k][0] - T.U[k - 1][0], lo, hi)
            elif getattr(T, "last_u", None) is not None:
                rows += bounds(T.U[0][0] - T.last_u, lo, hi)
    for kk, i in enumerate(o.popt):
        rows += bounds(T.P[i], o.pob[0][kk], o.pob[1][kk])
    for kk, i in enumerate(o.thopt):
        for k in range(T.N):
            rows += bounds(T.TH[k][i], o.tob[0][kk], o.tob[1][kk])
    return rows


def flow(ctx, o, T, k, ta, tb, x0, p, th, U):
    """State and algebraic values at tb when the model (with the cost state, in
    the result's state order) is integrated from x0 at ta inside element k."""
    mk = hooks.integrator_for(ctx)
    tk, tk1 = o.t0 + k * T.h, o.t0 + (k + 1) * T.h
    upar = SX.sym("upar", o.nu * T.dc)
    x, y, t = o.x, o.y, o.t
    f_all = o.fun(ca.vertcat(o.ode, o.L))
    g_all = o.fun(o.alg)
    ne = len(T.extra)
    tau = (t - tk) / (tk1 - tk)
    if T.dc == 1:
        ue = upar
    else:
        L = lagrange(radau(T.dc), tau)
        Us = [upar[i * o.nu:(i + 1) * o.nu] for i in range(T.dc)]
        ue = sum((L[i] * Us[i] for i in range(T.dc)), SX.zeros(o.nu))
    xe = SX.sym("xe", ne)
    order = [None] * (o.nx + ne)
    full = f_all(t, x, y, ue, o.p, o.th)
    for a, i in enumerate(T.ui):
        order[i] = (x[a], full[a])
    for a, i in enumerate(T.extra):
        order[i] = (xe[a], full[o.nx])
    dae = {"x": ca.vertcat(*[q[0] for q in order]), "ode": ca.vertcat(*[q[1] for q in order]), "t": t}
    if o.ny:
        dae["z"], dae["alg"] = y, g_all(t, x, y, ue, o.p, o.th)
    pp = ca.vertcat(o.p, o.th, upar)
    if pp.numel():
        dae["p"] = pp
    F = mk("ref", "rk", dae, {"t0": ta, "tf": tb})
    pv = ca.vertcat(p, th, *U) if pp.numel() else SX(0, 1)
    r = F.call({"x0": x0, "p": pv})
    return r["xf"], r["zf"]


def shooting_reference(ctx, o, T, what=("dyn", "bounds", "path")):
    """Multiple shooting: X[k+1] is the flow of the dynamics over element k."""
    N, h = T.N, T.h
    rows = []
    ends = []
    ne = len(T.extra)
    for k in range(N):
        tk, tk1 = o.t0 + k * h, o.t0 + (k + 1) * h
        xf, zf = flow(ctx, o, T, k, tk, tk1, T.X[k][0], T.P, T.TH[k], T.U[k])
        ends.append((xf, zf))
        if "dyn" in what:
            rows += zero(T.X[k + 1][0] - xf)
            if o.ny:
                rows += zero(T.Y[k][0] - zf)
            if k == 0:
                rows += zero(T.X[0][0][T.ui] - T.x0)
                if o.hinit.numel():
                    rows += zero(ca.Function("hi", [o.x], [o.hinit])(T.X[0][0][T.ui]))
                if ne:
                    rows += zero(T.X[0][0][T.extra])
        if "bounds" in what:
            rows += bound_rows(T.Y[k][0], o.yb) if o.ny else []
            rows += control_bounds(o, T, k)
        if "path" in what:
            for lst, eq in ((o.g_eq, True), (o.g_ineq, False)):
                for e, when in lst:
                    v = o.fun(e)(tk1, xf[T.ui], zf, u_at(T, k, 1.0), T.P, T.TH[k])
                    rows += [(v, 0.0 if eq else None, 0.0)]
    if "bounds" in what:
        for k in range(N + 1):
            rows += bound_rows(T.X[k][0][T.ui], o.xb)
            if o.positive and ne:
                rows += bound_rows(T.X[k][0][T.extra], (DM.zeros(ne), DM.inf(ne)))
    if "path" in what:
        rows += static_rows(o, T, T.X[N][0][T.ui])
    T.ends = ends
    return rows


def reference(ctx, o, T, what=("dyn", "bounds", "path")):
    if T.scheme == "collocation":
        return collocation_reference(o, T, what)
    return shooting_reference(ctx, o, T, what)
