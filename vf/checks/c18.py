"""C18: the Kalman filters compute the estimate their equations define."""
import casadi as ca

from .. import hooks, linalg
from .. import ocplib as L
from ..core import NeedNumbers
from ..modlib import Ref, els, vcat
from ..run import Scenario
from .c11 import control
from .c17 import quiet

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "ExtendedKalmanFilter, UnscentedKalmanFilter and PCEKalmanFilter run on symbolic means, covariances, noise matrices, "
    "measurements, controls and parameters; the integrator is a contract stub (the flow is an arbitrary function of the "
    "interval, the initial state and the vector field) and matrix inverses and factors are their exact definitions. z3 "
    "decides, for all values and flows, that the returned mean and covariance, and those recorded, are the ones the "
    "filter's equations give: prediction along the declared model over one sampling time from the current estimate, "
    "covariance through the linearisation at the prediction (EKF), the sigma points (UKF) or the polynomial chaos "
    "coefficients (PCE), gain P_xy P_yy^-1 with the measurement noise, and correction by the measured innovation.")
BOUNDS = "1..2 states, 0..2 algebraics, 1..2 measurements, 1..2 controls; one or two consecutive estimates; chaos order 1..3"
ASSUMPTIONS = ["the numerical integrator is exact for the interval and equations it is given",
               "solve, inv and chol return the exact inverse and the upper triangular factor",
               "covariances are regular enough for their inverses and factors to exist"]


def val(ctx, name, n):
    return L._as(ctx, SX(ctx.arg(name, n)))


def mat(v, n):
    """Symmetric matrix with the given lower triangle."""
    m, k = SX.zeros(n, n), 0
    for j in range(n):
        for i in range(j, n):
            m[i, j] = m[j, i] = v[k]
            k += 1
    return m


def cov(ctx, name, n):
    """A covariance: any symmetric matrix, or a positive definite one of numbers."""
    v = SX(ctx.arg(name, n * (n + 1) // 2))
    if v.is_constant() or ctx.mode == "num":
        a = mat(v, n)
        return L._as(ctx, ca.mtimes(a, a) + SX.eye(n) * 0.3)
    return mat(v, n)


class Sys:
    """A polynomial model and what it is meant to be."""

    def __init__(self, nx, ny, nu, np, nth, time=True, nonlinear=True):
        from yaocptool.modelling import SystemModel
        m = SystemModel(name="kf")
        r = self.r = Ref()
        new = lambda f, n, k: els(f(n, k)) if k else []  # noqa: E731
        r.x, r.y, r.u = new(m.create_state, "x", nx), new(m.create_algebraic_variable, "y", ny), new(m.create_control, "u", nu)
        r.p, r.th = new(m.create_parameter, "p", np), new(m.create_theta, "th", nth)
        r.t, r.tau, r.upar, r.uexpr = m.t, m.tau, list(r.u), list(r.u)
        q = 1.0 if nonlinear else 0.0
        for i in range(nx):
            e = 0.4 * r.x[i] - 0.7 * r.x[(i + 1) % nx] + q * (0.3 + 0.2 * i) * r.x[i] * r.x[(i + 1) % nx]
            for j, v in enumerate(r.u):
                e = e + (0.5 - 0.8 * j + 0.1 * i) * v * (1 + q * r.x[i])
            for j, v in enumerate(r.y):
                e = e + (0.9 - 0.5 * j - 0.2 * i) * v + q * 0.15 * v * r.x[i]
            for j, v in enumerate(r.p):
                e = e + (0.6 + 0.3 * j) * v * r.x[(i + j) % nx]
            for j, v in enumerate(r.th):
                e = e + (0.25 - 0.35 * j) * v * r.x[i]
            if time:
                e = e + (0.45 + 0.1 * i) * r.t
            r.ode.append(e)
        for i in range(ny):
            e = (1.3 + 0.2 * i) * r.y[i] + 0.35 * r.x[i % nx]
            if ny > 1:
                e = e - 0.45 * r.y[(i + 1) % ny] + 0.1 * (i + 1) * r.x[(i + 1) % nx]
            else:
                e = e + q * 0.25 * r.x[0] * r.y[0]
            e = e + q * 0.2 * r.x[i % nx] * r.x[(i + 1) % nx]
            for j, v in enumerate(r.u):
                e = e + (0.3 + 0.4 * j) * v * (1 + q * r.x[0])
            for j, v in enumerate(r.p):
                e = e - 0.55 * v * r.x[i % nx]
            for j, v in enumerate(r.th):
                e = e + 0.65 * v * r.x[i % nx]
            r.alg.append(e)
        m.include_equations(ode=r.ode, alg=r.alg) if ny else m.include_equations(ode=r.ode)
        self.m = m


def flow(ctx, r, ta, tb, x0, p, th, up):
    """As in C11, with the vector field also seen around the initial state."""
    mk = hooks.integrator_for(ctx, probes=True)
    dae = {"x": vcat(r.x), "ode": vcat(r.ode), "t": r.t}
    if r.alg:
        dae["z"], dae["alg"] = vcat(r.y), vcat(r.alg)
    pp = r.p + r.th + r.upar
    if pp:
        dae["p"] = vcat(pp)
    q = mk("ref", "rk", dae, {"t0": ta, "tf": tb}).call(
        {"x0": SX(x0), "p": ca.vertcat(SX(p), SX(th), SX(up)) if pp else SX(0, 1)})
    return q["xf"], q["zf"]


def exponential(ctx, a):
    """exp(a): column j is the flow of x' = a x from e_j over [0, 1]."""
    n = a.shape[0]
    x, q = SX.sym("x", n), SX.sym("a", n * n)
    mk = hooks.integrator_for(ctx, probes=True)
    i = mk("e", "rk", {"x": x, "ode": ca.mtimes(ca.reshape(q, n, n), x), "p": q}, {"tf": 1})
    return ca.horzcat(*[i.call({"x0": SX(DM([float(k == j) for k in range(n)])), "p": ca.vec(a)})["xf"] for j in range(n)])


class Case:
    """Inputs shared by the filter and its reference."""

    def __init__(self, ctx, nx=2, ny=0, nu=1, np=0, nth=0, meas=1, how="matrix", t0=0.5, ts=0.25, noise="full", guess=True, start="full", **sys):
        self.ctx, self.t0, self.ts, self.nm = ctx, t0, ts, meas
        self.s = Sys(nx, ny, nu, np, nth, **sys)
        self.r = self.s.r
        self.x, self.P = val(ctx, "x", nx), cov(ctx, "P", nx) if start == "full" else DM.eye(nx) * 0.4 + 0.1
        self.Q = cov(ctx, "Q", nx) if noise == "full" else DM.eye(nx) * 0.2
        self.R = cov(ctx, "R", meas) if noise == "full" else DM.eye(meas) * 0.3
        self.p = val(ctx, "p", np) if np else None
        self.th = val(ctx, "th", nth) if nth else None
        self.y = DM([0.1] * ny)
        self.C = DM([[0.5 + 0.3 * i - 0.7 * j for j in range(nx + ny)] for i in range(meas)])
        self.D = DM([[0.8 - 0.3 * i + 0.2 * j for j in range(nu)] for i in range(meas)]) if how == "both" else None
        self.kw = dict(x_mean=cp(self.x), p_k=cp(self.P), r_v=cp(self.Q), r_n=cp(self.R), t=t0, t_s=ts)
        if ny and guess:
            self.kw["y_guess"] = self.y
        if np:
            self.kw["p"] = cp(self.p)
        if nth:
            self.kw["theta"] = {0: cp(self.th)}
        self.hfun = None
        if how == "function":
            x, y, u = SX.sym("x", nx), SX.sym("y", ny), SX.sym("u", nu)
            z = ca.vertcat(x, y)
            e = [0.4 * z[i % z.numel()] + 0.3 * z[(i + 1) % z.numel()] * z[i % z.numel()] + 0.6 * u[i % nu] * z[-1] + 0.1 * i for i in range(meas)]
            self.hfun = self.kw["h_function"] = ca.Function("h", [x, y, u], [ca.vertcat(*e)])
        else:
            self.kw["c_matrix"] = DM(self.C)
            if self.D is not None:
                self.kw["d_matrix"] = DM(self.D)

    def h(self, x, y, u):
        if self.hfun is not None:
            return self.hfun(x, y, u)
        v = ca.mtimes(SX(self.C), ca.vertcat(x, y))
        return v if self.D is None else v + ca.mtimes(SX(self.D), SX(u))

    def pars(self):
        z = SX(0, 1)
        return (SX(self.p) if self.p is not None else z), (SX(self.th) if self.th is not None else z)

    def filter(self, cls):
        return cls(self.s.m, **self.kw)

    def at(self, e, t, x, y, u):
        r = self.r
        p, th = self.pars()
        return ca.substitute(e, vcat([r.t] + r.x + r.y + r.p + r.th + r.u), ca.vertcat(SX(t), SX(x), SX(y), p, th, SX(u)))


def cp(v):
    return type(v)(v)


def inverse(ctx, a):
    return ca.inv(a) if ctx.mode == "num" else linalg.inv(a)


def sym_cov(ctx, p):
    return p


def ekf_step(ctx, c, t, x, Pa, u, y):
    r = c.r
    nx, ny = len(r.x), len(r.y)
    p, th = c.pars()
    xp, yp = flow(ctx, r, t, t + c.ts, x, p, th, u)
    X, Y, F = vcat(r.x), vcat(r.y), vcat(r.ode)
    A = c.at(ca.jacobian(F, X), t, xp, yp, u)
    if ny:
        G = vcat(r.alg)
        B = c.at(ca.jacobian(F, Y), t, xp, yp, u)
        K = -ca.mtimes(inverse(ctx, c.at(ca.jacobian(G, Y), t, xp, yp, u)), c.at(ca.jacobian(G, X), t, xp, yp, u))
        M = ca.vertcat(ca.horzcat(A, B), ca.horzcat(ca.mtimes(K, A), ca.mtimes(K, B)))
        gam = ca.vertcat(SX.eye(nx), K)
    else:
        M, gam = A, SX.eye(nx)
    Phi = exponential(ctx, M * c.ts)
    Pm = ca.mtimes([Phi, Pa, Phi.T]) + ca.mtimes([gam, SX(c.Q), gam.T])
    a, b, w = SX.sym("a", nx), SX.sym("b", ny), SX.sym("w", len(r.u))
    J = ca.jacobian(c.h(a, b, w), ca.vertcat(a, b))
    H = ca.substitute(J, ca.vertcat(a, b, w), ca.vertcat(xp, yp, SX(u)))
    Kg = ca.mtimes([Pm, H.T, inverse(ctx, ca.mtimes([H, Pm, H.T]) + SX(c.R))])
    z = ca.vertcat(xp, yp)
    z = z + ca.mtimes(Kg, SX(y) - c.h(xp, yp, SX(u)))
    return z, ca.mtimes(SX.eye(nx + ny) - ca.mtimes(Kg, H), Pm)


def ekf(ctx, steps=1, **cfg):
    from yaocptool.estimation import ExtendedKalmanFilter
    c = Case(ctx, **cfg)
    nx, ny = len(c.r.x), len(c.r.y)
    hk = dict(integrator=hooks.integrator_for(ctx, probes=True), **hooks.exact_linalg(ctx))
    Pa = SX.eye(nx + ny)
    Pa[:nx, :nx] = SX(c.P)
    x, t, rows = SX(c.x), c.t0, []
    with quiet(), hooks.active(**hk):
        kf = c.filter(ExtendedKalmanFilter)
        for k in range(steps):
            u, y, tk = val(ctx, "u%d" % k, len(c.r.u)), val(ctx, "m%d" % k, c.nm), 1.5 + k
            got = kf.estimate(tk, cp(y), cp(u))
            z, Pa = ekf_step(ctx, c, t, x, Pa, u, y)
            x, t = z[:nx], t + c.ts
            rows.append((tk, z, Pa, c.h(x, z[nx:, 0], SX(u))))
            returned(ctx, "estimate %d" % k, got, x, Pa[:nx, :nx])
    recorded(ctx, kf, rows, nx, ny)


def returned(ctx, name, got, x, P):
    ctx.require(name + " shape", SX(got[0]).shape == x.shape and SX(got[1]).shape == P.shape,
                "mean %s covariance %s" % (SX(got[0]).shape, SX(got[1]).shape))
    if SX(got[0]).shape == x.shape and SX(got[1]).shape == P.shape:
        ctx.equal(name + " mean", SX(got[0]), x)
        ctx.equal(name + " covariance", SX(got[1]), P)


def recorded(ctx, kf, rows, nx, ny, tags=("x", "y", "meas", "P", "P_y")):
    for tag in tags:
        if tag in ("y", "P_y") and not ny:
            continue
        want = [{"x": z[:nx], "y": z[nx:, 0], "meas": h, "P": ca.vec(P[:nx, :nx]), "P_y": ca.vec(P[nx:, nx:])}[tag] for _, z, P, h in rows]
        t, v = kf.dataset.get_entry(tag)
        ok = SX(v).shape == (want[0].numel(), len(rows)) and SX(t).numel() == len(rows)
        n = kf.dataset.get_entry_size(tag)
        ctx.require("recorded %s entry" % tag, n == SX(v).size1() == len(kf.dataset.get_entry_names(tag)),
                    "entry %s of size %s with names %s holds %s rows" % (tag, n, kf.dataset.get_entry_names(tag), SX(v).size1()))
        ctx.require("recorded %s count" % tag, ok, "%s: values %s, times %s" % (tag, SX(v).shape, SX(t).shape))
        if ok:
            ctx.equal("recorded %s times" % tag, ca.vec(SX(t)), SX(DM([q[0] for q in rows])))
            ctx.equal("recorded %s" % tag, ca.vec(SX(v)), ca.vertcat(*want))


def ukf_step(ctx, c, t, x, P, u, y):
    r = c.r
    n = len(r.x)
    p, th = c.pars()
    lam = 1e-6 * n
    root = SX(ca.chol(DM((n + lam) * P)) if ctx.mode == "num" and SX(P).is_constant() else linalg.chol((n + lam) * P)).T
    pts = [x] + [x + root[:, i] for i in range(n)] + [x - root[:, i] for i in range(n)]
    wm = [lam / (n + lam)] + [0.5 / (n + lam)] * (2 * n)
    wc = [wm[0] + 1 - 1e-6 + 2] + wm[1:]
    Z, H = [], []
    for q in pts:
        a, b = flow(ctx, r, t, t + c.ts, q, p, th, u)
        Z.append(ca.vertcat(a, b))
        H.append(c.h(a, b, SX(u)))
    zm = sum((w * q for w, q in zip(wm, Z)), SX.zeros(Z[0].numel()))
    hm = sum((w * q for w, q in zip(wm, H)), SX.zeros(c.nm))
    zero = SX.zeros
    Pz = sum((w * ca.mtimes(q - zm, (q - zm).T) for w, q in zip(wc, Z)), zero(Z[0].numel(), Z[0].numel()))
    Pz[:n, :n] = Pz[:n, :n] + SX(c.Q)
    Ph = sum((w * ca.mtimes(q - hm, (q - hm).T) for w, q in zip(wc, H)), zero(c.nm, c.nm)) + SX(c.R)
    Px = sum((w * ca.mtimes(q - zm, (g - hm).T) for w, q, g in zip(wc, Z, H)), zero(Z[0].numel(), c.nm))
    K = ca.mtimes(Px, inverse(ctx, Ph))
    return zm + ca.mtimes(K, SX(y) - hm), Pz - ca.mtimes([K, Ph, K.T])


def ukf(ctx, steps=1, **cfg):
    from yaocptool.estimation import UnscentedKalmanFilter
    c = Case(ctx, **cfg)
    nx, ny = len(c.r.x), len(c.r.y)
    hk = dict(integrator=hooks.integrator_for(ctx, probes=True), **hooks.exact_linalg(ctx))
    x, P, t, rows = SX(c.x), SX(c.P), c.t0, []
    with quiet(), hooks.active(**hk):
        kf = c.filter(UnscentedKalmanFilter)
        for k in range(steps):
            u, y, tk = val(ctx, "u%d" % k, len(c.r.u)), val(ctx, "m%d" % k, c.nm), 1.5 + k
            got = kf.estimate(tk, cp(y), cp(u))
            z, Pz = ukf_step(ctx, c, t, x, P, u, y)
            x, P, t = z[:nx], Pz[:nx, :nx], t + c.ts
            rows.append((tk, z, Pz, c.h(x, z[nx:, 0], SX(u))))
            returned(ctx, "estimate %d" % k, got, x, P)
    recorded(ctx, kf, rows, nx, ny)


def hermite(n, x):
    a, b = 1.0, x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, x * b - k * a
    return b


def design(n, order, samples):
    """Standard normal design, basis values and the least-squares projector."""
    from itertools import product
    from math import ceil, log2

    import numpy as np
    import sobol_seq
    from scipy.stats import norm
    e = norm.ppf(sobol_seq.i4_sobol_generate(n, samples, ceil(log2(samples))))
    idx = [q for q in product(range(order + 1), repeat=n) if sum(q) <= order]
    psi = np.array([[np.prod([hermite(k, e[s, j]) for j, k in enumerate(q)]) for q in idx] for s in range(samples)])
    return e, idx, np.linalg.pinv(psi)


def pce_step(ctx, c, t, x, P, u, y, order, samples, weights):
    import numpy as np
    r = c.r
    n = len(r.x)
    p, th = c.pars()
    e, idx, fit = design(n, order, samples)
    Lw = np.linalg.cholesky(DM(P).full())
    Z, H = [], []
    for s in range(samples):
        a, b = flow(ctx, r, t, t + c.ts, SX(DM(x) + DM(Lw @ e[s])), p, th, u)
        Z.append(a)
        H.append(c.h(a, b, SX(u)))
    az = ca.mtimes(SX(DM(fit)), ca.horzcat(*Z).T)
    ah = ca.mtimes(SX(DM(fit)), ca.horzcat(*H).T)
    W = ca.diag(SX(weights)[1:])
    Pz = ca.mtimes([az[1:, :].T, W, az[1:, :]]) + SX(c.Q)
    Ph = ca.mtimes([ah[1:, :].T, W, ah[1:, :]]) + SX(c.R)
    Px = ca.mtimes([az[1:, :].T, W, ah[1:, :]])
    K = ca.mtimes(Px, inverse(ctx, Ph))
    return az[0, :].T + ca.mtimes(K, SX(y) - ah[0, :].T), Pz - ca.mtimes([K, Ph, K.T])


def pce(ctx, order=2, extra=0, **cfg):
    """The sampled initial states are numbers; controls, parameters, noise and measurements are symbols."""
    from math import comb

    import numpy as np
    from yaocptool.estimation.pce_kalman_filter import PCEKalmanFilter
    from yaocptool.stochastic.pce import get_ls_factor
    if not ctx.semi:
        raise NeedNumbers("sampled states")
    c = Case(ctx, **cfg)
    for tag, n in (("Q", len(c.r.x)), ("R", c.nm)):
        if ctx.mode != "num":
            setattr(c, tag, mat(ctx.sym(tag + "s", n * (n + 1) // 2), n))
    c.kw.update(r_v=cp(c.Q), r_n=cp(c.R), pc_order=order)
    nx = len(c.r.x)
    npol = comb(nx + order, order)
    if extra:
        c.kw["n_samples"] = npol + extra
    free = (lambda n, k: val(ctx, n, k)) if ctx.mode == "num" else (lambda n, k: ctx.sym(n, k))
    if c.p is not None:
        c.p = free("ps", c.p.numel())
        c.kw["p"] = cp(c.p)
    hk = dict(integrator=hooks.integrator_for(ctx, probes=True), **hooks.exact_linalg(ctx))
    with quiet(), hooks.active(**hk):
        np.random.seed(5)
        kf = c.filter(PCEKalmanFilter)
        np.random.seed(5)
        weights = get_ls_factor(nx, npol + extra, order)[1]
        u, y = free("us", len(c.r.u)), free("ms", c.nm)
        got = kf.estimate(1.5, cp(y), cp(u))
        z, P = pce_step(ctx, c, c.t0, c.x, c.P, u, y, order, npol + extra, weights)
    returned(ctx, "estimate", got, z, P)
    recorded(ctx, kf, [(1.5, z, P, None)], nx, 0, tags=("x", "P"))
    ctx.equal("time", SX(kf.t), SX(c.t0 + c.ts))


class Scalar:
    """An expression as an element of a numpy array."""

    def __init__(self, e):
        self.e = SX(e)

    def sqrt(self):
        return Scalar(ca.sqrt(self.e))


for _n in ("add", "sub", "mul", "truediv", "pow"):
    _f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "truediv": lambda a, b: a / b,
          "pow": lambda a, b: a ** b}[_n]
    setattr(Scalar, "__%s__" % _n, lambda s, o, _f=_f: Scalar(_f(s.e, o.e if isinstance(o, Scalar) else o))
            if isinstance(o, (Scalar, int, float)) else NotImplemented)
    setattr(Scalar, "__r%s__" % _n, lambda s, o, _f=_f: Scalar(_f(o, s.e)) if isinstance(o, (int, float)) else NotImplemented)


def update(ctx, n=2, sign="+"):
    """cholupdate(R, x, sign): the upper factor of R'R + x x' or of R'R - x x'."""
    import numpy as np
    from yaocptool.estimation import UnscentedKalmanFilter
    r, v = ctx.arg("r", n * n), ctx.arg("v", n)
    small = 0.05
    R, x = np.empty((n, n), dtype=object), np.empty(n, dtype=object)
    for i in range(n):
        x[i] = SX(v[i]) * (small if sign == "-" else 1)
        for j in range(n):
            R[i, j] = SX(r[i * n + j]) if j > i else (1 + SX(r[i * n + j]) ** 2 if i == j else SX(0))
    at = lambda i, j: sum((R[k, i] * R[k, j] for k in range(n)), SX(0)) + (x[i] * x[j] if sign == "+" else -x[i] * x[j])  # noqa: E731
    want = [at(i, j) for i in range(n) for j in range(n)]
    if ctx.mode == "num":
        num = lambda e: float(ca.evalf(e))  # noqa: E731
        got = UnscentedKalmanFilter.cholupdate(np.array([[num(e) for e in w] for w in R]), np.array([num(e) for e in x]), sign)
        G = [[SX(float(got[i, j])) for j in range(n)] for i in range(n)]
    else:
        W = np.empty((n, n), dtype=object)
        y = np.empty(n, dtype=object)
        for i in range(n):
            y[i] = Scalar(x[i])
            for j in range(n):
                W[i, j] = Scalar(R[i, j])
        got = UnscentedKalmanFilter.cholupdate(W, y, sign)
        G = [[got[i, j].e for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if j < i:
                ctx.equal("triangular %d %d" % (i, j), G[i][j], SX(0))
            else:
                ctx.equal("factor %d %d" % (i, j), sum((G[k][i] * G[k][j] for k in range(n)), SX(0)), want[i * n + j])


def scenarios(tier):
    E = [
        ("states", dict(nx=2)),
        ("one state", dict(nx=1, meas=2)),
        ("two measurements", dict(nx=2, meas=2, nonlinear=False, noise="fixed")),
        ("parameters", dict(nx=1, nu=2, np=1, nth=1)),
        ("algebraic", dict(nx=1, ny=1, nu=1, np=1, nth=1)),
        ("two states and algebraic", dict(nx=2, ny=1, nonlinear=False)),
        ("algebraics", dict(nx=1, ny=2, nonlinear=False)),
        ("feed-through", dict(nx=2, how="both", nu=2)),
        ("function", dict(nx=2, how="function")),
        ("function of algebraics", dict(nx=1, ny=1, how="function", nu=2)),
        ("two steps", dict(nx=1, steps=2, noise="fixed")),
        ("two steps with algebraic", dict(nx=1, ny=1, steps=2, noise="fixed", nonlinear=False)),
        ("two steps of two states", dict(nx=2, steps=2, noise="fixed", nonlinear=False)),
        ("two steps with parameters", dict(nx=1, ny=1, np=1, nth=1, steps=2, noise="fixed", how="both", nonlinear=False)),
    ]
    U = [
        ("states", dict(nx=2)),
        ("one state", dict(nx=1, meas=2)),
        ("two measurements", dict(nx=2, meas=2, nonlinear=False, noise="fixed", start="fixed")),
        ("parameters", dict(nx=1, nu=2, np=1, nth=1)),
        ("algebraic", dict(nx=1, ny=1, nu=1, np=1, nth=1)),
        ("two states and algebraic", dict(nx=2, ny=1)),
        ("algebraics", dict(nx=1, ny=2)),
        ("feed-through", dict(nx=2, how="both", nu=2)),
        ("function", dict(nx=1, how="function")),
        ("function of algebraics", dict(nx=1, ny=1, how="function", nu=2)),
        ("two steps", dict(nx=1, steps=2, noise="fixed")),
        ("two steps with algebraic", dict(nx=1, ny=1, steps=2, noise="fixed", nonlinear=False)),
        ("two steps with parameters", dict(nx=1, np=1, nth=1, steps=2, noise="fixed", how="both")),
    ]
    P = [
        ("order 1", dict(nx=2, order=1)),
        ("order 2", dict(nx=1, order=2, np=1)),
        ("two states", dict(nx=2, order=2)),
        ("order 3", dict(nx=1, order=3, nu=2)),
        ("more samples", dict(nx=1, order=2, extra=2)),
        ("algebraic", dict(nx=1, ny=1, order=2, meas=2)),
        ("feed-through", dict(nx=1, order=2, how="both")),
        ("function", dict(nx=1, ny=1, order=2, how="function")),
    ]
    if tier == "thorough":
        E += [
            ("two nonlinear steps", dict(nx=1, ny=1, np=1, nth=1, steps=2, noise="fixed", how="both")),
            ("three steps", dict(nx=1, steps=3, noise="fixed", nonlinear=False)),
            ("three states", dict(nx=3, meas=1, noise="fixed")),
            ("two of everything", dict(nx=2, ny=2, nu=2, np=1, nth=1, nonlinear=False)),
        ]
        U += [
            ("three states", dict(nx=3, noise="fixed")),
            ("two nonlinear measurements", dict(nx=2, meas=2, noise="fixed")),
            ("two of everything", dict(nx=2, ny=2, nu=2, np=1, nth=1, how="both")),
        ]
        P += [
            ("order 4", dict(nx=1, order=4, np=1, nth=1)),
            ("order 5", dict(nx=1, order=5, meas=1)),
            ("two states more samples", dict(nx=2, order=2, extra=3)), ("two states order 3", dict(nx=2, order=3, meas=1)),
        ]
    return [Scenario("ekf " + n, ekf, **k) for n, k in E] + [Scenario("ukf " + n, ukf, **k) for n, k in U] + \
        [Scenario("pce " + n, pce, **k) for n, k in P] + \
        [Scenario("factor update %d %s" % (n, g), update, n=n, sign=g) for n in (1, 2, 3) for g in "+-"]
