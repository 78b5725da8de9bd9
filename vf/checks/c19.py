"""C19: the polynomial chaos conversion of a stochastic problem."""
import casadi as ca

from .. import hooks, linalg
from .. import ocplib as L
from ..core import NeedNumbers
from ..modlib import els, vcat
from ..run import Scenario
from .c17 import quiet
from .c18 import cov, design, hermite, val

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "StochasticOCP and PCEConverter run on arbitrary (uninterpreted) dynamics, costs and constraints with symbolic means, "
    "covariances and initial states. z3 decides, for all values and functions, that the deterministic problem produced is the "
    "one the polynomial chaos expansion defines: one copy of the equations per sample of the uncertain parameters and initial "
    "conditions at mean + L eps (covariance L L', eps the normal design at which the Hermite polynomials are fitted), shared "
    "controls and certain parameters, the accumulated cost of each sample, the mean of its expansion as objective, the "
    "original bounds and constraints, and for each chance constraint mean + sqrt(prob/(1-prob)) deviation <= right-hand side "
    "at the end of every element, with mean and variance of the expansion of the constrained expression.")
BOUNDS = "1..2 states, 0..1 algebraics, 1..2 uncertain parameters, 0..2 uncertain initial conditions, chaos order 1..3 (4)"
ASSUMPTIONS = ["chol returns the upper triangular factor and covariances have one",
               "expectations of squared polynomials are a Monte Carlo mean: they are compared within 6 standard deviations"]


def solve_rows(rows, unknowns):
    """Values of the unknowns defined by rows = 0, each row giving one of them."""
    rows, todo, out = list(rows), list(unknowns), {}
    while rows:
        for i, e in enumerate(rows):
            dep = [k for k, v in enumerate(todo) if v is not None and ca.depends_on(e, v)]
            if len(dep) == 1:
                v = todo[dep[0]]
                c = ca.jacobian(e, v)
                if c.is_constant() and abs(abs(float(c)) - 1) < 1e-12:
                    w = v - e / float(c)
                    w = ca.substitute(w, v, SX(0))
                    out[dep[0]], todo[dep[0]] = w, None
                    rows = [ca.substitute(q, v, w) for k, q in enumerate(rows) if k != i]
                    break
        else:
            break
    return out, rows


def moment4(idx):
    """E[psi^2], E[psi^4] of a product of Hermite polynomials (Gauss-Hermite)."""
    import numpy as np
    x, w = np.polynomial.hermite_e.hermegauss(40)
    w = w / w.sum()
    a = b = 1.0
    for k in idx:
        h = np.array([float(hermite(k, q)) for q in x])
        a, b = a * (w * h ** 2).sum(), b * (w * h ** 4).sum()
    return a, b


def basis(ctx, n=1, order=2, extra=0):
    """The projector reproduces every polynomial of the basis, the weights are its norms."""
    from math import comb, sqrt

    import numpy as np
    from yaocptool.stochastic.pce import get_ls_factor
    N = comb(n + order, order)
    np.random.seed(7)
    ls, w, psi = get_ls_factor(n, N + extra, order)
    e, idx, _ = design(n, order, N + extra)
    ok = DM(ls).shape == (N, N + extra) and DM(w).numel() == N
    ctx.require("sizes", ok, "projector %s weights %s" % (DM(ls).shape, DM(w).shape))
    if not ok:
        return
    z = SX.sym("z", n)
    ref = vcat([SX(1) * np.prod([hermite(k, z[j]) for j, k in enumerate(q)]) for q in idx])
    ctx.equal("polynomials", psi(z), ref)
    c = ctx.sym("c", N)
    values = vcat([ca.dot(c, ca.substitute(ref, z, SX(DM(e[s])))) for s in range(N + extra)])
    # least squares in floating point: the room grows with the conditioning of the normal equations
    M = np.array([[float(np.prod([hermite(k, e[s][j]) for j, k in enumerate(q)])) for q in idx] for s in range(N + extra)])
    room = 4e3 * np.finfo(float).eps * np.linalg.cond(M.T @ M)
    if room < 0.1:      # beyond that (order 10) any least squares routine loses the coefficients: only the polynomials are claimed
        ctx.equal("expansions are recovered", ca.mtimes(SX(ls), values), c, eps=max(1e-4, room))
    for i, q in enumerate(idx):
        m2, m4 = moment4(q)
        tol = 6 * sqrt(max(m4 - m2 * m2, 0) / 1e5) + 1e-9
        ctx.implies("norm %d" % i, [], [(SX(w[i]), SX(m2), -tol, tol)], twin=False)


def factor(ctx, P):
    P = SX(P)
    if ctx.mode == "num" and P.is_constant():
        return SX(ca.chol(DM(P))).T
    return SX(linalg.chol(P)).T


class Prob:
    """A stochastic problem and its own account of it."""

    def __init__(self, ctx, nx=2, ny=0, nu=1, np=1, nth=0, unc=1, ic=0, reverse=False, means="number", separate=False,
                 popt=0, thopt=0, chance=(), stat=(), path=False, t0=0.5, extra_initial=False, algcost=False, via="set"):
        from yaocptool.modelling import StochasticOCP, SystemModel
        m = SystemModel(name="m")
        new = lambda f, n, k: els(f(n, k)) if k else []  # noqa: E731
        self.x, self.y = new(m.create_state, "x", nx), new(m.create_algebraic_variable, "y", ny)
        self.u = new(m.create_control, "u", nu)
        # the uncertain parameters belong to the model, are added to the problem, or are created by it
        self.w = {"set": lambda: new(m.create_parameter, "w", unc), "include": lambda: els(SX.sym("w", unc)), "create": lambda: []}[via]()
        self.p, self.th = new(m.create_parameter, "p", np), new(m.create_theta, "th", nth)
        if via == "create":
            s = self.s = StochasticOCP(m, t_0=t0, t_f=4.0)
            mu0, S0 = val(ctx, "mu0", unc), cov(ctx, "S0", unc)
            self.w = els(s.create_uncertain_parameter("w", mu0, S0, size=unc))
        args = [m.t, *self.x, *self.y, *self.u, *self.w, *self.p, *self.th]
        f = lambda k: ctx.uf(k, *args)  # noqa: E731
        self.ode, self.alg, self.cost = [f(1 + i) for i in range(nx)], [f(21 + i) for i in range(ny)], f(41)
        if via != "create":
            m.include_equations(ode=self.ode, alg=self.alg) if ny else m.include_equations(ode=self.ode)
            s = self.s = StochasticOCP(m, t_0=t0, t_f=4.0)
        elif ny:
            s.include_system_equations(ode=vcat(self.ode), alg=vcat(self.alg))
        else:
            s.include_system_equations(ode=vcat(self.ode))
        self.t, self.m = m.t, m
        self.x0v = val(ctx, "x0", nx)
        s.x_0 = self.x0v
        s.L = self.cost
        b = lambda k, n, v: DM([v + 0.5 * i + 0.1 * k for i in range(n)])  # noqa: E731
        s.x_max, s.x_min = b(1, nx, 7), b(2, nx, -8)
        s.u_max, s.u_min = b(3, nu, 3), b(4, nu, -4)
        s.delta_u_max, s.delta_u_min = b(5, nu, 2), b(6, nu, -2)
        s.u_guess = DM([0.3] * nu)
        s.last_u = DM([0.2] * nu)
        if ny:
            s.y_max, s.y_min, s.y_guess = b(7, ny, 9), b(8, ny, -9), DM([0.4] * ny)
        self.popt = els(s.create_optimization_parameter("q", popt, p_opt_min=b(9, popt, -5), p_opt_max=b(10, popt, 5))) if popt else []
        self.thopt = els(s.create_optimization_theta("r", thopt, new_theta_opt_min=b(11, thopt, -6), new_theta_opt_max=b(12, thopt, 6))) if thopt else []
        self.given = self.p + self.popt
        # uncertainty
        self.unc = list(reversed(self.w)) if reverse else list(self.w)
        self.icx = list(reversed(range(nx)))[:ic] if reverse else list(range(nx))[nx - ic:]
        groups = [self.unc] if not separate else [[q] for q in self.unc]
        self.mean, blocks = [], []
        for g, vs in enumerate(groups):
            if via == "create":
                mu, S = mu0, S0
                self.mean += els(mu)
                blocks.append(S)
                break
            mu = vcat(self.p[:len(vs)]) if means == "parameter" else val(ctx, "mu%d" % g, len(vs))
            S = cov(ctx, "S%d" % g, len(vs))
            (s.include_uncertain_parameter if via == "include" else s.set_parameter_as_uncertain_parameter)(vcat(vs), mu, S)
            self.mean += els(mu)
            blocks.append(S)
        x0s = els(s.model.x_0)
        groups = ([self.icx] if not separate else [[q] for q in self.icx]) if ic else []
        for g, vs in enumerate(groups):
            mu, S = val(ctx, "nu%d" % g, len(vs)), cov(ctx, "T%d" % g, len(vs))
            s.set_initial_condition_as_uncertain(vcat([x0s[i] for i in vs]), mu, S)
            self.mean += els(mu)
            blocks.append(S)
        self.cov = ca.diagcat(*[SX(q) for q in blocks]) if len(blocks) > 1 else SX(blocks[0])
        # constraints that do not see the states
        pa = [m.t, *self.u, *self.given, *self.th, *self.thopt]
        self.geq = self.gin = self.hfin = self.hini = None
        if path:
            self.geq, self.gin = ctx.uf(61, *pa), ctx.uf(62, *pa)
            s.include_time_equality(self.geq, when="end")
            s.include_time_inequality(self.gin, when="start")
            self.hfin = ctx.uf(63, *self.given)
            s.include_final_time_equality(self.hfin)
        if extra_initial:
            self.hini = ctx.uf(64, *self.given)
            s.include_initial_time_equality(self.hini)
        # chance constraints and statistics
        cargs = args + self.popt + self.thopt
        self.chance = []
        for i, (rhs, prob) in enumerate(chance):
            e = ctx.uf(71 + i, *cargs)
            self.chance.append((e, rhs, prob))
        if len(chance) == 2:
            s.include_time_chance_inequality([q[0] for q in self.chance], rhs=[q[1] for q in self.chance], prob=[q[2] for q in self.chance])
        else:
            for e, rhs, prob in self.chance:
                s.include_time_chance_inequality(e, rhs=rhs, prob=prob) if rhs is not None else s.include_time_chance_inequality(e, prob=prob)
        self.stat = [self.x[0] if q == "x" else ctx.uf(81 + i, *cargs) for i, q in enumerate(stat)]

    def samples(self, ctx, order, n):
        import numpy as np
        e, idx, fit = design(len(self.mean), order, n)
        psi = np.array([[np.prod([hermite(k, e[s, j]) for j, k in enumerate(q)]) for q in idx] for s in range(n)])
        Lw = factor(ctx, self.cov)
        return [vcat(self.mean) + ca.mtimes(Lw, SX(DM(e[k]))) for k in range(n)], fit, idx, psi


def vec_is(a, b):
    a, b = DM(a), DM(b)
    return a.numel() == b.numel() and all(float(a[i]) == float(b[i]) for i in range(b.numel()))


PARTS = ("h", "h_initial", "h_final", "g_eq", "g_ineq", "time_g_eq", "time_g_ineq", "p_opt", "theta_opt", "x_0", "u_guess",
         "y_guess", "x_max", "x_min", "y_max", "y_min", "u_max", "u_min", "delta_u_max", "delta_u_min", "p_opt_max", "p_opt_min",
         "theta_opt_max", "theta_opt_min", "last_u", "L", "V", "S", "parametrized_control")


def parts(pr):
    """What a problem and its model consist of, as values nothing else refers to."""
    d = {k: getattr(pr, k) for k in PARTS}
    d.update({"model." + k: getattr(pr.model, k) for k in ("x", "y", "u", "p", "theta", "ode", "alg", "u_expr", "x_0")})
    return {k: list(v) if isinstance(v, list) else v + 0 if isinstance(v, (SX, DM)) else v for k, v in d.items()}


def same_parts(ctx, name, a, b):
    for k, v in b.items():
        w = a[k]
        if isinstance(v, (SX, DM)):
            ok = isinstance(w, (SX, DM)) and w.shape == v.shape and (v.numel() == 0 or ca.is_equal(SX(w), SX(v), 30))
        else:
            ok = w == v
        ctx.require("%s keeps its %s" % (name, k), ok, "%s is %s instead of %s" % (k, w, v))


def convert(ctx, order=1, extra=0, again=False, **cfg):
    from math import comb, sqrt

    import numpy as np
    from yaocptool.stochastic.pce import PCEConverter
    with quiet(), hooks.active(**hooks.exact_linalg(ctx)):
        c = Prob(ctx, **cfg)
        nv = len(c.mean)
        N = comb(nv + order, order)
        n = N + extra
        np.random.seed(7)
        conv = PCEConverter(c.s, pc_order=order, **({"n_samples": n} if extra else {}))
        conv.stochastic_variables = list(c.stat)
        before = parts(c.s)
        if again:
            first = conv.convert_socp_to_ocp_with_pce()
            kept = parts(first)
            np.random.seed(7)
        prob = conv.convert_socp_to_ocp_with_pce()
        same_parts(ctx, "the stochastic problem", parts(c.s), before)
        if again:
            same_parts(ctx, "the first conversion", parts(first), kept)
    smp, fit, idx, psi = c.samples(ctx, order, n)
    fit = SX(DM(fit))
    m = prob.model
    nx, ny = len(c.x), len(c.y)
    X, Y, X0 = els(m.x), els(m.y), els(m.x_0)
    sizes = (len(X), len(Y), m.n_u) == (n * (nx + 1), n * ny, len(c.u))
    ctx.require("sizes", sizes, "states %d algebraics %d controls %d for %d samples" % (len(X), len(Y), m.n_u, n))
    ctx.require("sampled count", SX(conv.sampled_parameters).shape == (nv, n), "samples %s" % (SX(conv.sampled_parameters).shape,))
    if not sizes:
        return
    ctx.equal("samples", ca.vec(SX(conv.sampled_parameters)), vcat(smp))

    U, P, TH = els(m.u), els(m.p), els(m.theta)
    names = [q.name() for q in P]
    ctx.require("parameters", names[:len(c.given)] == [q.name() for q in c.given], "parameters %s" % names)
    tnames = [q.name() for q in TH]
    ctx.require("thetas", tnames[:len(c.th) + len(c.thopt)] == [q.name() for q in c.th + c.thopt], "thetas %s" % tnames)

    def at(e, s):
        xs, ys = X[s * (nx + 1):s * (nx + 1) + nx], Y[s * ny:(s + 1) * ny]
        old = c.x + c.y + c.u + c.w + c.given + c.th + c.thopt + [c.t]
        w = [smp[s][[i for i, q in enumerate(c.unc) if ca.is_equal(q, v)][0]] for v in c.w]
        w = [ca.substitute(q, vcat(c.given), vcat(P[:len(c.given)])) if c.given else q for q in w]
        new = xs + ys + U + w + P[:len(c.given)] + TH[:len(c.th) + len(c.thopt)] + [m.t]
        return ca.substitute(SX(e), vcat(old), vcat(new))

    ode, alg = els(m.ode), els(m.alg)
    ok = len(ode) == n * (nx + 1) and len(alg) == n * ny
    ctx.require("equations", ok, "%d differential and %d algebraic equations" % (len(ode), len(alg)))
    if not ok:
        return
    ctx.equal("dynamics of every sample", m.ode, vcat([at(e, s) for s in range(n) for e in c.ode + [c.cost]]))
    if ny:
        ctx.equal("algebraic equations of every sample", m.alg, vcat([at(e, s) for s in range(n) for e in c.alg]))
    # bounds and times
    s = c.s
    inf = DM.inf()
    for k, v in dict(x_max=ca.repmat(ca.vertcat(s.x_max, inf), n), x_min=ca.repmat(ca.vertcat(s.x_min, -inf), n),
                     y_max=ca.repmat(s.y_max, n) if ny else DM(0, 1), y_min=ca.repmat(s.y_min, n) if ny else DM(0, 1),
                     u_max=s.u_max, u_min=s.u_min, delta_u_max=s.delta_u_max, delta_u_min=s.delta_u_min,
                     u_guess=s.u_guess, last_u=s.last_u, t_0=s.t_0, t_f=s.t_f).items():
        ctx.require("bound " + k, vec_is(getattr(prob, k), v), "%s is %s instead of %s" % (k, getattr(prob, k), v))
    if ny:
        ctx.require("bound y_guess", vec_is(prob.y_guess, ca.repmat(s.y_guess, n)), "guess %s" % prob.y_guess)
    # initial conditions
    hyps = []
    x0 = SX(prob.x_0)
    ctx.require("x_0 size", x0.numel() == n * (nx + 1), "x_0 has %d entries" % x0.numel())
    if x0.numel() != n * (nx + 1):
        return
    ini = ca.substitute(SX(prob.h_initial), m.x_0, x0)
    want = []
    for k in range(n):
        for i in range(nx):
            v = smp[k][len(c.unc) + c.icx.index(i)] if i in c.icx else c.x0v[i]
            want.append((X[k * (nx + 1) + i] - v, 0, 0))
        want.append((X[k * (nx + 1) + nx], 0, 0))
    if c.hini is not None:
        want.append((at(c.hini, 0), 0, 0))
    ctx.same_set("initial conditions", [(e, 0, 0) for e in els(ini)], want)
    # objective
    for k in ("L", "S"):
        ctx.equal("no other cost " + k, SX(getattr(prob, k)), SX(0))
    costs = vcat([X[k * (nx + 1) + nx] for k in range(n)])
    fin = els(prob.h_final)
    own = [e for e in P[len(c.given):]]
    vals, rest = solve_rows(fin, own)
    coef = ca.mtimes(fit, costs)
    sub = lambda e: ca.substitute(SX(e), vcat([own[k] for k in vals]), vcat([vals[k] for k in vals])) if vals else SX(e)  # noqa: E731
    ctx.equal("objective", sub(prob.V), coef[0])
    ctx.require("final conditions", len(rest) == (1 if c.hfin is not None else 0), "%d final conditions besides the statistics" % len(rest))
    if c.hfin is not None and len(rest) == 1:
        ctx.equal("final condition", rest[0], at(c.hfin, 0))
    ctx.require("all statistics defined", len(vals) == len(own), "free optimisation parameters %s" % [q.name() for k, q in enumerate(own) if k not in vals])
    byname = {own[k].name(): vals[k] for k in vals}
    ctx.require("variance of the cost", "cost_var" in byname, "no cost_var among %s" % list(byname))
    if "cost_var" not in byname:
        return
    # the norms in use: the variance of each polynomial, compared with its exact norm
    g = ca.Function("v", [costs], [byname["cost_var"]], {"allow_free": True})
    if g.get_free():
        ctx.require("variance of the cost", False, "depends on %s" % g.get_free())
        return
    weights = [0.0]
    for i, q in enumerate(idx):
        if i:
            weights.append(float(g(DM(psi[:, i]))))
            m2, m4 = moment4(q)
            tol = 6 * sqrt((m4 - m2 * m2) / 1e5)
            ctx.implies("norm %d" % i, [], [(SX(weights[i]), SX(m2), -tol, tol)], twin=False)
    var = lambda q: sum((q[i] ** 2 * weights[i] for i in range(1, N)), SX(0))  # noqa: E731
    for nm, v in (("cost_mean", coef[0]), ("cost_var", var(coef))):
        if nm in byname:
            ctx.equal(nm, byname[nm], v)
    popt = els(prob.p_opt)
    ctx.require("optimisation parameters", [q.name() for q in popt] == [q.name() for q in c.popt] + [q.name() for q in own]
                and SX(prob.p_opt_max).numel() == len(popt) == SX(prob.p_opt_min).numel(), "p_opt %s" % popt)
    k = len(c.popt)
    ctx.require("bounds of optimisation parameters", vec_is(prob.p_opt_max[:k], s.p_opt_max) and vec_is(prob.p_opt_min[:k], s.p_opt_min)
                and vec_is(prob.p_opt_max[k:], DM.inf(len(own))) and vec_is(prob.p_opt_min[k:], -DM.inf(len(own))),
                "bounds %s %s" % (prob.p_opt_min, prob.p_opt_max))
    # constraints along the horizon
    own = TH[len(c.th) + len(c.thopt):]
    eqs = els(prob.g_eq)
    ctx.require("constraint times", len(prob.time_g_eq) == len(eqs) and len(prob.time_g_ineq) == prob.n_g_ineq,
                "%d times for %d equalities" % (len(prob.time_g_eq), len(eqs)))
    ctx.require("statistics at the end of elements", all(q == "end" for q in prob.time_g_eq), "times %s" % prob.time_g_eq)
    ctx.require("path constraint times", list(prob.time_g_ineq) == (["start"] if c.gin is not None else []), "times %s" % prob.time_g_ineq)
    vals, rest = solve_rows(eqs, own)
    ctx.require("path equalities", len(rest) == (1 if c.geq is not None else 0), "%d path equalities" % len(rest))
    if c.geq is not None and len(rest) == 1:
        ctx.equal("path equality", rest[0], at(c.geq, 0))
    ctx.require("path inequalities", prob.n_g_ineq == (1 if c.gin is not None else 0), "%d path inequalities" % prob.n_g_ineq)
    if c.gin is not None and prob.n_g_ineq == 1:
        ctx.equal("path inequality", prob.g_ineq, at(c.gin, 0))
    ctx.require("statistics of expressions defined", len(vals) == len(own), "free optimisation thetas")
    thopt = els(prob.theta_opt)
    ok = [q.name() for q in thopt] == [q.name() for q in c.thopt + own] and SX(prob.theta_opt_max).numel() == len(thopt) == SX(prob.theta_opt_min).numel()
    ctx.require("optimisation thetas", ok, "theta_opt %s" % thopt)
    if not ok or len(vals) != len(own):
        return
    k = len(c.thopt)
    ctx.require("bounds of optimisation thetas", vec_is(prob.theta_opt_max[:k], s.theta_opt_max) and
                vec_is(prob.theta_opt_min[:k], s.theta_opt_min), "bounds %s" % prob.theta_opt_max)
    got, lim = [], []
    for i, q in enumerate(own):
        a, b = float(prob.theta_opt_min[k + i]), float(prob.theta_opt_max[k + i])
        if a == -float("inf") and b == float("inf"):
            continue
        ctx.require("one-sided", a == -float("inf"), "lower bound %s" % a)
        got.append(vals[i] - b)
    want = []
    for e, rhs, pr in c.chance:
        rhs = 0.0 if rhs is None else rhs
        q = ca.mtimes(fit, vcat([at(e, k) for k in range(n)]))
        want.append(q[0] + sqrt(pr / (1 - pr)) * ca.sqrt(ca.fmax(1e-6, var(q))) - rhs)
    ctx.require("chance constraints", len(got) == len(want), "%d limits for %d chance constraints" % (len(got), len(want)))
    if len(got) == len(want) and want:
        ctx.equal("chance constraints", vcat(got), vcat(want))
    for i, e in enumerate(c.stat):
        nm = e.name() if SX(e).is_symbolic() else "stoch_var_%d" % i
        byname = {own[j].name(): vals[j] for j in vals}
        q = ca.mtimes(fit, vcat([at(e, k) for k in range(n)]))
        for suffix, v in (("_mean", q[0]), ("_var", var(q))):
            if nm + suffix in byname:
                ctx.equal("statistic %d%s" % (i, suffix), byname[nm + suffix], v)
            else:
                ctx.require("statistic %d%s" % (i, suffix), False, "no variable %s" % (nm + suffix))


def sampling(ctx, n=2, samples=5, log=False, aslist=False):
    """Sobol samples are mean + L eps (exp of that for the log-normal one)."""
    import numpy as np
    from yaocptool.stochastic import (sample_parameter_log_normal_distribution_with_sobol as lg,
                                      sample_parameter_normal_distribution_with_sobol as nr)
    if not ctx.semi and ctx.mode != "num":
        raise NeedNumbers("samples are numbers")
    from math import ceil, log2

    import sobol_seq
    from scipy.stats import norm
    mu = DM(val(ctx, "mu", n))
    if log:
        mu = ca.fabs(mu) + 0.4
    S = DM(cov(ctx, "S", n))
    got = (lg if log else nr)([float(mu[i]) for i in range(n)] if aslist else mu, S, samples)
    e = norm.ppf(sobol_seq.i4_sobol_generate(n, samples, ceil(log2(samples))))
    Lw = np.linalg.cholesky(S.full())
    want = DM(np.array([(np.log(mu.full()[:, 0]) if log else mu.full()[:, 0]) + Lw @ e[k] for k in range(samples)]).T)
    ctx.equal("samples", SX(got), SX(ca.exp(want) if log else want))


def refused(ctx):
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter
    m = SystemModel(name="m")
    x, u, p = m.create_state("x", 2), m.create_control("u"), m.create_parameter("p", 2)
    m.include_equations(ode=ca.vertcat(x[1] * p[0], u))

    def raises(name, f, kinds=(ValueError, NotImplementedError)):
        try:
            f()
        except kinds:
            ctx.require(name, True, "")
            return
        ctx.require(name, False, "accepted")
    s = lambda: StochasticOCP(m, x_0=DM([1, 1]))  # noqa: E731
    raises("mean of the wrong size", lambda: s().set_parameter_as_uncertain_parameter(p, DM([1]), DM.eye(2)))
    raises("covariance of the wrong size", lambda: s().set_parameter_as_uncertain_parameter(p, DM([1, 2]), DM([1])))
    raises("initial mean of the wrong size", lambda: s().set_initial_condition_as_uncertain(s().model.x_0, DM([1]), DM.eye(2)))
    raises("initial covariance of the wrong size", lambda: s().set_initial_condition_as_uncertain(s().model.x_0, DM([1, 1]), DM([1])))
    raises("right-hand side of the wrong size", lambda: s().include_time_chance_inequality(x, prob=[0.9, 0.9], rhs=[1]))
    raises("probability of the wrong size", lambda: s().include_time_chance_inequality(x, prob=[0.9], rhs=[1, 2]))
    raises("no uncertainty", lambda: PCEConverter(s(), pc_order=1).convert_socp_to_ocp_with_pce())

    def dist(kind):
        q = s()
        q.set_parameter_as_uncertain_parameter(p[0], DM([1]), DM([1]), distribution=kind)
        PCEConverter(q, pc_order=1).convert_socp_to_ocp_with_pce()
    def dependent(where, e):
        q = s()
        q.set_parameter_as_uncertain_parameter(p[0], DM([1]), DM([1]))
        getattr(q, where)(e(q.model))
        PCEConverter(q, pc_order=1).convert_socp_to_ocp_with_pce()
    for w in ("include_time_equality", "include_time_inequality"):
        raises(w + " on uncertain states", lambda: dependent(w, lambda m_: m_.x[0] - 1))
    raises("unknown distribution", lambda: dist("uniform"))


def scenarios(tier):
    C = [
        ("one parameter", dict()),
        ("certain parameters and thetas", dict(np=2, nth=1, nu=2)),
        ("algebraic", dict(nx=1, ny=1, unc=1, chance=((1.5, 0.9),))),
        ("two parameters", dict(nx=1, unc=2)),
        ("two parameters declared in reverse", dict(nx=1, unc=2, reverse=True, chance=((None, 0.8),))),
        ("two independent parameters", dict(nx=1, unc=2, separate=True)),
        ("mean is a parameter", dict(nx=1, np=2, means="parameter", chance=((0.5, 0.95),))),
        ("uncertain initial condition", dict(unc=0, ic=1)),
        ("uncertain initial conditions", dict(unc=0, ic=2, reverse=True)),
        ("parameter and initial condition", dict(unc=1, ic=1, chance=((0.7, 0.75),), stat=("x",))),
        ("parameters and initial conditions", dict(unc=2, ic=2, separate=True)),
        ("chance constraints", dict(nx=1, chance=((1.5, 0.9), (0.25, 0.6)), stat=("f",))),
        ("statistics", dict(nx=2, ny=1, stat=("x", "f"), order=2)),
        ("optimisation variables", dict(nx=1, popt=2, thopt=1, nth=1, path=True, chance=((1.0, 0.9),))),
        ("path constraints", dict(nx=1, np=1, path=True, extra_initial=True)),
        ("again", dict(nx=2, again=True, chance=((0.5, 0.9),))),
        ("second order", dict(nx=1, order=2, chance=((0.5, 0.9),))),
        ("second order in two", dict(nx=1, unc=1, ic=1, order=2)),
        ("third order", dict(nx=1, order=3, chance=((0.5, 0.9),))),
        ("only uncertain parameters", dict(nx=1, np=0, unc=2, chance=((0.5, 0.9),))),
        ("no parameters", dict(np=0, unc=0, ic=1, chance=((0.5, 0.9),))),
        ("no controls", dict(nx=1, nu=0, np=0)),
        ("included parameters", dict(nx=1, unc=2, np=2, via="include", separate=True, chance=((0.5, 0.9),))),
        ("created parameters", dict(nx=1, ny=1, unc=2, np=1, via="create")),
        ("created parameter", dict(nx=2, unc=1, np=0, ic=1, via="create", popt=1)),
        ("more samples", dict(nx=1, order=1, extra=2, chance=((0.5, 0.9),))),
    ]
    B = [(1, 10, 8), (1, 1, 0), (1, 3, 0), (1, 4, 3), (2, 2, 0), (2, 1, 4), (3, 1, 0)]
    if tier == "thorough":
        C += [
            ("second order in three", dict(nx=2, unc=2, ic=1, order=2, separate=True, chance=((0.5, 0.9),))),
            ("fourth order", dict(nx=1, ny=1, order=4, chance=((0.5, 0.9),))),
            ("everything", dict(nx=2, ny=1, nu=2, np=2, nth=2, unc=1, ic=1, popt=1, thopt=1, path=True, extra_initial=True,
                                chance=((0.5, 0.9), (0.1, 0.7)), stat=("x", "f"), order=2)),
        ]
        B += [(1, 5, 0), (1, 8, 4), (2, 4, 0), (3, 3, 0), (2, 3, 6)]
    S = [("normal", dict()), ("normal single", dict(n=1, samples=4)), ("normal list", dict(n=3, samples=9, aslist=True)),
         ("log-normal", dict(log=True)), ("log-normal list", dict(n=1, samples=6, log=True, aslist=True))]
    return [Scenario("convert " + n, convert, **k) for n, k in C] + \
        [Scenario("basis %d uncertain order %d extra %d" % b, basis, n=b[0], order=b[1], extra=b[2]) for b in B] + \
        [Scenario("sampling " + n, sampling, **k) for n, k in S] + [Scenario("refused", refused)]
