"""C14: the augmented Lagrangian solves the relaxed problem it documents."""
import casadi as ca

from .. import hooks
from ..concolic import explore
from ..core import Structural
from ..ocplib import Ocp, Traj, lagrange, radau, reference, transcribe, u_at
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "AugmentedLagrangian runs on problems with arbitrary dynamics, algebraic equations, path equalities and costs, with "
    "symbolic multipliers and penalties. z3 decides that the problem its inner solver receives is the original one "
    "with exactly the selected equations removed, their variables free within their own bounds, and the running cost "
    "increased by nu(t)'r + 1/2 r'diag(mu)r, nu being the polynomial through the given multipliers; that after a solve "
    "the next problem has the multipliers nu + mu*r (r evaluated on the returned trajectories at the interpolation "
    "times) and the penalties of the selected rule; and, forking on the outcome of the tolerance test, that iterations "
    "stop exactly when every violation is below the tolerance or the limit is reached.")
BOUNDS = "1..2 states, 1..3 algebraics, 1 control, relaxed sets of 1..3 equations, degree 1..3, 1..3 elements, up to 3 iterations"
ASSUMPTIONS = ["the inner numerical solver may return any point", "collocation and multiple shooting transcription are C01..C04"]


def mods():
    import yaocptool.methods.augmented_lagrangian as a
    import yaocptool.methods.base.solutionmethodsbase as b
    return [a, b]


class Relaxed:
    """What the relaxed problem is meant to be (interface of ocplib.Ocp)."""

    def __init__(self, o, d, alg_idx, var_idx, eq_idx, states=False):
        self.o = o
        rest_a = [i for i in range(o.ny) if i not in alg_idx]
        rest_y = [i for i in range(o.ny) if i not in var_idx]
        self.t0, self.tf = o.t0, o.tf
        self.x, self.nx, self.t, self.positive = o.x, o.nx, o.t, o.positive
        self.y, self.ny = o.y[rest_y], len(rest_y)
        us = [o.u] + [o.y[i] for i in var_idx]
        ub = [list(o.ub)] + [[o.yb[0][i], o.yb[1][i]] for i in var_idx]
        r = [o.alg[i] for i in alg_idx]
        self.unames = [o.u[i].name() for i in range(o.nu)] + [o.y[i].name() for i in var_idx]
        self.xb = o.xb
        if states:
            for i in range(o.nx):
                if float(o.xb[0][i]) != -ca.inf or float(o.xb[1][i]) != ca.inf:
                    s = SX.sym("slack%d" % i)
                    us.append(s)
                    ub.append([o.xb[0][i], o.xb[1][i]])
                    r.append(s - o.x[i])
                    self.unames.append("y_x_%d" % i)
            self.xb = (-DM.inf(o.nx), DM.inf(o.nx))
        r += [o.g_eq[i][0] for i in eq_idx]
        self.r = ca.vertcat(*r) if r else SX(0, 1)
        self.nr = self.r.numel()
        self.u = ca.vertcat(*us)
        self.nu = self.u.numel()
        self.ub = tuple(ca.vertcat(*[DM(b[i]) for b in ub]) for i in (0, 1))
        self.yb = (o.yb[0][rest_y], o.yb[1][rest_y]) if o.ny else o.yb
        self.mu = SX.sym("mu_ref", self.nr)
        self.nu_par = SX.sym("nu_ref", self.nr, d)
        self.tk, self.h_el = SX.sym("tk"), SX.sym("h_el")
        tau = (o.t - self.tk) / self.h_el
        L = lagrange(radau(d), tau)
        nut = sum((L[j] * self.nu_par[:, j] for j in range(d)), SX.zeros(self.nr))
        self.L = o.L + ca.dot(nut, self.r) + ca.dot(self.mu * self.r, self.r) / 2
        self.V, self.S = o.V, o.S
        self.p, self.th = ca.vertcat(o.p, self.mu), ca.vertcat(o.th, ca.vec(self.nu_par), self.tk, self.h_el)
        self.np, self.nth = self.p.numel(), self.th.numel()
        self.ode, self.alg = o.ode, o.alg[rest_a] if rest_a else SX(0, 1)
        self.syms = [self.t, self.x, self.y, self.u, self.p, self.th]
        self.h, self.hfinal, self.hinit = o.h, o.hfinal, o.hinit
        self.g_eq = [g for i, g in enumerate(o.g_eq) if i not in eq_idx]
        self.g_ineq = o.g_ineq
        self.delta, self.popt, self.thopt = None, [], []

    def fun(self, e):
        return ca.Function("ref", self.syms, [e])


def al_class(d, N, box, idx, **opts):
    """AugmentedLagrangian as a solution method of `transcribe`."""
    def make(problem, **kw):
        from yaocptool.methods import AugmentedLagrangian, DirectMethod
        o = dict(degree=d, finite_elements=N, max_iter=1)
        o.update(opts)
        al = AugmentedLagrangian(problem, DirectMethod, solver_options=dict(kw), options=o,
                                 **{k: v for k, v in idx.items() if v is not None})
        box["al"] = al
        return al
    return make


def build(ctx, d, N, alg=None, var=None, eq=None, states=False, **cfg):
    o = Ocp(ctx, **cfg)
    ai = list(range(o.ny)) if alg is None else list(alg)
    vi = list(ai) if var is None else list(var)
    ei = list(eq or [])
    R = Relaxed(o, d, ai, vi, ei, states)
    idx = dict(relax_algebraic_index=alg if alg is None else list(alg), relax_algebraic_var_index=var if var is None else list(var),
               relax_time_equality_index=list(eq) if eq else None, relax_state_bounds=states)
    return o, R, idx


def relaxed(ctx, d=2, N=2, dc=1, scheme="collocation", alg=None, var=None, eq=None, states=False, **cfg):
    """The problem solved for given multipliers and penalties."""
    o, R, idx = build(ctx, d, N, alg, var, eq, states, **cfg)
    box = {}
    nu = {k: ctx.arg("nu%d_" % k, R.nr * d) for k in range(N)}
    mu = ctx.arg("muv", R.nr)
    inner = al_class(d, N, box, dict(idx, nu=dict(nu)))

    def cls(problem, **kw):
        al = inner(problem, **kw)
        al.set_mu(mu)
        return al
    # the user's parameters come first
    given = {k: (getattr(o.problem, k), DM(getattr(o.problem, k)))
             for k in ("x_min", "x_max", "y_min", "y_max", "u_min", "u_max")}
    T = transcribe(ctx, o, method_cls=cls, d=d, N=N, dc=dc, scheme=scheme, guess=None)
    for k, (v, w) in given.items():     # other problems may use these vectors too
        ctx.require("the caller's %s is unchanged" % k, str(v) == str(w), "%s instead of %s" % (v, w))
    if len(T.solver.calls) != 1:
        raise Structural("one iteration made %d solver calls" % len(T.solver.calls))
    retarget(T, o, R, d, N, nu, mu)
    rows = reference(ctx, R, T)
    ctx.same_set("relaxed problem", T.nlp.rows(), rows)
    obj = ca.Function("V", [o.x, o.p], [o.V])(xend(T), T.P[:o.np])
    if T.extra:
        obj = obj + T.X[-1][-1][T.extra[0]]
    ctx.implies("objective", rows, [(T.nlp.f, obj, 0, 0)])


def xend(T):
    return T.X[-1][-1][T.ui]


def retarget(T, o, R, d, N, nu, mu):
    """Trajectories of the inner problem in the reference's order of variables."""
    un = list(T.res.u_names)
    miss = [n for n in R.unames if n not in un]
    if miss or len(un) != len(R.unames):
        raise Structural("controls %s instead of %s" % (un, R.unames))
    perm = [un.index(n) for n in R.unames]
    T.U = [[v[perm] for v in el] for el in T.U]
    T.P = ca.vertcat(T.p, SX(mu))
    h = T.h
    T.TH = {k: ca.vertcat(T.theta[k], SX(nu[k]), SX(o.t0 + k * h), SX(h)) for k in range(N)}


def residual(R, T, d, k, j):
    """r at interpolation time j of element k (0-based), on trajectory T (collocation)."""
    taus = radau(d)
    return R.fun(R.r)(R.t0 + (k + taus[j]) * T.h, T.X[k][j + 1][T.ui], T.Y[k][j] if R.ny else SX(0, 1),
                      u_at(T, k, taus[j]), T.P, T.TH[k])


def iterate(ctx, rule="bounded-increase", d=2, N=2, iters=2, tol=0.6, alg=None, var=None, eq=None, theta=True, improve=False, **cfg):
    """Multiplier and penalty updates, reported violations, and when iterations stop."""
    beta, mumax, dec = 3.0, 7.0, 0.5

    def fn(vals):
        o, R, idx = build(ctx, d, N, alg, var, eq, **cfg)
        from yaocptool.methods import AugmentedLagrangian, DirectMethod
        nu0 = {k: vals("nu%d" % k, R.nr * d) for k in range(N)}
        mu0 = vals("mu0", R.nr)
        kw = {k: v for k, v in idx.items() if v is not None}
        opts = dict(degree=d, finite_elements=N, max_iter=iters, tol=tol, mu_update_rule=rule, beta=beta, mu_max=mumax,
                    mu_min_error_decrease=dec, only_update_if_improve=improve)
        al = AugmentedLagrangian(o.problem, DirectMethod, no_update_after_solving=False,
                                 solver_options=dict(degree=d, finite_elements=N, degree_control=1, discretization_scheme="collocation"),
                                 options=opts, nu=dict(nu0), **kw)
        al.set_mu(mu0 if isinstance(mu0, SX) else DM(mu0))
        ws = []

        def wmaker(solver, n):
            ws.append(vals("w%d" % len(ws), n))
            return ws[-1]
        rec = hooks.NlpRecorder(wmaker)
        mu_in = SX(mu0)
        p, x0 = vals("pv", o.np), vals("x0v", o.nx + (0 if o_cost(o) else 0))
        th = {k: vals("thv%d" % k, o.nth) for k in range(N)} if o.nth and theta else None
        with hooks.active(nlpsol=rec, qpsol=rec):
            al.create_optimization_problem()
            names = [al.model.x[i].name() for i in range(al.model.n_x)]
            xn = [o.x[i].name() for i in range(o.nx)]
            full = ca.vertcat(*[x0[xn.index(n)] if n in xn else DM(0) for n in names])
            res = al.solve(p=p if o.np else None, theta=th, x_0=full)
        sv = rec.solvers[-1]
        calls = len(sv.calls)
        ctx.equal("the caller's penalty is unchanged", SX(mu0), mu_in)
        ctx.require("iterations", 1 <= calls <= iters, "%d solver calls" % calls)
        # trajectories of each call: the decoding of the result, applied to that call's point
        T = decode(o, R, al, res, d, N, ws)
        mu, nu, last = SX(mu0), {k: SX(nu0[k]) for k in range(N)}, None
        for c in range(calls):
            par = SX(sv.calls[c]["p"])
            ref = one_call(ctx, o, al, kw, d, N, p, th, full, nu, mu, cfg)
            ctx.equal("call %d receives its multipliers and penalties" % c, par, ref)
            t = T[c]
            t.P = ca.vertcat(SX(p), mu)
            t.TH = {k: ca.vertcat(SX(th[k]) if th else SX(0, 1), nu[k], SX(o.t0 + k * t.h), SX(t.h)) for k in range(N)}
            r = {(k, j): residual(R, t, d, k, j) for k in range(N) for j in range(d)}
            rmax = []
            for i in range(R.nr):
                m = SX(0)
                for q in r.values():
                    m = ca.fmax(m, ca.fabs(q[i]))
                rmax.append(m)
            below = [(m, SX(tol), None, 0.0) for m in rmax]
            if c < calls - 1:
                # it went on although ... : not all violations below the tolerance
                ctx.implies("going on after call %d" % c, [], [(_max(rmax), SX(tol), 0.0, None)], eps=2e-3, twin=False)
            elif calls < iters:
                ctx.implies("stopping after call %d" % c, [], below, eps=1e-6, twin=False)
            if c == calls - 1:
                report(ctx, al, res, R, r, nu, rmax, d, N, o, t, len(kw.get("relax_time_equality_index") or []))
            upd = [1] * R.nr
            for i in range(R.nr if improve and last is not None else 0):
                if rmax[i] <= last[i] - 1e-4:
                    pass
                elif rmax[i] >= last[i] + 1e-4:
                    upd[i] = 0
                else:
                    return      # too close to the threshold to distinguish from rounding
            nu = {k: ca.vertcat(*[nu[k][j * R.nr:(j + 1) * R.nr] + DM(upd) * mu * r[(k, j)] for j in range(d)]) for k in range(N)}
            if rule == "bounded-increase":
                mu = ca.fmin(mumax, mu * beta)
            elif rule == "primal" and last is not None:
                new = []
                for i in range(R.nr):
                    if rmax[i] <= dec * last[i] - 1e-4:
                        new.append(mu[i])
                    elif rmax[i] >= dec * last[i] + 1e-4:
                        new.append(ca.fmin(mumax, mu[i] * beta))
                    else:
                        return      # too close to the threshold to distinguish from rounding
                mu = ca.vertcat(*new)
            last = rmax
    explore(ctx, fn, mods(), max_paths=600)


def o_cost(o):
    return o.L.is_constant()


def _max(lst):
    m = lst[0]
    for q in lst[1:]:
        m = ca.fmax(m, q)
    return m


def decode(o, R, al, res, d, N, ws):
    xn = list(res.x_names)
    ui = [xn.index(o.x[i].name()) for i in range(o.nx)]
    un = list(res.u_names)
    perm = [un.index(n) for n in R.unames]
    out = []
    last = ws[-1]
    # the decoding is affine in the decision vector and independent of the rest
    for w in ws:
        t = Traj()
        if isinstance(last, SX):
            g = lambda v: ca.substitute(SX(v), last, SX(w))  # noqa: E731
            src = res
        else:
            raw = dict(res.raw_solution_dict, x=DM(w))
            src = al.create_optimization_result(raw, p=res.p, theta=res.theta, x_0=res.x_0)
            g = SX
        t.X = [[g(v) for v in el] for el in src.x_data["values"]]
        t.Y = [[g(v) for v in el] for el in src.y_data["values"]]
        t.U = [[g(v)[perm] for v in el] for el in src.u_data["values"]]
        t.ui, t.h, t.dc = ui, (o.tf - o.t0) / N, 1
        out.append(t)
    return out


def one_call(ctx, o, al, kw, d, N, p, th, x0, nu, mu, cfg):
    """Parameters that a fresh method with these multipliers and penalties sends."""
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    o2 = Ocp(ctx, **cfg)
    a2 = AugmentedLagrangian(o2.problem, DirectMethod,
                             solver_options=dict(degree=d, finite_elements=N, degree_control=1, discretization_scheme="collocation"),
                             options=dict(degree=d, finite_elements=N, max_iter=1), nu=dict(nu), **kw)
    num = lambda v: DM(ca.evalf(v)) if isinstance(v, SX) and v.is_constant() else v  # noqa: E731
    a2.nu = {k: num(v) for k, v in nu.items()}
    a2.set_mu(num(mu))
    rec = hooks.NlpRecorder((lambda s, n: DM.zeros(n)))
    with hooks.active(nlpsol=rec, qpsol=rec):
        a2.solve(p=p if o.np else None, theta=th, x_0=x0)
    return SX(rec.solvers[-1].calls[0]["p"])


def report(ctx, al, res, R, r, nu, rmax, d, N, o, t, neq):
    na = R.nr - neq
    times = [[o.t0 + (k + q) * t.h for q in radau(d)] for k in range(N)]
    for tag, lo, hi in (("alg_violation", 0, na), ("eq_violation", na, R.nr), ("nu", 0, R.nr)):
        if lo == hi:
            continue
        D = res.other_data[tag]
        tt = [x for el in D["time"] for x in el]
        ctx.require(tag + " times count", len(tt) == N * d, "%d times" % len(tt))
        ctx.equal(tag + " times", SX(DM(tt)), SX(DM([x for el in times for x in el])))
        got = [SX(v) for el in D["values"] for v in el]
        ctx.require(tag + " count", len(got) == N * d and all(g.numel() == hi - lo for g in got), "%s" % [g.shape for g in got])
        if len(got) == N * d and all(g.numel() == hi - lo for g in got):
            want = [(nu[k][j * R.nr:(j + 1) * R.nr] if tag == "nu" else r[(k, j)][lo:hi]) for k in range(N) for j in range(d)]
            ctx.equal("reported " + tag, ca.vertcat(*got), ca.vertcat(*want))
    ctx.equal("reported violation", SX(res.statistics["violation_error"]), ca.vertcat(*rmax))


def defaults(ctx, d, N):
    """Without multipliers the first problem is the pure penalty problem; sizes follow the options."""
    o, R, idx = build(ctx, d, N, nx=2, ny=2, nu=1, np=1, nth=0, t0=0.5, tf=2.0)
    box = {}
    cls = al_class(d, N, box, {k: v for k, v in idx.items()}, mu_0=2.5)
    T = transcribe(ctx, o, method_cls=cls, d=d, N=N, guess=None)
    retarget(T, o, R, d, N, {k: DM.zeros(R.nr * d) for k in range(N)}, DM([2.5] * R.nr))
    ctx.same_set("default problem", T.nlp.rows(), reference(ctx, R, T))


def guesses(ctx, ug=None, yg=None, alg=None, var=None, states=False, **cfg):
    """Initial guess of the relaxed problem: each variable's own."""
    o, R, idx = build(ctx, 2, 2, alg, var, None, states, **cfg)
    if ug is not None:
        o.problem.u_guess = DM(ug)
    if yg is not None:
        o.problem.y_guess = DM(yg)
    cls = al_class(2, 2, {}, dict(idx))
    T = transcribe(ctx, o, method_cls=cls, d=2, N=2, guess=None, method_opts=dict(initial_guess_heuristic="problem_info"))
    y = DM(yg) if yg is not None else DM.zeros(o.ny)
    want = {o.u[i].name(): (ug[i] if ug is not None else 0.0) for i in range(o.nu)}
    for i in range(o.ny):
        want[o.y[i].name()] = y[i] if ug is not None else 0.0
    for i in range(o.nx):
        want["y_x_%d" % i] = o.x0_default[i] if ug is not None else 0.0
    at = lambda v: ca.substitute(SX(v), T.nlp.w, SX(T.nlp.x0))  # noqa: E731
    for el in T.U:
        for v in el:
            ctx.equal("controls", at(v), ca.vertcat(*[SX(DM(want[n])) for n in T.res.u_names]))
    keep = [i for i in range(o.ny) if o.y[i].name() in T.res.y_names]
    for el in T.Y:
        for v in el:
            if keep:
                ctx.equal("algebraics", at(v), SX(y[keep]))


def solver_degree(ctx, d, N):
    """Discretisation given through the options of the inner solver only."""
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    o, R, idx = build(ctx, d, N, nx=1, ny=1, nu=1, np=0, nth=0)

    def cls(problem, **kw):
        so = dict(kw)
        al = AugmentedLagrangian(problem, DirectMethod, solver_options=so, options=dict(max_iter=1, mu_0=2.0))
        ctx.require("the caller's options are unchanged", so == kw, "%s" % sorted(so))
        return al
    T = transcribe(ctx, o, method_cls=cls, d=d, N=N, guess=None)
    retarget(T, o, R, d, N, {k: DM.zeros(R.nr * d) for k in range(N)}, DM([2.0] * R.nr))
    ctx.same_set("problem", T.nlp.rows(), reference(ctx, R, T))


def set_mu(ctx):
    o, R, idx = build(ctx, 2, 2, nx=1, ny=2, nu=1, np=0, nth=0)
    al = al_class(2, 2, {}, idx)(o.problem, degree=2, finite_elements=2)
    al.set_mu(DM(3))
    ctx.equal("scalar penalty", SX(al.mu), SX.ones(2) * 3)
    al.set_mu(DM([1, 2]))
    ctx.equal("vector penalty", SX(al.mu), SX(DM([1, 2])))
    try:
        al.set_mu(DM([1, 2, 3]))
        bad = True
    except ValueError:
        bad = False
    ctx.require("refuses another size", not bad, "accepted")


def scenarios(tier):
    base = dict(nx=2, ny=2, nu=1, np=1, nth=1, t0=0.5, tf=2.0)
    geq = dict(g_eq=("default", "end", "default"))
    out = [
        Scenario("all algebraics", relaxed, **base),
        Scenario("one algebraic", relaxed, alg=(1,), **base),
        Scenario("other variable", relaxed, alg=(1,), var=(0,), **base),
        Scenario("swapped variables", relaxed, alg=(0, 1), var=(1, 0), **base),
        Scenario("two of three", relaxed, alg=(0, 2), nx=1, ny=3, nu=1, np=1, nth=0),
        Scenario("equalities", relaxed, alg=(), eq=(0, 2), nx=2, ny=0, nu=1, np=1, nth=1, **geq),
        Scenario("first two equalities", relaxed, alg=(), eq=(0, 1), nx=2, ny=0, nu=1, np=1, nth=1, g_eq=("start", "end", "default")),
        Scenario("equalities in another order", relaxed, alg=(), eq=(2, 0), nx=2, ny=0, nu=1, np=0, nth=0, g_eq=("end", "start", "default")),
        Scenario("equalities and algebraics", relaxed, alg=(1,), eq=(1, 2), nx=1, ny=2, nu=1, np=0, nth=0, g_eq=("end", "default", "start")),
        Scenario("equalities ode", relaxed, eq=(1,), nx=1, ny=0, nu=1, np=0, nth=0, **geq),
        Scenario("both", relaxed, alg=(0,), eq=(0,), g_ineq=("end",), g_eq=("default", "end"), **base),
        Scenario("state bounds", relaxed, alg=(), states=True, nx=2, ny=1, nu=1, np=1, nth=0),
        Scenario("algebraics and state bounds", relaxed, states=True, nx=2, ny=1, nu=1, np=1, nth=1),
        Scenario("equalities and state bounds", relaxed, alg=(), eq=(0,), states=True, nx=2, ny=1, nu=1, np=0, nth=0, g_eq=("default",)),
        Scenario("no original cost", relaxed, cost=False, **base),
        Scenario("polynomial control", relaxed, dc=2, **base),
        Scenario("degree 3", relaxed, d=3, N=1, **base),
        Scenario("degree 1", relaxed, d=1, N=3, nx=1, ny=1, nu=1, np=0, nth=0),
        Scenario("twelve elements", relaxed, d=2, N=12, nx=1, ny=1, nu=1, np=0, nth=1),
        Scenario("degree 5", relaxed, d=5, N=1, nx=1, ny=2, nu=1, np=0, nth=1),
        Scenario("defaults", defaults, d=2, N=2), Scenario("set penalty", set_mu),
        Scenario("inner degree", solver_degree, d=2, N=2),
        Scenario("update", iterate, nx=1, ny=1, nu=1, np=1, nth=1, t0=0.5, tf=2.0),
        Scenario("update two", iterate, d=1, N=2, nx=1, ny=2, nu=1, np=0, nth=0),
        Scenario("update other variable", iterate, d=2, N=1, alg=(1,), var=(0,), nx=1, ny=2, nu=1, np=1, nth=0),
        Scenario("update equality", iterate, d=2, N=1, alg=(0,), eq=(1,), nx=1, ny=1, nu=1, np=0, nth=0, g_eq=("default", "default")),
        Scenario("update constant penalty", iterate, rule="constant", d=1, N=2, nx=1, ny=1, nu=1, np=1, nth=0),
        Scenario("update primal", iterate, rule="primal", iters=3, d=1, N=1, nx=1, ny=1, nu=1, np=0, nth=0),
        Scenario("update improved", iterate, improve=True, iters=3, d=2, N=1, nx=1, ny=1, nu=1, np=0, nth=0),
        Scenario("guess both", guesses, ug=[0.4], yg=[0.6, 0.9], alg=(1,), var=(0,), nx=1, ny=2, nu=1, np=0, nth=0),
        Scenario("guess all", guesses, ug=[0.4], yg=[0.6, 0.9], nx=1, ny=2, nu=1, np=0, nth=0),
        Scenario("guess control", guesses, ug=[0.4], nx=1, ny=2, nu=1, np=0, nth=0),
        Scenario("guess algebraic", guesses, yg=[0.6, 0.9], alg=(1,), nx=1, ny=2, nu=1, np=0, nth=0),
        Scenario("guess state bounds", guesses, ug=[0.4, 0.7], alg=(), states=True, nx=2, ny=1, nu=2, np=0, nth=0),
    ]
    if tier == "thorough":
        for d, N in ((1, 1), (2, 3), (3, 2), (4, 1)):
            out.append(Scenario("all d%d N%d" % (d, N), relaxed, d=d, N=N, **base))
        out += [Scenario("update three", iterate, d=2, N=3, nx=1, ny=1, nu=1, np=1, nth=1, iters=3),
                Scenario("update improved two", iterate, improve=True, iters=3, d=1, N=2, nx=1, ny=2, nu=1, np=0, nth=0),
                Scenario("update primal two", iterate, rule="primal", iters=3, d=1, N=2, nx=1, ny=2, nu=1, np=0, nth=0),
                Scenario("shooting", relaxed, scheme="multiple-shooting", **base)]
    return out
