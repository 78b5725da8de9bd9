"""C17: the control loop applies the optimal control to the plant it measures."""
import contextlib
import io

import casadi as ca

from .. import hooks
from .. import ocplib as L
from ..core import NeedNumbers
from ..modlib import Ref, els, make
from ..run import Scenario
from .c11 import control, flow

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "PlantSimulation and MPC run for several steps on models with arbitrary equations, from symbolic states, with symbolic "
    "controls; the integrator is a contract stub and the numerical optimiser may return any point. z3 decides, for all "
    "values, functions and solver answers, that the plant moves along the declared equations by exactly one sampling "
    "time per control with the control it was given, that it reports and records C[x; y] of where it is, and that each "
    "MPC iteration estimates from that measurement, solves the problem started at the estimate with the last control and "
    "the configured parameters, and applies the first control of that solution.")
BOUNDS = "plants of 1..3 states, 0..2 algebraics, 1..2 controls; up to 4 steps, 1..3 sub-samples; loops of up to 3 iterations"
ASSUMPTIONS = ["the numerical integrator is exact for the interval and equations it is given",
               "noise is whatever the random number generator returns",
               "the problem solved for given values is C16"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def val(ctx, name, n):
    return L._as(ctx, SX(ctx.arg(name, n)))


class Sim:
    """Where the plant is meant to be."""

    def __init__(self, ctx, r, t0, ts, x, y, u, C, points, p=None, th=None):
        self.ctx, self.r, self.t, self.ts, self.x, self.y, self.u, self.C = ctx, r, t0, ts, SX(x), SX(y), SX(u), C
        self.points = points
        self.p = SX(0, 1) if p is None else SX(p)
        self.th = SX(0, 1) if th is None else SX(th)
        self.X, self.Y, self.U, self.M = [(t0, self.x)], [(t0, self.y)], [(t0, self.u)], [(t0, self.meas())]
        self.M0 = list(self.M)      # without measurement noise

    def meas(self):
        z = ca.vertcat(self.x, self.y)
        return z if self.C is None else ca.mtimes(SX(self.C), z)

    def step(self, law, noise=()):
        """law: control as a function of the time a sub-interval starts at."""
        start = self.t
        for k, q in enumerate(self.points):
            tf = start + q * self.ts
            self.u = SX(law(self.t))
            self.x, self.y = flow(self.ctx, self.r, self.t, tf, self.x, self.p, self.th, self.u)
            ul = control(self.r, tf, self.x, self.y, self.p, self.th, self.u)
            if noise:
                self.x = self.x + noise[k]
            self.t = tf
            self.X.append((tf, self.x))
            self.Y.append((tf, self.y))
            self.U.append((tf, ul))
        self.M.append((self.t, self.meas()))
        self.M0.append(self.M[-1])

    def compare(self, name, plant, meas=True):
        ctx = self.ctx
        t, m, u = plant.get_measurement()
        ctx.equal(name + " time", SX(t), SX(self.t))
        if meas:
            ctx.equal(name + " measurement", SX(m), self.M[-1][1])
        ctx.equal(name + " control", SX(u), self.u)
        t2, m2, u2 = plant.get_measurement()
        ctx.equal(name + " measuring changes nothing", ca.vertcat(SX(t2), SX(m2), SX(u2)), ca.vertcat(SX(t), SX(m), SX(u)))

    def recorded(self, plant, meas=True):
        ctx = self.ctx
        for tag, want in (("x", self.X), ("y", self.Y), ("u", self.U), ("meas", self.M), ("meas_wo_noise", self.M0)):
            n = want[0][1].numel()
            if n == 0 or (tag[:4] == "meas" and not meas):
                continue
            t, v = plant.dataset.get_entry(tag)
            ok = SX(v).shape == (n, len(want)) and SX(t).numel() == len(want)
            ctx.require("recorded %s entry" % tag, plant.dataset.get_entry_size(tag) == n == len(plant.dataset.get_entry_names(tag)),
                        "entry %s of size %s with names %s holds %d rows" % (tag, plant.dataset.get_entry_size(tag),
                                                                             plant.dataset.get_entry_names(tag), n))
            ctx.require("recorded %s count" % tag, ok, "%s: values %s, times %s" % (tag, SX(v).shape, SX(t).shape))
            if ok:
                ctx.equal("recorded %s times" % tag, ca.vec(SX(t)), SX(DM([q[0] for q in want])))
                ctx.equal("recorded %s values" % tag, ca.vec(SX(v)), ca.vertcat(*[q[1] for q in want]))


def plant(ctx, steps=2, meas=None, sub=1, moves=None, t0=0.5, ts=0.25, u0=True, noise=False, par=None, **sz):
    from yaocptool.mpc import PlantSimulation
    m, r = make(ctx, 100, "A", tau=False, **sz)
    if par:
        k = SX.sym("kk", 2)
        m.parametrize_control(m.u[0], k[0] * m.x[0] + k[1] * m.t, k)
        r.parametrize(r.u[0], k[0] * r.x[0] + k[1] * r.t, k)
    nx, ny, nu = len(r.x), len(r.y), len(r.upar)
    x0, y0 = val(ctx, "x0", nx), val(ctx, "y0", ny) if ny else DM(0, 1)
    ui = val(ctx, "ui", nu) if u0 else DM.zeros(nu)
    C = None
    if meas:
        C = DM([[0.5 + 0.3 * i - 0.7 * j for j in range(nx + ny)] for i in range(meas)])
    points = [1.0 / sub * (i + 1) for i in range(sub)] if isinstance(sub, int) else list(sub)
    p = val(ctx, "p", len(r.p)) if r.p else None
    th = val(ctx, "th", len(r.th)) if r.th else None
    log, given = [], []
    with quiet(), hooks.active(integrator=hooks.integrator_for(ctx)), rng(log, given):
        pl = PlantSimulation(m, x_0=x0, u_0=ui if u0 else None, y_guess=y0, t_0=t0, t_s=ts, c_matrix=C, verbosity=0,
                             super_samling=sub)
        pl.p, pl.theta = p, ({0: th} if th is not None else None)
        if noise:
            pl.has_noise = True
            pl.r_v, pl.r_n = 0.1 * DM.eye(nx) + 0.02, 0.3 * DM.eye(meas or nx + ny) + 0.01
        s = Sim(ctx, r, t0, ts, x0, y0, ui, C, points, p, th)
        s.compare("start", pl)
        for k in range(steps):
            mv = (moves or ["vector"])[k % len(moves or [1])]
            n0 = len(given)
            if mv == "function":
                a, b = val(ctx, "fa%d" % k, nu), val(ctx, "fb%d" % k, nu)
                law = lambda t, a=a, b=b: a + b * t  # noqa: E731
                pl.set_control_function(law)
            else:
                u = val(ctx, "u%d" % k, nu)
                law = lambda t, u=u: u  # noqa: E731
                if mv == "list":
                    pl.set_control([float(u[i]) for i in range(nu)] if isinstance(u, DM) else [u[i] for i in range(nu)])
                elif mv == "number" and isinstance(u, DM):
                    pl.set_control(float(u))
                else:
                    pl.set_control(u)
            nz = given[n0:]
            if noise:
                ctx.require("noise drawn %d" % k, len(nz) == len(points) + 1 and all(close(q[1], pl.r_v) for q in nz[:-1])
                            and close(nz[-1][1], pl.r_n) and all(not any(q[0]) for q in nz), "%s" % [q[1] for q in nz])
                dx = [SX(DM(q[2])) if len(q[2]) == nx else SX(nx, 1) for q in nz[:-1]]
                s.step(law, (dx + [SX(nx, 1)] * len(points))[:len(points)])
                if nz and len(nz[-1][2]) == s.M[-1][1].numel():
                    s.M[-1] = (s.t, s.M[-1][1] + SX(DM(nz[-1][2])))
            else:
                s.step(law)
                ctx.require("no noise %d" % k, not nz, "noise was drawn")
            s.compare("step %d" % k, pl)
        s.recorded(pl)
        bad = 0
        for w in (DM.zeros(nu + 1), DM.zeros(nu - 1) if nu > 1 else DM.zeros(nu + 2)):
            try:
                pl.set_control(w)
            except ValueError:
                bad += 1
        ctx.require("wrong sizes are refused", bad == 2, "a control of the wrong size was accepted")
        s.compare("after refusal", pl)


def close(a, b):
    a, b = DM(a), DM(b)
    return a.shape == b.shape and float(ca.norm_inf(ca.vec(a - b))) < 1e-12


@contextlib.contextmanager
def rng(log, given):
    """The random number generator returns known numbers."""
    import random

    import numpy
    old = numpy.random.multivariate_normal
    g = random.Random(3)

    def draw(mean, cov, *a, **k):
        v = [round(g.uniform(-1, 1), 3) for _ in range(len(mean))]
        given.append((list(mean), DM(cov), v))
        return numpy.array(v)
    numpy.random.multivariate_normal = draw
    try:
        yield
    finally:
        numpy.random.multivariate_normal = old


def ref_of(o):
    r = Ref()
    m = o.model0
    r.x, r.y, r.u, r.p, r.th = els(o.x), els(o.y), els(o.u), els(o.p), els(o.th)
    r.ode, r.alg, r.t, r.tau = els(o.ode), els(o.alg), m.t, m.tau
    r.upar, r.uexpr = list(r.u), list(r.u)
    return r


def loop(ctx, n=2, estimator=False, meas=None, sub=1, last=False, mean=None, cov=None, rearrange=False, scheme=None,
         dc=1, hook=False, theta=False, runs=None, fixed=0, fixed_est=0, fixlist=False, N=2, guess=False, refresh=None, **cfg):
    """Every iteration: measure, estimate, solve from the estimate, apply."""
    from yaocptool.estimation.estimator_abstract import EstimatorAbstract
    from yaocptool.methods import DirectMethod
    from yaocptool.mpc import MPC, PlantSimulation
    scheme = scheme or "collocation"
    if last:
        cfg.update(delta=([-0.3] * cfg.get("nu", 1), [0.4] * cfg.get("nu", 1)))
    tsam = 0.5
    cost = True           # DirectMethod always adds a cost state

    def new():
        o = L.Ocp(ctx, **cfg)
        kw = dict(degree=2, finite_elements=N, discretization_scheme=scheme, degree_control=dc)
        if last:
            kw["last_control_as_parameter"] = True
        return o, DirectMethod(o.problem, **kw)

    def inp(name, k):
        return L._as(ctx, SX(ctx.arg(name, k) if ctx.semi else ctx.input(name, k)))

    o, meth = new()
    r = ref_of(o)
    nx, ny, nu = o.nx, o.ny, o.nu
    x0, y0, u0 = inp("x0", nx), inp("y0", ny) if ny else DM(0, 1), inp("u0", nu)
    C = DM([[0.5 + 0.3 * i - 0.7 * j for j in range(nx + ny)] for i in range(meas)]) if meas else None
    p = inp("p", o.np) if o.np else None
    thetas = {e: inp("th%d" % e, o.nth) for e in range(N)} if o.nth else None
    points = [1.0 / sub * (i + 1) for i in range(sub)]
    asked = []

    class Est(EstimatorAbstract):
        def estimate(self, t_k, y_k, u_k):
            asked.append((t_k, y_k, u_k))
            if ctx.semi:
                return estimate_num(y_k, u_k, len(asked))
            return ctx.ufv(300, nx, SX(t_k), SX(y_k), SX(u_k)), ca.reshape(ctx.ufv(330, nx * nx, SX(y_k)), nx, nx)

    def estimate_num(y_k, u_k, k):
        return ctx.number("est%d" % k, nx, 1), ca.reshape(ctx.number("cov%d" % k, nx * nx, 1), nx, nx)

    def wk(k):
        return lambda s, q: (ctx.number("w%d" % k, q, 1) if ctx.semi else SX(ctx.input("w%d" % k, q)))

    rec = hooks.NlpRecorder()
    rec.wmaker = lambda s, q: wk(sum(len(z.calls) for z in rec.solvers) - 1)(s, q)
    kw = dict(verbosity=0, include_cost_in_state_vector=cost)
    if p is not None:
        kw["p"] = p         # the vector the plant has, too
        p = type(p)(p)
        p_given = kw["p"]
    if thetas is not None:
        kw["theta"] = {e: type(v)(v) for e, v in thetas.items()}
    if mean:
        kw.update(mean_as_parameter=True, mean_p_indices=mean)
    if cov:
        kw.update(covariance_as_parameter=True, cov_p_indices=cov)
    sre = (lambda v: v[[nx - 1 - i for i in range(nx)] + list(range(nx, v.numel()))] * 2) if rearrange else None
    if sre:
        kw["state_rearrangement_function"] = sre
    if guess:
        kw["initial_guess"] = None

    class Mine(MPC):
        def post_process_measurement(self, t, m_, u):
            return t, m_ + 1, u

        def post_process_states(self, x, c):
            return x * 3, c

        def post_process_get_new_control(self, u):
            return [v + 1 for v in u]
    with quiet(), hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        pl = PlantSimulation(o.model0, x_0=x0, u_0=u0, y_guess=y0, t_0=0.0, t_s=tsam, c_matrix=C, verbosity=0, super_samling=sub)
        pl.p = kw.get("p")
        pl.theta = {0: thetas[0]} if thetas is not None else None
        mpc = (Mine if hook else MPC)(pl, meth, estimator=Est() if estimator else None, **kw)
        s = Sim(ctx, r, 0.0, tsam, x0, y0, u0, C, points, p, thetas[0] if thetas else None)
        fix = []
        for f, tag in ((fixed, "run_fixed_control"), (fixed_est, "run_fixed_control_with_estimator")):
            if f:
                v = inp("f" + tag, nu)
                if fixlist and not isinstance(v, DM) and not SX(v).is_constant():
                    raise NeedNumbers("lists of numbers")
                getattr(mpc, tag)(v if ctx.mode != "num" and not ctx.semi else ([float(q) for q in v.full().ravel()]
                                                                              if isinstance(v, DM) else v), f)
                fix.append((f, v, tag))
        for q in (runs or [n]):
            if q == 0:          # without end: stopped by the plant
                left = [n]
                real = pl.get_measurement

                class Stop(Exception):
                    pass

                def limited():
                    if not left[0]:
                        raise Stop()
                    left[0] -= 1
                    return real()
                pl.get_measurement = limited
                ended = False
                try:
                    mpc.run(iterations=0)
                except Stop:
                    ended = True
                del pl.get_measurement
                ctx.require("runs without end", ended, "run(0) ended by itself after %d of %d iterations" % (n - left[0], n))
            else:
                left, real = [q + 2], pl.get_measurement

                class Over(Exception):
                    pass

                def counted():
                    if not left[0]:
                        raise Over()
                    left[0] -= 1
                    return real()
                pl.get_measurement = counted
                try:
                    mpc.run(q)
                except Over:
                    ctx.require("stops", False, "run(%d) did not stop after %d iterations" % (q, q))
                    return
                finally:
                    del pl.get_measurement
    if p is not None:
        ctx.equal("the given parameters are unchanged", SX(p_given), SX(p))
    calls = [(z, c) for z in rec.solvers for c in z.calls]
    total = n if runs is None else sum(q or n for q in runs)
    ctx.require("one solve per iteration", len(calls) == total, "%d solves in %d iterations" % (len(calls), total))
    for f, v, tag in fix:
        for _ in range(f):
            if tag.endswith("estimator"):
                expect_asked(ctx, s, asked, estimator, hook)
            s.step(lambda t: SX(v))
    for k in range(min(total, len(calls))):
        mk = s.M[-1][1] + (1 if hook else 0)
        if estimator:
            pos = expect_asked(ctx, s, asked, estimator, hook)
            if ctx.semi:
                xk, ck = estimate_num(None, None, pos)
            else:
                xk = ctx.ufv(300, nx, SX(s.t), mk, s.u)
                ck = ca.reshape(ctx.ufv(330, nx * nx, mk), nx, nx)
        else:
            xk, ck = mk[:nx], SX.zeros(nx, 1)
        xk, ck = SX(xk), SX(ck)
        if cost:
            xk = ca.vertcat(xk, 0)
        if hook:
            xk = xk * 3
        a = {}
        pk = SX(p) if p is not None else None
        for i, j in (mean or []):
            pk[j] = xk[i]
        for i, j in (cov or []):
            pk[j] = ca.vec(ck)[i]
        o2, m2 = new()
        rec2 = hooks.NlpRecorder(wk(k))
        a["x_0"] = L._as(ctx, sre(xk) if sre else xk)
        if pk is not None:
            a["p"] = L._as(ctx, pk)
        if thetas is not None:
            a["theta"] = {e: L._as(ctx, SX(v)) for e, v in thetas.items()}
        if last:
            a["last_u"] = L._as(ctx, s.u)
        with hooks.active(nlpsol=rec2, qpsol=rec2, integrator=hooks.integrator_for(ctx)):
            r2 = m2.solve(**a)
        z2, c2 = rec2.solvers[-1], rec2.solvers[-1].calls[-1]
        z1, c1 = calls[k]
        for q in ("p", "lbx", "ubx", "lbg", "ubg"):
            if c1.get(q) is not None and c2.get(q) is not None:
                ctx.equal("iteration %d %s" % (k, q), SX(c1[q]), SX(c2[q]))
            else:
                ctx.require("iteration %d %s" % (k, q), (c1.get(q) is None) == (c2.get(q) is None), "%s is missing" % q)
        ctx.require("iteration %d guess" % k, c1.get("x0") is not None and SX(c1["x0"]).numel() == z1.prob["x"].numel(),
                    "a guess of the wrong size")
        if k:
            ctx.equal("iteration %d starts at" % k, SX(c1["x0"]), prev)
        else:
            ctx.equal("iteration %d starts at" % k, SX(c1["x0"]), SX(c2["x0"]))
        prev = shifted(SX(z2.w), m2, N, scheme)
        us = [SX(v) for v in r2.u_data["values"][0]]
        if dc == 1:
            law = lambda t, v=us[0] + (1 if hook else 0): v  # noqa: E731
        else:
            nodes = L.radau(dc)
            law = lambda t, a=s.t, us=us: sum((w * v for w, v in zip(L.lagrange(nodes, (t - a) / tsam), us)), SX.zeros(nu))  # noqa: E731
        s.step(law)
    s.compare("after the loop", pl)
    s.recorded(pl)
    ctx.require("estimator calls", not asked or len(asked) == getattr(ctx, "_asked", 0), "%d estimates" % len(asked))
    ctx._asked = 0


def shifted(w, meth, N, scheme):
    """The solution one element later, its last element repeated; scaled as the loop does."""
    if scheme != "collocation":
        return w
    n = w.numel()
    X, Y, U, *_ = meth.discretizer.unpack_decision_variables(DM(list(range(n))))
    src = list(range(n))
    at = lambda e: [int(q) for v in e for q in DM(v).full().ravel()]  # noqa: E731
    for V in (X[:N], Y, U):
        for k in range(N):
            for a, b in zip(at(V[k]), at(V[min(k + 1, N - 1)])):
                src[a] = b
    return 1.1 * w[src]


def expect_asked(ctx, s, asked, estimator, hook):
    if not estimator:
        return 0
    k = getattr(ctx, "_asked", 0)
    ctx._asked = k + 1
    ctx.require("estimate %d" % k, k < len(asked), "the estimator was not asked")
    if k < len(asked):
        t, m, u = asked[k]
        ctx.equal("estimate %d of" % k, ca.vertcat(SX(t), SX(m), SX(u)),
                  ca.vertcat(SX(s.t), s.M[-1][1] + (1 if hook else 0), s.u))
    return k + 1


def scenarios(tier):
    M = "multiple-shooting"
    P = [
        ("states", dict(nx=2, ny=0, nu=1, np=0, nth=0, steps=3)),
        ("algebraics", dict(nx=2, ny=2, nu=2, np=0, nth=0)),
        ("parameters", dict(nx=1, ny=1, nu=1, np=2, nth=2)),
        ("many steps", dict(nx=1, ny=0, nu=1, np=0, nth=0, steps=12)),
        ("few measurements", dict(nx=2, ny=1, nu=1, np=0, nth=0, meas=1)),
        ("many measurements", dict(nx=2, ny=0, nu=1, np=0, nth=0, meas=3)),
        ("sub-sampling", dict(nx=2, ny=1, nu=1, np=0, nth=0, sub=3)),
        ("uneven sub-sampling", dict(nx=1, ny=0, nu=2, np=0, nth=0, sub=[0.1, 0.7, 1.0])),
        ("forms", dict(nx=2, ny=0, nu=1, np=0, nth=0, steps=3, moves=["list", "number", "vector"], u0=False)),
        ("control functions", dict(nx=2, ny=0, nu=1, np=0, nth=0, steps=4, sub=2, moves=["function", "vector", "function", "function"])),
        ("noise", dict(nx=2, ny=0, nu=1, np=0, nth=0, noise=True, sub=2)),
        ("noise on algebraics", dict(nx=1, ny=1, nu=1, np=0, nth=0, noise=True, meas=2)),
    ]
    small = dict(nx=2, ny=0, nu=1, np=0, nth=0)
    Q = [
        ("plain", dict(small, n=3)),
        ("algebraics", dict(nx=1, ny=1, nu=2, np=1, nth=0)),
        ("shooting", dict(small, scheme=M)),
        ("three elements", dict(nx=1, ny=1, nu=1, np=0, nth=0, N=3)),
        ("theta", dict(nx=1, ny=0, nu=1, np=1, nth=1)),
        ("last control", dict(small, last=True)),
        ("last control shooting", dict(small, last=True, scheme=M)),
        ("estimator", dict(small, estimator=True, meas=1)),
        ("mean as parameter", dict(small, np=3, mean=[(1, 2), (0, 0)])),
        ("covariance as parameter", dict(small, np=3, estimator=True, mean=[(0, 1)], cov=[(1, 0), (3, 2)])),
        ("rearranged", dict(small, rearrange=True)),
        ("rearranged with mean", dict(small, np=3, rearrange=True, mean=[(0, 0), (1, 2)])),
        ("rearranged with covariance", dict(small, np=3, rearrange=True, estimator=True, mean=[(0, 1)], cov=[(1, 0), (2, 2)], last=True)),
        ("hooks with mean", dict(small, np=2, hook=True, estimator=True, mean=[(1, 0)], cov=[(1, 1)], rearrange=True)),
        ("last control sub-sampled", dict(small, last=True, sub=2)),
        ("last control and fixed", dict(small, last=True, fixed=1, n=2)),
        ("hooks", dict(small, hook=True)),
        ("hooks with estimator", dict(small, hook=True, estimator=True)),
        ("polynomial control", dict(small, dc=2, sub=2)),
        ("sub-sampled", dict(small, sub=2)),
        ("fixed control", dict(small, fixed=2, n=1)),
        ("fixed control with estimator", dict(small, fixed=1, fixed_est=2, estimator=True, n=1)),
        ("fixed control lists", dict(small, fixed=1, fixed_est=2, estimator=True, n=1, fixlist=True, nu=2)),
        ("fixed between", dict(small, runs=[1, 1], n=2)),
        ("without end", dict(small, runs=[0], n=3)),
    ]
    out = [Scenario("plant " + n, plant, **k) for n, k in P] + [Scenario("loop " + n, loop, **k) for n, k in Q]
    if tier == "thorough":
        for nx in (1, 3):
            for ny in (0, 2):
                for sub in (1, 3):
                    out.append(Scenario("plant sweep %d %d %d" % (nx, ny, sub), plant, nx=nx, ny=ny, nu=2, np=1, nth=1, sub=sub, steps=4,
                                        moves=["vector", "function", "vector"]))
        for sc in ("collocation", M):
            out.append(Scenario("loop sweep " + sc, loop, nx=2, ny=1, nu=2, np=2, nth=1, n=3, scheme=sc, last=True, estimator=True,
                                mean=[(1, 0)], cov=[(2, 1)], meas=2))
            out.append(Scenario("loop poly " + sc, loop, nx=2, ny=0, nu=2, np=0, nth=0, n=3, scheme=sc, dc=3, sub=3))
    return out
