"""C11: simulation integrates the declared model over the requested intervals."""
import casadi as ca

from .. import hooks
from ..modlib import Ref, els, make, vcat
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "SystemModel.simulate, OptimalControlProblem.simulate and DAESystem.simulate run on symbolic initial states, "
    "controls, parameters and per-interval parameters; the integrator is a contract stub whose end state is an "
    "arbitrary function of the interval, the initial state, the parameters and the vector field it was given. z3 "
    "decides, for all values and right-hand sides, that every reported state and algebraic value is the flow of the "
    "declared equations over exactly the requested interval with that interval's control and parameters, started at "
    "the previous value; that the reported controls are the control law at the end of the interval; that splitting a "
    "horizon does not change the result; and that the defaults of an optimal control problem are the ones it declares.")
BOUNDS = "models of 1..3 states, 0..2 algebraics, 0..3 controls, parameters, thetas; 1..4 intervals of different lengths"
ASSUMPTIONS = ["the numerical integrator is exact for the interval and equations it is given",
               "initial guesses for algebraic variables do not change the solution"]


def flow(ctx, r, ta, tb, x0, p, th, up):
    mk = hooks.integrator_for(ctx)
    dae = {"x": vcat(r.x), "ode": vcat(r.ode), "t": r.t}
    if r.alg:
        dae["z"], dae["alg"] = vcat(r.y), vcat(r.alg)
    pp = r.p + r.th + r.upar
    if pp:
        dae["p"] = vcat(pp)
    q = mk("ref", "rk", dae, {"t0": ta, "tf": tb}).call(
        {"x0": SX(x0), "p": ca.vertcat(SX(p), SX(th), SX(up)) if pp else SX(0, 1)})
    return q["xf"], q["zf"]


def control(r, t, x, z, p, th, up):
    if not r.u:
        return SX(0, 1)
    return ca.substitute(vcat(r.uexpr), vcat([r.t] + r.x + r.y + r.p + r.th + r.upar),
                         ca.vertcat(SX(t), SX(x), SX(z), SX(p), SX(th), SX(up)))


class Intg:
    """Records the integrators the library asks for."""

    def __init__(self, ctx):
        self.mk, self.made = hooks.integrator_for(ctx), []

    def __call__(self, name, plugin, dae, *rest):
        self.made.append((name, plugin, dae, rest))
        return self.mk(name, plugin, dae, *rest)


def chain(ctx, m, r, t0, ts, x0, us, p, ths):
    """Reference trajectory."""
    X, Z, U, x, t = [SX(x0)], [], [], SX(x0), t0
    for k, tk in enumerate(ts):
        x, z = flow(ctx, r, t, tk, x, p, ths[k], us[k])
        X.append(x)
        Z.append(z)
        U.append(control(r, tk, x, z, p, ths[k], us[k]))
        t = tk
    return X, Z, U


def compare(ctx, name, res, r, t0, ts, X, Z, U):
    def tab(tag, times, vals, n):
        t, v = res.get_entry(tag)
        ctx.require("%s %s count" % (name, tag), t.numel() == len(times) and SX(v).shape == (n, len(times)),
                    "%s: %s times, values %s" % (tag, t.shape, SX(v).shape))
        if t.numel() == len(times) and SX(v).shape == (n, len(times)):
            ctx.equal("%s %s times" % (name, tag), SX(t), SX(DM(times)))
            ctx.equal("%s %s values" % (name, tag), ca.vec(SX(v)), ca.vertcat(*vals))

    tab("x", [t0] + list(ts), X, len(r.x))
    if r.y:
        tab("y", list(ts), Z, len(r.y))
    if r.u:
        tab("u", list(ts), U, len(r.u))
    ctx.require(name + " names", list(res.x_names) == [s.name() for s in r.x] and list(res.y_names) ==
                [s.name() for s in r.y] and list(res.u_names) == [s.name() for s in r.u], "names")
    ctx.equal(name + " horizon", ca.vertcat(SX(res.t_0), SX(res.t_f)), SX(DM([t0, ts[-1]])))
    ctx.require(name + " intervals", res.finite_elements == len(ts), "finite_elements = %s" % (res.finite_elements,))
    f = res.final_condition()
    ctx.equal(name + " final x", SX(f["x"]), X[-1])
    if r.y:
        ctx.equal(name + " final y", SX(f["y"]), Z[-1])
    if r.u:
        ctx.equal(name + " final u", SX(f["u"]), U[-1])
    ctx.equal(name + " t", SX(res.t), SX(DM([t0] + list(ts))))
    ctx.require(name + " columns", len(res.x) == len(X), "x has %d columns" % len(res.x))
    for k in range(min(len(X), len(res.x))):
        ctx.equal("%s x[%d]" % (name, k), SX(res.x[k]), X[k])


def values(ctx, r, N, per_u=True, per_th=True):
    x0 = ctx.arg("x0", len(r.x))
    us = {k: (ctx.arg("u%d" % k, len(r.upar)) if r.upar else DM(0, 1)) for k in range(N if per_u else 1)}
    us = {k: us[k if per_u else 0] for k in range(N)}
    p = ctx.arg("p", len(r.p)) if r.p else DM(0, 1)
    ths = {k: (ctx.arg("th%d" % k, len(r.th)) if r.th else DM(0, 1)) for k in range(N)}
    return x0, us, p, ths


def model_sim(ctx, t0, ts, per_u=True, scalar_tf=False, dicts=True, lists=False, kind="implicit", par=None, yguess=False,
              **sz):
    m, r = make(ctx, 100, "A", tau=False, **sz)
    if par == "feedback":
        k = SX.sym("kk", 2)
        m.parametrize_control(m.u[0], k[0] * m.x[0] + k[1] * m.t, k)
        r.parametrize(r.u[0], k[0] * r.x[0] + k[1] * r.t, k)
    elif par == "law":
        e = ctx.uf(77, m.t, m.x, m.p)
        m.parametrize_control(m.u[1], e)
        r.parametrize(r.u[1], e)
    N = len(ts)
    x0, us, p, ths = values(ctx, r, N, per_u)
    ig = Intg(ctx)
    kw = dict(x_0=x0, t_f=ts[0] if scalar_tf else list(ts), t_0=t0)
    if r.upar:
        kw["u"] = dict(us) if dicts else us[0]
    if r.p:
        kw["p"] = p
    if r.th:
        kw["theta"] = dict(ths)
    if yguess:
        kw["y_0"] = DM([0.3] * len(r.y))
    if lists:
        for q in ("x_0", "u", "p"):
            kw[q] = [kw[q][i] for i in range(kw[q].numel())]
    opts = {"abstol": 1e-9}
    keep = dict(opts)
    from yaocptool import config
    saved = dict(config.INTEGRATOR_OPTIONS)
    config.INTEGRATOR_OPTIONS.update({"abstol": 1e-4, "reltol": 1e-5})
    try:
        with hooks.active(integrator=ig):
            res = m.simulate(integrator_type=kind, integrator_options=opts, **kw)
    finally:
        config.INTEGRATOR_OPTIONS.clear()
        config.INTEGRATOR_OPTIONS.update(saved)
    X, Z, U = chain(ctx, m, r, t0, ts, x0, us, p, ths)
    compare(ctx, "simulation", res, r, t0, ts, X, Z, U)
    want = {"implicit": "idas" if r.alg else "cvodes", "explicit": "rk"}.get(kind, kind)
    ctx.require("integrator", [q[1] for q in ig.made] == [want] * N, "integrators %s instead of %s"
                % ([q[1] for q in ig.made], want))
    ctx.require("options", opts == keep and all(_opts(q).get("abstol") == 1e-9 for q in ig.made), "options of the caller")
    ctx.require("default options", all(_opts(q).get("reltol") == 1e-5 for q in ig.made), "options of the configuration")


def _opts(q):
    return next((a for a in q[3] if isinstance(a, dict)), {})


def split(ctx, **sz):
    """Simulating to t2 through t1 = simulating to t1 and going on from there; extend joins them."""
    m, r = make(ctx, 100, "A", tau=False, **sz)
    x0, us, p, ths = values(ctx, r, 3)
    kw = dict(p=p) if r.p else {}
    with hooks.active(integrator=hooks.integrator_for(ctx)):
        a = m.simulate(x_0=x0, t_0=0.5, t_f=[1.0, 1.75], u={0: us[0], 1: us[1]}, theta={0: ths[0], 1: ths[1]}, **kw)
        b = m.simulate(x_0=a.final_condition()["x"], t_0=1.75, t_f=[3.0], u={0: us[2]}, theta={0: ths[2]}, **kw)
        b0 = b.get_copy()
        a.extend(b)
    ts = [1.0, 1.75, 3.0]
    X, Z, U = chain(ctx, m, r, 0.5, ts, x0, us, p, ths)
    t, v = a.get_entry("x")
    want_t, want = [0.5, 1.0, 1.75, 1.75, 3.0], [X[0], X[1], X[2], X[2], X[3]]
    ctx.require("joined x count", t.numel() == 5, "%s" % t)
    if t.numel() == 5:
        ctx.equal("joined times", SX(t), SX(DM(want_t)))
        ctx.equal("joined states", ca.vec(SX(v)), ca.vertcat(*want))
    for tag, V in (("y", Z), ("u", U)):
        tt, vv = a.get_entry(tag)
        if V and V[0].numel():
            ctx.equal("joined %s times" % tag, SX(tt), SX(DM(ts)))
            ctx.equal("joined %s" % tag, ca.vec(SX(vv)), ca.vertcat(*V))
    ctx.equal("joined horizon", ca.vertcat(SX(a.t_0), SX(a.t_f)), SX(DM([0.5, 3.0])))
    ctx.require("joined intervals", a.finite_elements == 3, str(a.finite_elements))
    for tag in ("x", "y", "u"):
        ctx.equal("second part unchanged %s" % tag, ca.vec(SX(b.get_entry(tag)[1])), ca.vec(SX(b0.get_entry(tag)[1])))


def ocp_sim(ctx, how, **sz):
    from yaocptool.modelling import OptimalControlProblem
    m, r = make(ctx, 100, "A", tau=False, **sz)
    nx, nu = len(r.x), len(r.u)
    px0, pu = DM([0.4 + 0.1 * i for i in range(nx)]), DM([0.2 + 0.3 * i for i in range(nu)])
    pr = OptimalControlProblem(m, x_0=px0, t_0=1.0, t_f=4.0)
    pr.L = m.x[0] ** 2
    if nu:
        pr.u_guess = pu
    if r.y:
        pr.y_guess = DM.zeros(len(r.y))
    pr.x_0 = px0
    t0, ts = 1.0, [4.0]
    x0, us, p, ths = values(ctx, r, 4, per_u=False)
    kw = {}
    if r.p:
        kw["p"] = p
    if how == "defaults":
        x0, us = px0, {0: pu}
    elif how == "elements":
        kw["finite_elements"] = 4
        x0, us = px0, {k: pu for k in range(4)}
        ts = [1.75, 2.5, 3.25, 4.0]
    elif how == "elements t0":
        kw.update(finite_elements=2, t_0=2.0, t_f=3.0, x_0=x0, u=us[0])
        t0, ts = 2.0, [2.5, 3.0]
    elif how == "t0":
        kw.update(t_0=2.0, t_f=3.5, x_0=x0, u=us[0])
        t0, ts = 2.0, [3.5]
    elif how == "list":
        kw.update(t_f=[1.5, 2.5], x_0=x0, u={0: us[0], 1: us[1]})
        ts = [1.5, 2.5]
    elif how == "zero":     # every given value is zero, no default is
        x0, us = DM.zeros(nx), {0: DM.zeros(nu)}
        kw.update(t_0=0.0, t_f=0.75, x_0=x0, u=us[0])
        t0, ts = 0.0, [0.75]
    elif how == "zero end":
        x0, us = DM.zeros(nx), {0: DM.zeros(nu)}
        kw.update(t_0=-0.75, t_f=0, x_0=x0, u=us[0])
        t0, ts = -0.75, [0]
    elif how == "one element":
        kw.update(finite_elements=1)
        x0, us = px0, {0: pu}
    if r.th:
        kw["theta"] = {k: ths[k] for k in range(len(ts))}
    with hooks.active(integrator=hooks.integrator_for(ctx)):
        res = pr.simulate(**kw)
    X, Z, U = chain(ctx, m, r, t0, ts, x0, us, p, ths)
    compare(ctx, how, res, r, t0, ts, X, Z, U)


def dae_sim(ctx, ny):
    m, r = make(ctx, 100, "A", tau=False, ny=ny)
    x0, us, p, ths = values(ctx, r, 1)
    d = m.get_dae_system()
    ig = Intg(ctx)
    pv = ca.vertcat(p, ths[0], us[0])
    with hooks.active(integrator=ig):
        q = d.simulate(x0, t_f=2.5, t_0=-1.0, p=pv)
        q2 = d.simulate(x0, t_f=2.5, p=pv)
        q3 = d.simulate(x0, 2.5, 1.5, pv, integrator_type="explicit")
    for n, (g, a) in {"given start": (q, -1.0), "default start": (q2, 0.0), "positional": (q3, 1.5)}.items():
        x, z = flow(ctx, r, a, 2.5, x0, p, ths[0], us[0])
        ctx.equal("xf " + n, SX(g["xf"]), x)
        if ny:
            ctx.equal("zf " + n, SX(g["zf"]), z)
    for n, f in {"equal times": lambda: d.simulate(x0, t_f=1.0, t_0=1.0, p=pv),
                 "unknown integrator": lambda: d.simulate(x0, t_f=1.0, p=pv, integrator_type="magic")}.items():
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.require("refuses " + n, ok, "accepted " + n)
    m2, _ = make(ctx, 300, "T", tau=True, ny=ny)
    try:
        m2.get_dae_system().simulate(SX.zeros(2), t_f=1.0, p=SX.zeros(3))
        ok = False
    except AttributeError:
        ok = True
    ctx.require("refuses tau", ok, "equations in tau were integrated without giving tau a meaning")


def explicit_after(ctx):
    """Simulation leaves the model as it was; two runs agree."""
    m, r = make(ctx, 100, "A", tau=False)
    x0, us, p, ths = values(ctx, r, 1)
    from ..modlib import check_model
    with hooks.active(integrator=hooks.integrator_for(ctx)):
        a = m.simulate(x_0=x0, t_f=1.0, u=us[0], p=p, theta=ths)
        b = m.simulate(x_0=x0, t_f=1.0, u=us[0], p=p, theta=ths)
    ctx.equal("repeatable", SX(a.get_entry("x")[1]), SX(b.get_entry("x")[1]))
    check_model(ctx, "after simulation", m, r)


def edited(ctx, ny=1):
    """A simulation is that of the model as it is now, whatever was simulated before."""
    m, r = make(ctx, 100, "A", tau=False, nx=2, ny=ny, nu=2, np=2, nth=1)

    def look(name, m, r):
        x0, us, p, ths = values(ctx, r, 2)
        with hooks.active(integrator=hooks.integrator_for(ctx)):
            res = m.simulate(x_0=x0, t_0=0.5, t_f=[1.0, 2.0], u=dict(us), p=p, theta=dict(ths))
        compare(ctx, name, res, r, 0.5, [1.0, 2.0], *chain(ctx, m, r, 0.5, [1.0, 2.0], x0, us, p, ths))

    look("as declared", m, r)
    m0, r0 = m.get_copy(), r.copy()
    k = SX.sym("kk", 2)
    m.parametrize_control(m.u[0], k[0] * m.x[0] + k[1] * m.t, k)
    r.parametrize(r.u[0], k[0] * r.x[0] + k[1] * r.t, k)
    look("control law", m, r)
    m.replace_variable(m.p[0], 3 * m.p[0] + 1)
    r.subs(r.p[0], 3 * r.p[0] + 1)
    look("replaced parameter", m, r)
    z = m.create_state("A_new")
    e = ctx.uf(90, m.x, m.p, m.t)
    m.include_equations(ode=[e], x=[z])
    r.x, r.ode = r.x + els(z), r.ode + [e]
    look("new state", m, r)
    if ny:
        w = m.create_algebraic_variable("A_alg")
        a = ctx.uf(91, m.x, m.y, m.t)
        m.include_equations(alg=[a])
        r.y, r.alg = r.y + els(w), r.alg + [a]
        look("new algebraic", m, r)
    look("copy made before the edits", m0, r0)


def dae_again(ctx, ny=1):
    """Every call of a DAE system uses its own interval, options and the equations of the moment."""
    m, r = make(ctx, 100, "A", tau=False, ny=ny)
    x0, us, p, ths = values(ctx, r, 1)
    d = m.get_dae_system()
    pv = ca.vertcat(p, ths[0], us[0])
    ig = Intg(ctx)
    with hooks.active(integrator=ig):
        d.simulate(x0, t_f=2.5, t_0=1.0, p=pv, integrator_options={"abstol": 1e-3})
        n = len(ig.made)
        q = d.simulate(x0, t_f=2.5, t_0=1.0, p=pv, integrator_options={"abstol": 1e-9})
        ctx.require("options of the second call", all(_opts(g).get("abstol") == 1e-9 for g in ig.made[n:]) and
                    len(ig.made) > n, "the integrator of another call was used")
        q1 = d.simulate(x0, t_f=3.5, t_0=2.0, p=pv)
        d.ode = ca.substitute(d.ode, r.p[0], 2 * r.p[0])
        r2 = r.copy()
        r2.ode = [ca.substitute(v, r.p[0], 2 * r.p[0]) for v in r.ode]
        q2 = d.simulate(x0, t_f=2.5, t_0=1.0, p=pv)
    for nm, g, rr, a, b in (("same interval", q, r, 1.0, 2.5), ("same length", q1, r, 2.0, 3.5), ("new equations", q2, r2, 1.0, 2.5)):
        x, zz = flow(ctx, rr, a, b, x0, p, ths[0], us[0])
        ctx.equal("xf " + nm, SX(g["xf"]), x)
        if ny:
            ctx.equal("zf " + nm, SX(g["zf"]), zz)


def scenarios(tier):
    d = dict(nx=2, ny=1, nu=2, np=1, nth=1)
    out = [
        Scenario("one interval", model_sim, t0=0.0, ts=[1.0], scalar_tf=True, **d),
        Scenario("one interval shifted", model_sim, t0=2.0, ts=[3.5], scalar_tf=True, dicts=False, **d),
        Scenario("uneven intervals", model_sim, t0=-1.0, ts=[0.5, 0.75, 3.0], **d),
        Scenario("twelve intervals", model_sim, t0=-1.0, ts=[0.5 * i * i for i in range(12)], nx=1, ny=1, nu=1, np=1, nth=1),
        Scenario("constant control", model_sim, t0=0.5, ts=[1.0, 2.0, 4.0], per_u=False, dicts=False, **d),
        Scenario("plain ode", model_sim, t0=0.5, ts=[1.0, 2.0], nx=3, ny=0, nu=2, np=2, nth=2),
        Scenario("ode explicit", model_sim, t0=0.5, ts=[1.0, 2.0], nx=3, ny=0, nu=2, np=2, nth=2, kind="explicit"),
        Scenario("collocation integrator", model_sim, t0=0.0, ts=[1.0], kind="collocation", **d),
        Scenario("no controls", model_sim, t0=0.5, ts=[1.0, 2.0], nx=2, ny=1, nu=0, np=1, nth=0),
        Scenario("no parameters", model_sim, t0=0.5, ts=[1.0, 2.0], nx=2, ny=0, nu=1, np=0, nth=0),
        Scenario("autonomous", model_sim, t0=0.5, ts=[1.0, 2.0], nx=2, ny=0, nu=0, np=0, nth=0),
        Scenario("lists", model_sim, t0=0.5, ts=[1.0], scalar_tf=True, dicts=False, lists=True, nx=2, ny=1, nu=2, np=2, nth=0),
        Scenario("algebraic guess", model_sim, t0=0.5, ts=[1.0, 2.0], yguess=True, nx=2, ny=2, nu=1, np=1, nth=0),
        Scenario("parametrised feedback", model_sim, t0=0.5, ts=[1.0, 2.0], par="feedback", **d),
        Scenario("state feedback law", model_sim, t0=0.5, ts=[1.0, 2.0], par="law", **d),
        Scenario("split", split, **d),
        Scenario("split ode", split, nx=2, ny=0, nu=1, np=0, nth=1),
        Scenario("dae system", dae_sim, ny=1), Scenario("ode system", dae_sim, ny=0),
        Scenario("repeat", explicit_after),
        Scenario("edited after simulation", edited), Scenario("edited ode after simulation", edited, ny=0),
        Scenario("dae system again", dae_again), Scenario("ode system again", dae_again, ny=0),
    ]
    for h in ("defaults", "elements", "elements t0", "t0", "list", "one element"):
        out.append(Scenario("problem " + h, ocp_sim, how=h, **d))
    for h in ("zero", "zero end"):
        out.append(Scenario("problem " + h, ocp_sim, how=h, nx=1, ny=1, nu=1, np=0, nth=0))
    out.append(Scenario("problem elements ode", ocp_sim, how="elements", nx=2, ny=0, nu=1, np=0, nth=0))
    if tier == "thorough":
        for nx in (1, 2, 3):
            for ny in (0, 2):
                for nu in (0, 1, 3):
                    for ts in ([1.0], [0.5, 2.0], [0.25, 0.5, 2.0, 4.0], [-1.0, 1.0, 1.5]):
                        out.append(Scenario("sweep x%d y%d u%d %s" % (nx, ny, nu, ts), model_sim, t0=-2.0, ts=ts, nx=nx,
                                            ny=ny, nu=nu, np=2, nth=2))
    return out
