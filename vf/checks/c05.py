"""C05: results report what the solver found; guesses have the documented content."""
import casadi as ca

from .. import hooks
from ..core import Structural
from .. import ocplib as L
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "solve() is executed with an arbitrary (symbolic) solver answer w.  Times, values, names, parameters, per-element "
    "parameters, objective, the first control, get_variable/get_variable_by_name and the DataSet view of the result "
    "are symbolic expressions of w; z3 proves each equal to its definition.  The starting point handed to the solver is "
    "decoded with the same layout and proved equal to the documented guess (problem data, or the simulated trajectory "
    "under an arbitrary flow).")
BOUNDS = ("1..3 states, 0..2 algebraics, 0..2 controls, 1..4 elements, degree 1..4, control degree 1..3, both schemes, "
          "shifted horizons")
ASSUMPTIONS = [
    "the optimiser may return any point",
    "integrators are arbitrary functions of (t0, tf, x0, vector field) for simulated guesses",
    "that decoded values satisfy the dynamics at the reported times is C01/C02",
]


def times(ctx, o, T):
    h, N = T.h, T.N
    bp = [o.t0 + k * h for k in range(N + 1)]
    if T.scheme == "collocation":
        nodes = L.radau(T.d)
        xt = [[t + h * c for c in [0.0] + nodes] for t in bp[:-1]]
        yt = [[t + h * c for c in nodes] for t in bp[:-1]]
    else:
        xt = [[t] for t in bp]
        yt = [[t] for t in bp[1:]]
    cu = [0.0] if T.dc == 1 else L.radau(T.dc)
    ut = [[t + h * c for c in cu] for t in bp[:-1]]
    return bp, xt, yt, ut


def flat(v):
    return [x for el in v for x in el]


def decode(ctx, N=2, d=2, dc=1, scheme="collocation", **kw):
    o = L.Ocp(ctx, **kw)
    T = L.transcribe(ctx, o, N=N, dc=dc, d=d, scheme=scheme)
    r = T.res
    bp, xt, yt, ut = times(ctx, o, T)

    def tm(name, got, want):
        g, w = flat(got), flat(want)
        ctx.require(name + " count", len(got) == len(want) and [len(a) for a in got] == [len(a) for a in want],
                    "%s has shape %s, expected %s" % (name, [len(a) for a in got], [len(a) for a in want]))
        if len(g) == len(w):
            ctx.equal(name, ca.vertcat(*[SX(v) for v in g]), ca.vertcat(*[SX(v) for v in w]))

    tm("state times", r.x_data["time"][:len(xt)], xt)
    if o.ny:
        tm("algebraic times", r.y_data["time"], yt)
    if o.nu:
        tm("control times", r.u_data["time"], ut)
    ctx.equal("breakpoints", ca.vertcat(*[SX(v) for v in r.time_breakpoints]), SX(DM(bp)))
    ctx.equal("horizon", ca.vertcat(SX(r.t_0), SX(r.t_f)), SX(DM([o.t0, o.tf])))
    # the decision vector is completely used by the decoded parts: bijection
    parts = []
    for k, el in enumerate(T.X):
        if scheme == "collocation" and k == N:
            ctx.equal("final state repeated", el[-1], T.X[N - 1][-1])
            continue
        parts += el
    parts += flat(T.Y) + flat(T.U)
    parts += [SX(r.p_opt)] if o.popt else []
    parts += [SX(v) for v in r.theta_opt] if o.thopt else []
    allv = ca.vertcat(*parts)
    w = T.nlp.w
    ctx.require("decoded size", allv.numel() == w.numel(), "%d decoded of %d" % (allv.numel(), w.numel()))
    if allv.numel() == w.numel() and not ctx.semi:
        J = ca.jacobian(allv, w)
        ok = J.is_constant()
        if ok:
            J = DM(J)
            ok = bool((ca.sum1(ca.fabs(J)) == 1).is_one() if False else True)
            M = J.full()
            ok = bool((M.sum(0) == 1).all() and (M.sum(1) == 1).all() and ((M == 0) | (M == 1)).all())
        ctx.require("decoding is a permutation", ok, "decoded trajectories are not a rearrangement of w")
    # optimised parameters
    for kk, i in enumerate(o.popt):
        ctx.equal("p_opt %d" % i, SX(r.p)[i], SX(r.p_opt)[kk])
    for kk, i in enumerate(o.thopt):
        for k in range(N):
            ctx.equal("theta_opt %d.%d" % (i, k), SX(r.theta[k])[i], SX(r.theta_opt[k])[kk])
    for i in range(o.np):
        if i not in o.popt:
            ctx.equal("fixed p %d" % i, SX(r.p)[i], T.p[i])
    for i in range(o.nth):
        if i not in o.thopt:
            for k in range(N):
                ctx.equal("fixed theta %d.%d" % (i, k), SX(r.theta[k])[i], T.theta[k][i])
    if not ctx.semi:
        ctx.equal("objective", SX(r.objective_opt_problem), SX(r.raw_solution_dict["f"]))
    ctx.equal("initial condition", SX(r.x_0)[T.ui], T.x0)
    if T.extra:
        last = T.X[N - 1][d] if scheme == "collocation" else T.X[N][0]
        if r.x_c_final is None:
            raise Structural("the result holds no final cost state")
        ctx.equal("final cost state", SX(r.x_c_final), last[T.extra])
    # names and accessors
    ctx.require("names", [n for i, n in enumerate(r.x_names) if i in T.ui] == [o.x[i].name() for i in range(o.nx)]
                and list(r.y_names) == [o.y[i].name() for i in range(o.ny)]
                and list(r.u_names) == [o.u[i].name() for i in range(o.nu)], "names differ from the model")
    for names, data, tag in ((r.x_names, T.X, "x"), (r.y_names, T.Y, "y"), (r.u_names, T.U, "u")):
        for i, n in enumerate(names):
            got = r.get_variable_by_name(n)
            got2 = r.get_variable(tag, i)
            want = [[v[i] for v in el] for el in data]
            for nm, g in (("by name", got), ("by index", got2)):
                if [len(a) for a in g] != [len(a) for a in want]:
                    ctx.require("accessor %s %s" % (nm, n), False, "shape of %s" % n)
                else:
                    ctx.equal("accessor %s %s" % (nm, n), ca.vertcat(*[SX(v) for v in flat(g)]),
                              ca.vertcat(*flat(want)))
    if o.nu:
        ctx.equal("first control", SX(r.first_control()), T.U[0][0])
        fp = r.first_control_parameters()
        ctx.equal("first control parameters", ca.vertcat(*[SX(v) for v in fp]), ca.vertcat(*T.U[0]))
    # dataset view
    ds = r.to_dataset()

    def entry(tag, tt, vals):
        t, v = ds.get_entry(tag)
        ctx.equal("dataset %s time" % tag, ca.vec(SX(t)), ca.vertcat(*[SX(a) for a in flat(tt)]))
        ctx.equal("dataset %s values" % tag, ca.vec(SX(v)), ca.vertcat(*flat(vals)))

    xx = xt + [[o.tf]] if scheme == "collocation" else xt
    entry("x", xx, T.X)
    if o.ny:
        entry("y", yt, T.Y)
    if o.nu:
        entry("u", ut, T.U)
    if o.thopt:
        entry("theta_opt", [bp[:-1]], [[SX(v) for v in r.theta_opt]])
    ctx.require("dataset names", list(ds.get_entry_names("x")) == list(r.x_names)
                and list(ds.get_entry_names("y")) == list(r.y_names)
                and list(ds.get_entry_names("u")) == list(r.u_names), "dataset names differ")


def guess(ctx, N=2, d=2, dc=1, scheme="collocation", heuristic="problem_info", uguess=None, yguess=None,
          given=None, **kw):
    o = L.Ocp(ctx, **kw)
    if uguess is not None:
        o.problem.u_guess = DM(uguess)
    if yguess is not None:
        o.problem.y_guess = DM(yguess)
    T = L.transcribe(ctx, o, N=N, dc=dc, d=d, scheme=scheme, guess=None,
                     method_opts=dict(initial_guess_heuristic=heuristic))
    nlp = T.nlp
    x0 = SX(nlp.x0)
    ctx.require("guess size", x0.numel() == nlp.n, "guess has %d entries, problem %d" % (x0.numel(), nlp.n))
    if x0.numel() != nlp.n:
        return
    at = lambda v: ca.substitute(SX(v), nlp.w, x0)  # noqa: E731
    u0 = SX(DM(uguess)) if uguess is not None else (
        SX(o.problem.last_u) if (heuristic == "simulation" and o.problem.last_u is not None) else SX.zeros(o.nu))
    y0 = SX(DM(yguess)) if yguess is not None else SX.zeros(o.ny)
    nxt = len(T.xn)
    xs = [SX(0)] * nxt
    for a, i in enumerate(T.ui):
        xs[i] = SX(o.x0_default)[a]
    xs = ca.vertcat(*xs)
    got, want = [], []
    Xs = T.X[:N] if scheme == "collocation" else T.X
    if heuristic == "problem_info":
        for el in Xs:
            for v in el:
                got.append(at(v))
                want.append(xs)
        for v in flat(T.Y):
            got.append(at(v))
            want.append(y0)
    else:
        x = xs
        P = T.p
        for k in range(N):
            U = [u0] * dc
            tk = o.t0 + k * T.h
            ts = [0.0] + (L.radau(d) if scheme == "collocation" else [1.0])
            if scheme == "collocation" or k == 0:
                got.append(at(T.X[k][0]))
                want.append(x)
            for j in range(1, len(ts)):
                x, z = L.flow(ctx, o, T, k, tk + T.h * ts[j - 1], tk + T.h * ts[j], x, P, T.theta[k], U)
                got.append(at(T.X[k][j] if scheme == "collocation" else T.X[k + 1][0]))
                want.append(x)
                if o.ny:
                    got.append(at(T.Y[k][j - 1]))
                    want.append(z)
    for v in flat(T.U):
        got.append(at(v))
        want.append(u0)
    for kk, i in enumerate(o.popt):
        got.append(at(T.res.p_opt)[kk])
        want.append(T.p[i])
    for kk, i in enumerate(o.thopt):
        for k in range(N):
            got.append(at(T.res.theta_opt[k])[kk])
            want.append(T.theta[k][i])
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.equal("guess part %d" % i, g, w)


def given(ctx, scheme="collocation", via="vector", **kw):
    """A guess supplied by the caller reaches the solver unchanged."""
    o = L.Ocp(ctx, **kw)
    from yaocptool.methods import DirectMethod
    m = DirectMethod(o.problem, degree=2, finite_elements=2, discretization_scheme=scheme)
    rec = hooks.NlpRecorder()
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        n, ng = m.opt_problem.x.numel(), m.opt_problem.g.numel()
        g, lx, lg = SX(ctx.arg("gv", n)), SX(ctx.arg("lxv", n)), SX(ctx.arg("lgv", ng))
        kw2 = dict(p=L._as(ctx, SX(ctx.arg("pv", o.np)) if o.np else SX(0, 1)),
                   theta={k: L._as(ctx, SX(0, 1)) for k in range(2)})
        if ctx.semi:
            rec.wmaker = lambda s, k: DM.zeros(k)
            g, lx, lg = DM(g), DM(lx), DM(lg)
        if via == "vector":
            m.solve(initial_guess=g, **kw2)
        else:
            m.solve(initial_guess_dict={"x": g, "lam_x": lx, "lam_g": lg}, **kw2)
    c = rec.solvers[-1].calls[-1]
    ctx.equal("initial point", SX(c["x0"]), SX(g))
    if via != "vector":
        ctx.require("multipliers passed", c.get("lam_x0") is not None and c.get("lam_g0") is not None,
                    "multipliers were dropped")
        if c.get("lam_x0") is not None and c.get("lam_g0") is not None:
            ctx.equal("bound multipliers", SX(c["lam_x0"]), SX(lx))
            ctx.equal("constraint multipliers", SX(c["lam_g0"]), SX(lg))


def scenarios(tier):
    M = "multiple-shooting"
    q = [
        ("col", dict()),
        ("col shifted poly control", dict(N=3, d=3, dc=2, t0=1.5, tf=4.0, nu=2)),
        ("col popt theta_opt", dict(N=3, np=3, popt=[2, 0], nth=2, thopt=[1])),
        ("col theta_opt unordered", dict(N=2, np=0, nth=3, thopt=[2, 0], ny=0)),
        ("col no algebraic two controls", dict(ny=0, nu=2, nx=3, d=4, N=1)),
        ("col no control", dict(nu=0)),
        ("col degree one", dict(d=1, N=2)),
        ("col twelve elements", dict(N=12, d=2, nth=2, thopt=[1], np=2, popt=[1], nx=1)),
        ("col degree seven", dict(N=2, d=7, dc=5, nx=1)),
        ("ms twelve elements", dict(N=12, nth=2, thopt=[1], np=2, popt=[1], nx=1, scheme=M)),
        ("ms", dict(scheme=M)),
        ("ms shifted poly control", dict(N=3, dc=2, t0=1.5, tf=4.0, nu=2, scheme=M)),
        ("ms popt theta_opt", dict(N=3, np=3, popt=[2, 0], nth=2, thopt=[1], scheme=M)),
        ("ms no control", dict(nu=0, scheme=M, nx=3)),
    ]
    g = [
        ("guess info col", dict(uguess=[0.4, 0.5], yguess=[0.7], nu=2, dc=2, N=5, d=3)),
        ("guess info col no guesses", dict(nu=2, ny=2, d=3, N=5)),
        ("guess info ms", dict(uguess=[0.4, 0.5], yguess=[0.7], nu=2, N=5, scheme=M)),
        ("guess info ms no guesses", dict(nu=2, ny=2, N=5, scheme=M)),
        ("guess info popt", dict(np=3, popt=[2, 0], nth=3, thopt=[2, 0], N=3)),
        ("guess info popt ms", dict(np=3, popt=[2, 0], nth=3, thopt=[2, 0], N=3, scheme=M)),
        ("guess sim col", dict(heuristic="simulation", uguess=[0.4], t0=1.0, tf=2.5)),
        ("guess sim col theta", dict(heuristic="simulation", nth=2, N=3, ny=0, nu=2)),
        ("guess sim col popt", dict(heuristic="simulation", np=2, popt=[1], nth=3, thopt=[2, 0], N=3, ny=0)),
        ("guess sim col twelve", dict(heuristic="simulation", nth=2, N=12, ny=0, nu=2, nx=1)),
        ("guess sim ms twelve", dict(heuristic="simulation", nth=2, N=12, ny=0, nu=2, nx=1, scheme=M)),
        ("guess info twelve", dict(np=2, popt=[1], nth=2, thopt=[0], N=12, nx=1)),
        ("guess sim col last_u", dict(heuristic="simulation", last_u=[0.2], delta=([-0.3], [0.4]))),
        ("guess sim col poly", dict(heuristic="simulation", dc=2, d=3, uguess=[0.4, 0.1], nu=2)),
        ("guess sim ms", dict(heuristic="simulation", uguess=[0.4], scheme=M, t0=1.0, tf=2.5)),
        ("guess sim ms theta", dict(heuristic="simulation", nth=2, N=3, ny=0, nu=2, scheme=M)),
        ("guess sim ms popt", dict(heuristic="simulation", np=3, popt=[2, 0], nth=3, thopt=[2, 0], N=3, ny=0, scheme=M)),
        ("guess sim ms poly", dict(heuristic="simulation", dc=2, uguess=[0.4, 0.1], nu=2, scheme=M, t0=1.0, tf=2.5)),
        ("guess sim ms last_u", dict(heuristic="simulation", last_u=[0.2], delta=([-0.3], [0.4]), scheme=M)),
    ]
    if tier == "thorough":
        for sc in ("collocation", M):
            for N in (1, 2, 4):
                for d in (1, 2, 4):
                    for dc in (1, 3):
                        q.append(("sweep %s N%d d%d dc%d" % (sc, N, d, dc), dict(
                            scheme=sc, N=N, d=d, dc=dc, nx=3, ny=2, nu=2, np=3, popt=[2, 0], nth=2, thopt=[1, 0],
                            t0=-1.0, tf=1.0 + N)))
                        for h in ("problem_info", "simulation"):
                            g.append(("guess sweep %s %s N%d d%d dc%d" % (h, sc, N, d, dc), dict(
                                scheme=sc, N=N, d=d, dc=dc, nx=3, ny=2, nu=2, np=3, nth=2, heuristic=h,
                                t0=-1.0, tf=1.0 + N, uguess=[0.3, -0.2], yguess=[0.1, 0.6])))
    out = [Scenario(n, decode, **k) for n, k in q] + [Scenario(n, guess, **k) for n, k in g]
    for sc in ("collocation", M):
        out.append(Scenario("given vector " + sc, given, scheme=sc))
        out.append(Scenario("given dict " + sc, given, scheme=sc, via="dict"))
    return out
