"""C16: solving uses exactly the values it is given; solves are independent."""
import casadi as ca

from .. import hooks
from .. import ocplib as L
from ..core import NeedNumbers, Structural
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "DirectMethod and IndirectMethod solve problems with arbitrary functions, with symbolic parameters, per-element "
    "parameters, initial states and last controls, given in every accepted form or left to their defaults; the numerical "
    "solver may return any point. z3 decides, for all values, that the problem it receives is the one with those values; "
    "that a second solve is the same as that of a fresh method (earlier solves leave nothing behind); that earlier "
    "results and the caller's arguments do not change; and that the result reports the values used.")
BOUNDS = "1..3 states, 0..1 algebraics, 1..2 controls, 0..3 parameters and thetas, 2..3 elements; histories of up to 3 solves"
ASSUMPTIONS = ["the transcription for given values is C01..C04", "values have the sizes the model declares"]


def listed(v):
    if isinstance(v, DM):
        return [float(v[i]) for i in range(v.numel())]
    raise NeedNumbers("a list of numbers")


def FORM(what):
    def f(call):
        c = dict(call)
        for w in what:
            k, how = w.split("=")
            if how == "list":
                c[k] = listed(c[k])
            elif how == "none":
                c.pop(k)
            elif how == "float":
                c[k] = float(c[k]) if isinstance(c[k], DM) else c[k]
            elif how == "reversed":
                c[k] = {i: c[k][i] for i in sorted(c[k], reverse=True)}
        return c
    return f


def forms(ctx, what=(), pass_last=None, pass_x0=True, scheme="collocation", N=2, d=2, opts=None, guess="given", **kw):
    """The problem solved is the one with the given values, in whatever form."""
    o = L.Ocp(ctx, **kw)
    T = L.transcribe(ctx, o, scheme=scheme, N=N, d=d, pass_last=pass_last, pass_x0=pass_x0, form=FORM(what),
                     method_opts=opts or {}, guess=guess)
    if pass_x0 is False or "x_0=none" in what:
        T.x0 = SX(o.x0_default)
    if "p=none" in what:
        T.p = SX.zeros(o.np)
    if "theta=none" in what:
        T.theta = {k: SX.zeros(o.nth) for k in range(N)}
    # values used: the given ones, except the optimised entries
    for i in range(o.np):
        if i not in o.popt:
            ctx.equal("reported p[%d]" % i, SX(T.res.p)[i], T.p[i])
    for k in range(N):
        for i in range(o.nth):
            if i not in o.thopt:
                ctx.equal("reported theta %d[%d]" % (k, i), SX(T.res.theta[k])[i], T.theta[k][i])
    ctx.equal("reported x_0", ca.vertcat(*[SX(ca.vertcat(T.res.x_0))[i] for i in T.ui]), T.x0)
    unchanged(ctx, "arguments unchanged", T.call, T.kept)
    T.P = ca.vertcat(*[SX(T.res.p)[i] if i in o.popt else T.p[i] for i in range(o.np)]) if o.np else SX(0, 1)
    T.TH = {k: (ca.vertcat(*[SX(T.res.theta[k])[i] if i in o.thopt else T.theta[k][i] for i in range(o.nth)]) if o.nth else SX(0, 1))
            for k in range(N)}
    ctx.same_set("problem", T.nlp.rows(), L.reference(ctx, o, T))


def unchanged(ctx, name, a, b):
    if isinstance(a, dict):
        ctx.require(name + " keys", list(a) == list(b), "%s instead of %s" % (list(a), list(b)))
        for k in b:
            if k in a:
                unchanged(ctx, "%s.%s" % (name, k), a[k], b[k])
    elif isinstance(a, list):
        ctx.require(name + " length", len(a) == len(b), "%d instead of %d" % (len(a), len(b)))
        for i, (p, q) in enumerate(zip(a, b)):
            unchanged(ctx, "%s[%d]" % (name, i), p, q)
    elif isinstance(a, (SX, DM)):
        ctx.require(name + " shape", a.shape == b.shape, "%s instead of %s" % (a.shape, b.shape))
        if a.shape == b.shape and a.numel():
            ctx.equal(name, ca.vec(SX(a)), ca.vec(SX(b)))
    else:
        ctx.require(name, a is b or a == b, "%s instead of %s" % (a, b))


def history(ctx, method="direct", scheme="collocation", n=2, last=False, heuristic="simulation", guess_last=False, **cfg):
    """Solve number k is the same as that of a fresh method; results stay as they were."""
    from yaocptool.methods import DirectMethod, IndirectMethod
    cls = DirectMethod if method == "direct" else IndirectMethod
    if last:
        cfg.update(delta=([-0.3] * cfg.get("nu", 1), [0.4] * cfg.get("nu", 1)))

    def new():
        o = L.Ocp(ctx, **cfg)
        kw = dict(degree=2, finite_elements=2, discretization_scheme=scheme, initial_guess_heuristic=heuristic)
        if last:
            kw["last_control_as_parameter"] = True
        return o, cls(o.problem, **kw)

    def val(name, n):
        return ctx.arg(name, n) if ctx.semi else ctx.input(name, n)

    def args(o, m, k):
        names = [m.model.x[i].name() for i in range(m.model.n_x)]
        xn = [o.x[i].name() for i in range(o.nx)]
        a = {}
        if o.np:
            a["p"] = L._as(ctx, SX(val("p%d" % k, o.np)))
        if o.nth:
            a["theta"] = {e: L._as(ctx, SX(val("th%d_%d" % (k, e), o.nth))) for e in range(2)}
        x0 = SX(val("x0_%d" % k, o.nx))
        if k % 2 == 0:
            a["x_0"] = L._as(ctx, ca.vertcat(*[x0[xn.index(q)] if q in xn else SX(0) for q in names]))
        if last:
            a["last_u"] = L._as(ctx, SX(val("lu%d" % k, o.nu)))
        return a

    def run(m, rec, a, k):
        rec.wmaker = lambda s, nn: (ctx.number("w%d" % k, nn, 1) if ctx.semi else SX(ctx.input("w%d" % k, nn)))
        return m.solve(**a)

    o, m = new()
    rec = hooks.NlpRecorder()
    done = []
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        for k in range(n):
            a = args(o, m, k)
            keep = L.snapshot(a)
            r = run(m, rec, a, k)
            done.append((a, keep, r, frozen(r)))
    calls = [(s, c) for s in rec.solvers for c in s.calls]
    ctx.require("one call per solve", len(calls) == n, "%d solver calls" % len(calls))
    for k, (a, keep, r, fz) in enumerate(done):
        unchanged(ctx, "arguments of solve %d" % k, a, keep)
        unchanged(ctx, "result of solve %d" % k, frozen(r), fz)
    for k in range(n):
        o2, m2 = new()
        rec2 = hooks.NlpRecorder()
        with hooks.active(nlpsol=rec2, qpsol=rec2, integrator=hooks.integrator_for(ctx)):
            m2.create_optimization_problem()
            r2 = run(m2, rec2, args(o2, m2, k), k)
        s2, c2 = rec2.solvers[-1], rec2.solvers[-1].calls[-1]
        s1, c1 = calls[k]
        for q in ("p", "x0", "lbx", "ubx", "lbg", "ubg", "lam_x0", "lam_g0"):
            if (c1.get(q) is None) != (c2.get(q) is None):
                ctx.require("solve %d passes %s" % (k, q), False, "%s: %s, by a fresh method: %s" % (q, c1.get(q), c2.get(q)))
            elif c1.get(q) is not None:
                unchanged(ctx, "solve %d %s" % (k, q), SX(c1[q]), SX(c2[q]))
        a1, a2 = hooks.Nlp(s1, call=[q is c1 for q in s1.calls].index(True), w=SX(c1_w(ctx, k, s1))), hooks.Nlp(s2, w=SX(c1_w(ctx, k, s2)))
        if a1.n == a2.n and a1.ng == a2.ng:
            ctx.equal("solve %d objective" % k, a1.f, a2.f)
            if a1.ng:
                ctx.equal("solve %d constraints" % k, a1.g, a2.g)
        else:
            ctx.require("solve %d size" % k, False, "%d/%d variables, %d/%d constraints" % (a1.n, a2.n, a1.ng, a2.ng))
        unchanged(ctx, "reported by solve %d" % k, done[k][3], frozen(r2))


def c1_w(ctx, k, s):
    return ctx.number("w%d" % k, s.prob["x"].numel(), 1) if ctx.semi else ctx.input("w%d" % k, s.prob["x"].numel())


def frozen(r):
    """What a result says, as an independent copy."""
    out = {}
    for a in ("x_data", "y_data", "u_data"):
        out[a] = L.snapshot([[SX(v) for v in el] for el in getattr(r, a)["values"]])
    out["p"] = SX(r.p) if r.p is not None else SX(0, 1)
    out["theta"] = {k: SX(v) for k, v in (r.theta or {}).items()}
    out["x_0"] = SX(ca.vertcat(r.x_0))
    return out


def at_given(ctx, pars, k, given):
    """The entries of the parameter vectors that held the given values in call k (their layout is the code's
    business; that the constraints read them there is decided by the other scenarios)."""
    def same(a, b):
        if a.is_constant() and b.is_constant():
            return abs(float(a) - float(b)) < 1e-12
        return bool(ca.is_equal(a, b, 6)) or bool(ca.is_equal(ca.simplify(a - b), SX(0), 2))
    where = []
    for i in range(given.numel()):
        hit = [j for j in range(pars[k].numel()) if j not in where and same(pars[k][j], given[i])]
        if not hit:
            raise Structural("the given value %s did not reach the solver" % given[i])
        where.append(hit[0])
    return [q[where] for q in pars]


def new_default(ctx):
    """The default initial state is the problem's at the time of the solve."""
    from yaocptool.methods import DirectMethod
    o = L.Ocp(ctx, nx=2, ny=0, nu=1, np=0, nth=0)
    m = DirectMethod(o.problem, degree=2, finite_elements=2)
    rec = hooks.NlpRecorder((lambda s, n: DM.zeros(n)) if ctx.semi else None)
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        m.solve()
        v = L._as(ctx, SX(ctx.arg("nx0", m.model.n_x)))
        o.problem.x_0 = v
        m.solve()
        m.solve(x_0=v + 1)
        m.solve()
    c = [SX(q["p"]) for s in rec.solvers for q in s.calls]
    ctx.require("calls", len(c) == 4, "%d calls" % len(c))
    c = at_given(ctx, c, 2, SX(v) + 1)
    ctx.equal("new default", c[1], SX(v))
    ctx.equal("explicit", c[2], SX(v) + 1)
    ctx.equal("default again", c[3], SX(v))


def new_last(ctx, scheme="collocation"):
    """The default last control is the problem's at the time of the solve; a given one is used for that solve only."""
    from yaocptool.methods import DirectMethod
    o = L.Ocp(ctx, nx=1, ny=0, nu=2, np=0, nth=0, delta=([-0.3, -0.2], [0.4, 0.5]))
    v = L._as(ctx, SX(ctx.arg("lu", 2)))
    o.problem.last_u = v
    m = DirectMethod(o.problem, degree=2, finite_elements=2, last_control_as_parameter=True, discretization_scheme=scheme)
    rec = hooks.NlpRecorder((lambda s, n: DM.zeros(n)) if ctx.semi else None)
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        m.solve()
        m.solve(last_u=v + 1)
        m.solve(x_0=L._as(ctx, SX(ctx.arg("nx0", m.model.n_x))))
        w = L._as(ctx, SX(ctx.arg("lw", 2)))
        o.problem.last_u = w
        m.solve()
        if ctx.semi:
            m.solve(last_u=listed(v))
        else:
            m.solve(last_u=[v[0], v[1]])
        m.solve()
    c = [SX(q["p"]) for s in rec.solvers for q in s.calls]
    ctx.require("calls", len(c) == 6, "%d calls" % len(c))
    c = at_given(ctx, c, 1, SX(v) + 1)
    for k, (name, want) in enumerate((("default", v), ("given", v + 1), ("default again", v), ("new default", w),
                                      ("given list", v), ("new default again", w))):
        ctx.equal("last control " + name, c[k], SX(want))
    ctx.equal("last control of the problem", SX(o.problem.last_u), SX(w))


def zero_values(ctx, scheme="collocation"):
    """Zeros that are given are used, not taken for a missing value."""
    from yaocptool.methods import DirectMethod
    o = L.Ocp(ctx, nx=1, ny=0, nu=1, np=1, nth=1, last_u=[3.0], delta=([-0.3], [0.4]))
    m = DirectMethod(o.problem, degree=1, finite_elements=1, discretization_scheme=scheme, last_control_as_parameter=True)
    rec = hooks.NlpRecorder((lambda s, n: DM.zeros(n)) if ctx.semi else None)
    one = DM([7.0])
    with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
        m.create_optimization_problem()
        n = m.model.n_x
        for a in (dict(p=one, theta={0: one}, x_0=DM.ones(n) * 7, last_u=one),
                  dict(p=DM(0), theta={0: DM(0)}, x_0=DM.zeros(n), last_u=DM(0)),
                  dict(p=[0], theta={0: DM(0)}, x_0=[0] * n, last_u=[0])):
            m.solve(**a)
    c = [SX(q["p"]) for s in rec.solvers for q in s.calls]
    ctx.require("calls", len(c) == 3, "%d calls" % len(c))
    ctx.equal("all sevens", c[0], SX.ones(c[0].shape) * 7)
    ctx.equal("all zeros", c[1], SX(c[0].shape[0], 1))
    ctx.equal("all zeros as lists", c[2], SX(c[0].shape[0], 1))


def options(ctx):
    """Options of one method do not reach another, nor the caller's dictionary."""
    from yaocptool.methods import DirectMethod
    mine = {"ipopt.max_iter": 7}
    keep = dict(mine)
    a = DirectMethod(L.Ocp(ctx, nx=1, ny=0, np=0).problem, degree=1, finite_elements=1, nlpsol_opts=mine)
    b = DirectMethod(L.Ocp(ctx, nx=1, ny=0, np=0).problem, degree=1, finite_elements=1)
    b.nlpsol_opts["ipopt.max_iter"] = 3
    c = DirectMethod(L.Ocp(ctx, nx=1, ny=0, np=0).problem, degree=1, finite_elements=1)
    ctx.require("caller's options", mine == keep, "%s" % mine)
    got = {}
    for n, m in (("a", a), ("b", b), ("c", c)):
        rec = hooks.NlpRecorder((lambda s, q: DM.zeros(q)) if ctx.semi else None)
        with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
            m.solve()
        got[n] = dict(rec.solvers[-1].opts or {})
    ctx.require("given options are used", got["a"].get("ipopt.max_iter") == 7 and got["b"].get("ipopt.max_iter") == 3,
                "%s" % got)
    ctx.require("options stay with their method", got["c"].get("ipopt.max_iter") not in (3, 7), "%s" % got["c"])


def refused(ctx):
    """Missing or mis-sized values are refused instead of replaced."""
    from yaocptool.methods import DirectMethod

    def go(name, cfg, kw, opts=None):
        o = L.Ocp(ctx, **cfg)
        m = DirectMethod(o.problem, degree=1, finite_elements=2, **(opts or {}))
        rec = hooks.NlpRecorder((lambda s, n: DM.zeros(n)) if ctx.semi else None)
        with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)):
            try:
                m.solve(**kw)
                ok = False
            except Exception as e:
                ok = not isinstance(e, (NameError, UnboundLocalError))
        ctx.require(name, ok and not any(s.calls for s in rec.solvers), "a solver was called")
    th = {0: DM([1]), 1: DM([2])}
    go("missing p", dict(nx=1, ny=0, np=1, nth=0), {})
    go("missing theta", dict(nx=1, ny=0, np=0, nth=1), {})
    go("missing p with optimised ones", dict(nx=1, ny=0, np=2, popt=[0], nth=0), {})
    go("theta of too few elements", dict(nx=1, ny=0, np=0, nth=1), dict(theta={0: DM([1])}))
    go("x_0 too short", dict(nx=2, ny=0, np=0, nth=0), dict(x_0=DM([1])))
    go("x_0 too long", dict(nx=2, ny=0, np=0, nth=1), dict(x_0=DM([1] * 9), theta=th))
    go("no last control", dict(nx=1, ny=0, np=0, nth=0), {}, dict(last_control_as_parameter=True))


def scenarios(tier):
    M = "multiple-shooting"
    big = dict(nx=2, ny=1, nu=1, np=2, nth=2)
    f = [
        ("vectors", dict(big)),
        ("lists", dict(big, what=["p=list", "x_0=list"])),
        ("lists shooting", dict(big, what=["p=list", "x_0=list"], scheme=M)),
        ("single p", dict(nx=1, ny=0, nu=1, np=1, nth=0, what=["p=float"])),
        ("default x_0", dict(big, pass_x0=False)),
        ("default x_0 shooting", dict(big, pass_x0=False, scheme=M)),
        ("theta any order", dict(big, N=3, what=["theta=reversed"])),
        ("theta of twelve elements", dict(nx=1, ny=0, nu=1, np=1, nth=2, N=12, what=["theta=reversed"])),
        ("theta of twelve elements shooting", dict(nx=1, ny=0, nu=1, np=1, nth=2, N=12, what=["theta=reversed"], scheme=M)),
        ("nothing to give", dict(nx=2, ny=0, nu=1, np=0, nth=0, what=["p=none", "theta=none"])),
        ("optimised p defaults", dict(nx=1, ny=1, nu=1, np=2, popt=[1, 0], nth=0, what=["p=none", "theta=none"])),
        ("optimised theta defaults", dict(nx=1, ny=0, nu=1, np=0, nth=2, thopt=[0, 1], what=["p=none", "theta=none"])),
        ("optimised among given", dict(nx=1, ny=1, nu=1, np=3, popt=[2, 0], nth=3, thopt=[1], N=3)),
        ("optimised among given shooting", dict(nx=1, ny=1, nu=1, np=3, popt=[2, 0], nth=3, thopt=[1], scheme=M)),
        ("optimised in a list", dict(nx=1, ny=0, nu=1, np=3, popt=[1], nth=0, what=["p=list"])),
        ("simulated guess", dict(nx=1, ny=0, nu=1, np=3, popt=[1], nth=2, thopt=[0], guess=None)),
        ("last control", dict(big, pass_last=True, delta=([-0.3], [0.4]), opts=dict(last_control_as_parameter=True))),
        ("last control list", dict(big, nu=2, pass_last=True, delta=([-0.3, -0.2], [0.4, 0.1]), what=["last_u=list"],
                                   opts=dict(last_control_as_parameter=True))),
        ("last control shooting", dict(big, pass_last=True, delta=([-0.3], [0.4]), scheme=M, opts=dict(last_control_as_parameter=True))),
        ("fixed initial state", dict(nx=2, ny=1, nu=1, np=1, nth=0, pass_x0=False, opts=dict(initial_condition_as_parameter=False))),
        ("fixed initial state shooting", dict(nx=2, ny=0, nu=1, np=0, nth=0, pass_x0=False, scheme=M, what=["p=none", "theta=none"],
                                              opts=dict(initial_condition_as_parameter=False))),
    ]
    small = dict(nx=1, ny=1, nu=1, np=2, nth=1)
    h = [
        ("direct", dict(small)), ("direct shooting", dict(small, scheme=M)),
        ("direct problem info", dict(small, heuristic="problem_info")),
        ("direct optimised", dict(small, popt=[1], nth=2, thopt=[0])),
        ("direct optimised shooting", dict(small, popt=[1], nth=2, thopt=[0], scheme=M)),
        ("direct last control", dict(small, last=True)),
        ("direct three", dict(nx=2, ny=0, nu=1, np=1, nth=0, n=3)),
    ]
    out = [Scenario("form " + n, forms, **k) for n, k in f] + [Scenario("history " + n, history, **k) for n, k in h]
    out += [Scenario("new default", new_default), Scenario("new last control", new_last), Scenario("new last control shooting", new_last, scheme="multiple-shooting"), Scenario("zeros", zero_values), Scenario("zeros shooting", zero_values, scheme="multiple-shooting"), Scenario("options", options), Scenario("refused", refused)]
    if tier == "thorough":
        for sc in ("collocation", M):
            for N in (1, 3):
                out.append(Scenario("form sweep %s %d" % (sc, N), forms, nx=2, ny=1, nu=2, np=3, popt=[1], nth=3, thopt=[2, 0],
                                    N=N, d=3, scheme=sc, what=["theta=reversed"]))
            out.append(Scenario("history long %s" % sc, history, scheme=sc, n=5, nx=2, ny=1, nu=1, np=2, nth=2, popt=[0], thopt=[1]))
    return out
