"""C07: polynomial approximations and the tau <-> time change of variable."""
import casadi as ca

from .. import hooks
from .. import ocplib as L
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "The functions building piecewise polynomials and the functions changing between element time tau and physical "
    "time are executed on symbols (tau, t, the interval ends and the node values are all symbolic).  z3 decides that "
    "the polynomial returned equals, for every tau and all node values, the interpolant through the Radau nodes (and "
    "0 when asked), that an expression converted between tau and t is the original one at t = t_k + tau (t_k+1 - t_k) "
    "for every interval, that conversions are mutually inverse, and that evaluating a discretised system at "
    "user-chosen times inside an element gives the interpolant (collocation) or the flow (multiple shooting) there.")
BOUNDS = ("degrees 1..6, sizes 0..3, intervals with symbolic ends, 1..3 elements, query times inside the elements; "
          "values in [-8,8]")
ASSUMPTIONS = ["Radau abscissae are CasADi's collocation_points(.., 'radau')",
               "t_k differs from t_{k+1}"]


def _ref(points, nodes, tau, size):
    Lg = L.lagrange(nodes, tau)
    return sum((Lg[j] * points[j] for j in range(len(nodes))), SX.zeros(size))


def _check_pol(ctx, name, pol, par, nodes, size, tau):
    """par is the vectorised matrix of node values (size rows, one column per node)."""
    n = len(nodes)
    ctx.require(name + " sizes", pol.numel() == size and par.numel() == size * n,
                "%s: pol %s par %s" % (name, pol.shape, par.shape))
    if size == 0 or par.numel() != size * n or pol.numel() != size:
        return
    v = SX.sym("v", size * n)
    f = ca.Function("pol", [tau, par], [pol])
    tv = SX.sym("tauv")
    ctx.equal(name, f(tv, v), _ref([v[j * size:(j + 1) * size] for j in range(n)], nodes, tv, size))
    for j in range(n):
        ctx.equal("%s at node %d" % (name, j), f(nodes[j], v), v[j * size:(j + 1) * size])


def method_poly(ctx, degree, size, at0):
    o = L.Ocp(ctx, nx=1, ny=0, nu=1, np=0, nth=0)
    from yaocptool.methods import DirectMethod
    m = DirectMethod(o.problem, degree=degree, finite_elements=2, discretization_scheme="collocation")
    for given in (False, True):
        tau = SX.sym("tau_user") if given else m.model.tau
        kw = dict(tau=tau) if given else {}
        pol, par = m.create_variable_polynomial_approximation(size, degree, name="q", point_at_t0=at0, **kw)
        nodes = ([0.0] if at0 else []) + L.radau(degree)
        if degree == 1 and not at0:
            nodes = [1.0]
        _check_pol(ctx, "method polynomial (own tau %s)" % given, pol, par, nodes, size, tau)
    nm = ["a%d" % i for i in range(size)]
    pol, par = m.create_variable_polynomial_approximation(size, degree, name=nm, point_at_t0=at0)
    ctx.require("names", [par[i].name().split("_")[0] for i in range(size)] == nm if size else True,
                "parameter names %s" % par)
    # vec / unvec round trip: column j of the matrix is the j-th node
    v = SX.sym("v", 3 * degree)
    mat = m.unvec(v, degree)
    ctx.require("unvec shape", mat.shape == (3, degree), str(mat.shape))
    for j in range(degree):
        ctx.equal("unvec column %d" % j, mat[:, j], v[3 * j:3 * j + 3])


def util_poly(ctx, degree, size, at0):
    from yaocptool.util import create_polynomial_approximation
    tau = SX.sym("tau")
    nodes = ([0.0] if at0 else []) + L.radau(degree)
    if degree == 1:
        nodes = [1.0]
    pol, par = create_polynomial_approximation(tau, size, degree, name="q", point_at_zero=at0)
    _check_pol(ctx, "util polynomial", pol, par, nodes, size, tau)


def conversion(ctx, kind, numeric):
    from yaocptool.modelling import DAESystem, SystemModel
    from yaocptool.util import convert_expr_from_tau_to_time
    m = SystemModel("m")
    x, y, u = m.create_state("x", 2), m.create_algebraic_variable("y"), m.create_control("u")
    if numeric:
        tk, tk1 = numeric
    else:
        tk, tk1 = SX.sym("tk"), SX.sym("tk1")
    h = tk1 - tk
    e = ca.vertcat(*[ctx.uf(5 + i, m.t, m.tau, x, y, u) for i in range(2)], m.t * 3 + m.tau * m.tau)
    f = ca.Function("e", [m.t, m.tau, x, y, u], [e])
    syms = [m.t, m.tau, x, y, u]
    tv, sv = SX.sym("tv"), SX.sym("sv")
    xv, yv, uv = SX.sym("xv", 2), SX.sym("yv"), SX.sym("uv")
    F = lambda g: ca.substitute(g, ca.vertcat(*syms), ca.vertcat(tv, sv, xv, yv, uv))  # noqa: E731

    def tau_of(t):
        return (t - tk) / h

    if kind == "model":
        a = m.convert_expr_from_tau_to_time(e, tk, tk1)
        b = m.convert_expr_from_time_to_tau(e, tk, tk1)
        ctx.equal("tau to time", F(a), f(tv, tau_of(tv), xv, yv, uv))
        ctx.equal("time to tau", F(b), f(sv * h + tk, sv, xv, yv, uv))
        ends = [(tk, 0.0), (tk1, 1.0)] if numeric else []
        for (t, s) in ends:
            ctx.equal("element ends", ca.substitute(m.convert_expr_from_tau_to_time(m.tau, tk, tk1), m.t, t), s)
            ctx.equal("element ends back", ca.substitute(m.convert_expr_from_time_to_tau(m.t, tk, tk1), m.tau, s), t)
        if numeric:
            e1 = ca.vertcat(ctx.uf(8, m.tau, x), m.tau)
            back = m.convert_expr_from_time_to_tau(m.convert_expr_from_tau_to_time(e1, tk, tk1), tk, tk1)
            ctx.equal("round trip", F(back), F(e1))
    elif kind == "util":
        a = convert_expr_from_tau_to_time(e, m.t, m.tau, tk, tk1)
        ctx.equal("tau to time", F(a), f(tv, tau_of(tv), xv, yv, uv))
    else:
        alg = ca.vertcat(ctx.uf(9, m.t, m.tau, x, y, u))
        d = DAESystem(x=x, y=y, p=u, ode=e[:2], alg=alg, t=m.t, tau=m.tau)
        fa = ca.Function("a", syms, [alg])
        d.convert_from_tau_to_time(tk, tk1)
        ctx.equal("ode", F(d.ode), f(tv, tau_of(tv), xv, yv, uv)[:2])
        ctx.equal("alg", F(d.alg), fa(tv, tau_of(tv), xv, yv, uv))
        ctx.require("no tau left", not d.depends_on(m.tau), "equations still depend on tau")


def at_times(ctx, scheme, d, N, dc, fracs, own=None, elements=None, from_start=False, **kw):
    """get_system_at_given_times: x, y, u and user functions at chosen times; `own`: the
    times of each kind (those not named are not asked for)."""
    own = own or dict.fromkeys(("x", "y", "u", "fun"), fracs)
    fracs = sorted({f for v in own.values() for f in v if f > 0})
    extra = dict(start_at_t_0=True) if from_start else {}
    o = L.Ocp(ctx, **kw)
    from yaocptool.methods import DirectMethod
    m = DirectMethod(o.problem, degree=d, finite_elements=N, degree_control=dc, discretization_scheme=scheme)
    with hooks.active(integrator=hooks.integrator_for(ctx)):
        m.prepare()
        h = (o.tf - o.t0) / N
        nodes = [0.0] + L.radau(d)
        nxt = m.model.n_x
        X = [[SX.sym("X%d_%d" % (k, j), nxt) for j in range(d + 1)] for k in range(N)]
        Y = [[SX.sym("Y%d_%d" % (k, j), o.ny) for j in range(d)] for k in range(N)]
        U = [[SX.sym("U%d_%d" % (k, j), o.nu) for j in range(dc)] for k in range(N)]
        p = SX.sym("pv", o.np)
        th = {k: SX.sym("th%d" % k, o.nth) for k in range(N)}
        g = ctx.uf(33, o.t, o.x, o.y, o.u, o.p, o.th)
        gm = ca.substitute(g, o.u, m.model.u_expr) if o.nu else g
        td, ft = {}, {}
        at = {(k, f): o.t0 + (k + f) * h for k in range(N) for v in own.values() for f in v}
        for k in elements or range(N):
            td[k] = {"t_0": o.t0 + k * h, "t_f": o.t0 + (k + 1) * h}
            td[k].update({q: [at[k, f] if f else td[k]["t_0"] for f in v] for q, v in own.items()})
        fn = {"fun": {k: ca.Function("fun%d" % k, m.model.all_sym, [ca.substitute(
            gm, m.model.tau, (m.model.t - td[k]["t_0"]) / h)]) for k in td}} if "fun" in own else {}
        shooting = scheme != "collocation"
        res = m.discretizer.get_system_at_given_times(X, Y, U, td, p, th, functions=fn, **extra)
        names = [m.model.x[i].name() for i in range(nxt)]
    T = L.Traj()
    xn = [o.x[i].name() for i in range(o.nx)]
    T.ui = [names.index(n) for n in xn]
    T.extra = [i for i in range(nxt) if i not in T.ui]
    T.N, T.d, T.dc, T.h, T.U, T.scheme = N, d, dc, h, U, scheme
    fg = o.fun(g)
    ctx.require("elements", sorted(res) == sorted(td), "elements %s" % sorted(res))
    for k in td:
        got = {q: list(res[k][q]) for q in own}
        ctx.require("count el %d" % k, all(len(got[q]) == len(own[q]) for q in own),
                    "values returned: %s" % {q: len(v) for q, v in got.items()})
        if any(len(got[q]) != len(own[q]) for q in own):
            continue
        pick = lambda q, f: got[q][own[q].index(f)] if f in own.get(q, ()) else None  # noqa: E731
        if pick("x", 0) is not None:
            ctx.equal("x el %d start" % k, pick("x", 0), X[k][0])
        if pick("u", 0) is not None:
            ctx.equal("u el %d start" % k, pick("u", 0), L.u_at(T, k, 0.0))
        ta, xa = o.t0 + k * h, X[k][0]
        for f in fracs:
            t = o.t0 + (k + f) * h
            if shooting:
                xt, yt = L.flow(ctx, o, T, k, ta, t, xa, p, th[k], U[k])
                if not from_start:
                    ta, xa = t, xt
            else:
                Lx, Ly = L.lagrange(nodes, f), L.lagrange(nodes[1:], f)
                if d == 1:
                    Ly = [1.0]
                xt = sum((Lx[j] * X[k][j] for j in range(d + 1)), SX.zeros(nxt))
                yt = sum((Ly[j] * Y[k][j] for j in range(d)), SX.zeros(o.ny))
            ut = L.u_at(T, k, f)
            for q, want in (("x", xt), ("y", yt), ("u", ut), ("fun", fg(t, xt[T.ui], yt, ut, p, th[k]))):
                if pick(q, f) is not None and (q != "y" or o.ny):
                    ctx.equal("%s el %d tau %g" % (q, k, f), pick(q, f), want)


def scenarios(tier):
    out = []
    degs = [1, 2, 3, 4, 7] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8]
    for d in degs:
        for at0 in (False, True):
            for s in ((2,) if tier == "quick" else (0, 1, 3)):
                out.append(Scenario("method polynomial d%d s%d zero=%s" % (d, s, at0), method_poly,
                                    degree=d, size=s, at0=at0))
                if not (d == 1 and at0):
                    out.append(Scenario("util polynomial d%d s%d zero=%s" % (d, s, at0), util_poly,
                                        degree=d, size=s, at0=at0))
    for s in (0,):
        out.append(Scenario("empty polynomial", util_poly, degree=3, size=s, at0=False))
    for kind in ("model", "util", "dae"):
        out.append(Scenario("conversion %s symbolic interval" % kind, conversion, kind=kind, numeric=None))
        for iv in ((0.0, 1.0), (-2.0, 0.5), (3.0, 7.5)):
            out.append(Scenario("conversion %s on %s" % (kind, iv), conversion, kind=kind, numeric=iv))
    fr = (0.2, 0.5, 0.75, 1.0)
    for scheme in ("collocation", "multiple-shooting"):
        cfg = [(2, 2, 1), (3, 2, 2)] if tier == "quick" else [(1, 2, 1), (2, 3, 2), (3, 2, 3), (4, 2, 2)]
        for (d, N, dc) in cfg:
            out.append(Scenario("at given times %s d%d N%d dc%d" % (scheme, d, N, dc), at_times, scheme=scheme,
                                d=d, N=N, dc=dc, fracs=fr, t0=1.0, tf=1.0 + 1.25 * N, nx=2, ny=1, nu=2, np=1, nth=1))
        out.append(Scenario("at different times " + scheme, at_times, scheme=scheme, d=2, N=2, dc=2, fracs=(), t0=1.0, tf=3.0, nx=2, ny=1,
                            nu=1, np=1, nth=1, own=dict(x=[0, 0.25, 0.5], y=[0.5, 1.0], u=[0, 0.3, 1.0], fun=[0.25, 0.75])))
        out.append(Scenario("at times of one element " + scheme, at_times, scheme=scheme, d=3, N=3, dc=1, fracs=(), t0=1.0, tf=4.0, nx=1,
                            ny=0, nu=2, np=0, nth=0, own=dict(x=[0.25, 0.5], u=[0.1, 0.25, 0.4]), elements=[1]))
        out.append(Scenario("at times of one kind " + scheme, at_times, scheme=scheme, d=2, N=2, dc=2, fracs=(), t0=1.0, tf=3.0, nx=1,
                            ny=1, nu=1, np=1, nth=1, own=dict(y=[0.25, 0.75], u=[0.5], x=[1.0])))
        out.append(Scenario("at times from the start " + scheme, at_times, scheme=scheme, d=2, N=2, dc=1, fracs=fr, t0=1.0, tf=3.5, nx=1,
                            ny=1, nu=1, np=0, nth=1, from_start=True))
    return out
