"""C09: declared equations keep their state; composition keeps every equation."""
import casadi as ca

from ..modlib import Ref, check_model, els, make, same_rows, same_symbols, vcat
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "SystemModel, its mixins and DAESystem are executed on symbols with arbitrary (uninterpreted) right-hand sides. "
    "Every way of declaring equations (lists, explicit state, der(x) == rhs, y == expr, batches, overriding) and of "
    "composing models (include_models, merge with connecting equations, connect with and without replacement, nested "
    "composition, parametrised submodels, DAESystem.join) is compared with the mathematical composition on the user's "
    "own symbols: z3 decides for all values that the vector field of every state is the declared one in the composed "
    "model's time, and that the algebraic equations have the same solutions.")
BOUNDS = "2..4 models of 1..3 states, 0..2 algebraics, 0..2 controls, parameters, thetas each; values in [-8,8]"
ASSUMPTIONS = ["models do not share variables unless connected"]


def declare(ctx, form):
    from yaocptool.modelling import SystemModel
    from yaocptool.modelling.utils import der
    m = SystemModel("m")
    r = Ref()
    r.t, r.tau = m.t, m.tau
    a, b = m.create_state("a", 2), m.create_state("b")
    y = m.create_algebraic_variable("y", 2)
    u = m.create_control("u")
    p = m.create_parameter("p", 2)
    th = m.create_theta("th")
    ar = [m.t, a, b, y, u, p, th]
    f = [ctx.uf(10 + i, *ar) for i in range(3)]
    g = [ctx.uf(20 + i, *ar) for i in range(2)]
    r.x, r.y, r.u, r.p, r.th = els(a) + els(b), els(y), els(u), els(p), els(th)
    r.ode, r.alg = f, g
    r.upar = r.uexpr = els(u)
    if form == "vector":
        m.include_equations(ode=vcat(f), alg=vcat(g))
    elif form == "list":
        m.include_equations(ode=list(f), alg=list(g))
    elif form == "out of order":
        m.include_equations(ode=f[2], x=b)
        m.include_equations(ode=vcat(f[:2]), x=a, alg=vcat(g))
    elif form == "reversed x":
        m.include_equations(ode=[f[2], f[1], f[0]], x=[b, a[1], a[0]], alg=vcat(g))
    elif form == "batches":
        m.include_equations(ode=vcat(f[:2]))
        m.include_equations(alg=g[0])
        m.include_equations(ode=f[2], x=b)
        m.include_equations(alg=g[1])
    elif form == "der":
        m.include_equations(der(b) == f[2], der(a) == vcat(f[:2]))
        m.include_equations(alg=vcat(g))
    elif form == "der scalar mixed":
        m.include_equations(der(a[1]) == f[1], y[0] == g[0], der(b) == f[2], y[1] == g[1], der(a[0]) == f[0])
        r.alg = [y[0] - g[0], y[1] - g[1]]
    elif form == "equality":
        m.include_equations(y[1] == g[1], y[0] == g[0])
        m.include_equations(ode=vcat(f))
        r.alg = [y[0] - g[0], y[1] - g[1]]
    elif form == "override":
        m.include_equations(ode=vcat(f), alg=vcat(g))
        h = ctx.uf(30, *ar)
        m.include_equations(ode=h, x=a[1])
        r.ode = [f[0], h, f[2]]
    check_model(ctx, form, m, r)


def matrix(ctx):
    """Matrix-shaped variables are vectorised column by column."""
    from yaocptool.modelling import SystemModel
    m = SystemModel("m")
    X = m.create_state("X", (2, 2))
    Y = m.create_algebraic_variable("Y", (1, 2))
    U = m.create_control("U", (2, 1))
    A = m.create_parameter("A", (2, 2))
    r = Ref()
    r.t, r.tau = m.t, m.tau
    E = ca.mtimes(A, X) + ca.mtimes(U, Y)
    m.include_equations(ode=ca.vec(E), alg=ca.vec(Y - ca.sum1(X)))
    r.x, r.y, r.u, r.p = els(X), els(Y), els(U), els(A)
    r.ode, r.alg = els(E), els(Y - ca.sum1(X))
    r.upar = r.uexpr = els(U)
    check_model(ctx, "matrix", m, r)


def included(ctx):
    """include_variables / include_state(ode=..) / include_algebraic(alg=..)."""
    from yaocptool.modelling import SystemModel
    m = SystemModel("m")
    s = {k: SX.sym(k, n) for k, n in (("a", 2), ("b", 1), ("y", 1), ("z", 2), ("u", 1), ("v", 1), ("p", 1), ("q", 2),
                                       ("th", 1))}
    ar = [m.t] + list(s.values())
    f = [ctx.uf(10 + i, *ar) for i in range(3)]
    g = [ctx.uf(20 + i, *ar) for i in range(3)]
    m.include_variables(x=s["a"], y=[s["y"]], u=[s["u"], s["v"]], p=[s["p"], s["q"]], theta=s["th"])
    m.include_state(s["b"], ode=f[2])
    m.include_algebraic(s["z"], alg=vcat(g[1:]))
    m.include_equations(ode=vcat(f[:2]), x=s["a"], alg=g[0])
    r = Ref()
    r.t, r.tau = m.t, m.tau
    r.x, r.y, r.u = els(s["a"]) + els(s["b"]), els(s["y"]) + els(s["z"]), els(s["u"]) + els(s["v"])
    r.p, r.th = els(s["p"]) + els(s["q"]), els(s["th"])
    r.ode, r.alg, r.upar, r.uexpr = f, g, list(r.u), list(r.u)
    check_model(ctx, "included", m, r)


def compose(ctx, how):
    a, ra = make(ctx, 100, "A", nx=2, ny=1, nu=2, np=1, nth=1)
    b, rb = make(ctx, 200, "B", nx=1, ny=2, nu=1, np=2, nth=0)
    c, rc = make(ctx, 300, "C", nx=3, ny=0, nu=0, np=0, nth=2)
    keep = [(a, ra.copy()), (b, rb.copy()), (c, rc.copy())]
    from yaocptool.modelling import SystemModel
    if how == "into empty":
        m = SystemModel("M")
        m.include_models([a, b, c])
        r = Ref()
        r.t, r.tau = m.t, m.tau
        for o in (ra, rb, rc):
            r.absorb(o)
    elif how == "one by one":
        m = SystemModel("M")
        r = Ref()
        r.t, r.tau = m.t, m.tau
        for mm, o in ((b, rb), (a, ra), (c, rc)):
            m.include_models(mm)
            r.absorb(o)
    elif how == "into another":
        m, r = make(ctx, 400, "M", nx=1, ny=1, nu=1, np=1, nth=1)
        m.merge([a, b])
        r.absorb(ra)
        r.absorb(rb)
    elif how == "connecting equations":
        m, r = make(ctx, 400, "M", nx=1, ny=1, nu=1, np=0, nth=0)
        e = ca.vertcat(a.u[0] - b.y[1], b.u[0] - a.y[0] * 2)
        m.merge([a, b], connecting_equations=e)
        r.absorb(ra)
        r.absorb(rb)
        r.alg = r.alg + els(e)
    elif how == "nested":
        i1, r1 = make(ctx, 400, "I", nx=1, ny=0, nu=1, np=1, nth=0)
        i1.merge([a])
        r1.absorb(ra)
        m = SystemModel("M")
        r = Ref()
        r.t, r.tau = m.t, m.tau
        m.include_models([c, i1])
        r.absorb(rc)
        r.absorb(r1)
        m.merge(b)
        r.absorb(rb)
        keep = [(i1, r1.copy())] + keep
    check_model(ctx, how, m, r)
    for i, (mm, rr) in enumerate(keep):
        check_model(ctx, "source %d of %s" % (i, how), mm, rr)


def connected(ctx, how):
    a, ra = make(ctx, 100, "A", nx=2, ny=2, nu=2, np=1, nth=1)
    b, rb = make(ctx, 200, "B", nx=1, ny=2, nu=3, np=1, nth=0)
    from yaocptool.modelling import SystemModel
    m = SystemModel("M")
    m.include_models([a, b])
    r = Ref()
    r.t, r.tau = m.t, m.tau
    r.absorb(ra)
    r.absorb(rb)
    if how == "scalar":
        m.connect(b.u[1], a.y[0])
        r.connect(b.u[1], a.y[0])
    elif how == "vector":
        m.connect(b.u[1:], a.y)
        r.connect(b.u[1:], a.y)
    elif how == "crossed":
        u = ca.vertcat(b.u[2], a.u[0])
        y = ca.vertcat(a.y[1], b.y[0])
        m.connect(u, y)
        r.connect(u, y)
    elif how == "replace":
        u = ca.vertcat(b.u[2], a.u[0])
        y = ca.vertcat(a.y[1], b.y[0])
        m.connect(u, y, replace=True)
        r.connect(u, y, replace=True)
    elif how == "twice":
        m.connect(a.u[1], b.y[0])
        m.connect(b.u[0], a.y[1], replace=True)
        r.connect(a.u[1], b.y[0])
        r.connect(b.u[0], a.y[1], replace=True)
    elif how == "then merged":
        m.connect(a.u[1], b.y[0])
        r.connect(a.u[1], b.y[0])
        m2, r2 = make(ctx, 500, "N", nx=1, ny=1, nu=1)
        m2.merge([m])
        r2.absorb(r)
        m2.connect(b.u[2], r2.y[0])
        r2.connect(b.u[2], r2.y[0])
        m, r = m2, r2
    check_model(ctx, how, m, r)


def parametrized(ctx, when):
    """A submodel whose controls are parametrised keeps its parametrisation."""
    a, ra = make(ctx, 100, "A", nx=2, ny=1, nu=2)
    b, rb = make(ctx, 200, "B", nx=1, ny=0, nu=1)
    k = SX.sym("k", 2)
    from yaocptool.modelling import SystemModel
    m = SystemModel("M")
    r = Ref()
    r.t, r.tau = m.t, m.tau
    ex = ca.vertcat(k[0] * a.x[0] + a.t, k[1] * a.tau)
    if when == "before":
        a.parametrize_control(a.u, ex, k)
        ra.parametrize(ra.u, ex, k)
        m.include_models([a, b])
        r.absorb(ra)
        r.absorb(rb)
    elif when == "feedback before":
        a.parametrize_control(a.u[0], -2 * a.x[1])
        ra.parametrize(ra.u[0], -2 * a.x[1])
        m.include_models([b, a])
        r.absorb(rb)
        r.absorb(ra)
    else:
        m.include_models([a, b])
        r.absorb(ra)
        r.absorb(rb)
        ex = ca.vertcat(k[0] * a.x[0] + m.t, k[1] * m.tau)
        m.parametrize_control(a.u, ex, k)
        r.parametrize(a.u, ex, k)
    check_model(ctx, when, m, r)
    for u in els(b.u):
        ctx.require("unparametrised stays free", not m.control_is_parametrized(u), "wrongly parametrised")
    ctx.require("parametrised flag", m.is_parametrized(), "not parametrised")
    for i, u in enumerate(els(a.u)):
        exp = not (when == "feedback before" and i == 1)
        ctx.require("control %d parametrised" % i, m.control_is_parametrized(u) == exp, "flag wrong")


def dae_join(ctx, case):
    from yaocptool.modelling import DAESystem
    def mk(k, n, ny, np, tau):
        t, x, y, p = SX.sym("t%d" % k), SX.sym("x%d" % k, n), SX.sym("y%d" % k, ny), SX.sym("p%d" % k, np)
        s = SX.sym("tau%d" % k) if tau else None
        ar = [t] + ([s] if tau else []) + [x, y, p]
        f = ca.vertcat(*[ctx.uf(10 * k + i, *ar) for i in range(n)])
        g = ca.vertcat(*[ctx.uf(10 * k + 5 + i, *ar) for i in range(ny)]) if ny else None
        kw = dict(x=x, ode=f, t=t)
        if ny:
            kw.update(y=y, alg=g)
        if np:
            kw["p"] = p
        if tau:
            kw["tau"] = s
        return DAESystem(**kw), t, x, y, p, s, f, (g if ny else SX(0, 1))
    cfg = {"dae dae": ((2, 1, 1), (1, 2, 2)), "ode dae": ((2, 0, 0), (1, 1, 1)), "dae ode": ((1, 1, 2), (2, 0, 1)),
           "ode ode": ((1, 0, 1), (2, 0, 0))}[case]
    for tau in (False, True):
        d1, t1, x1, y1, p1, s1, f1, g1 = mk(1, *cfg[0], tau)
        d2, t2, x2, y2, p2, s2, f2, g2 = mk(2, *cfg[1], tau)
        d1.join(d2)
        rt = lambda e: ca.substitute(ca.substitute(e, t2, t1), s2, s1) if tau else ca.substitute(e, t2, t1)  # noqa: E731
        n = "join tau=%s" % tau
        ctx.require(n + " variables", same_symbols(d1.x, ca.vertcat(x1, x2)) and same_symbols(d1.y, ca.vertcat(y1, y2))
                    and same_symbols(d1.p, ca.vertcat(p1, p2)), "variables of the joined system")
        ctx.equal(n + " ode", d1.ode, ca.vertcat(f1, rt(f2)))
        alg = els(g1) + els(rt(g2))
        same_rows(ctx, n + " alg", d1.alg, alg)
        ctx.require(n + " type", d1.is_dae == bool(alg) and d1.is_ode != d1.is_dae
                    and d1.has_parameters == bool(p1.numel() + p2.numel()), "type flags")
        ctx.require(n + " time", not d1.depends_on(t2) and d1.depends_on(t1), "time of the joined system")
        ctx.require(n + " variable lookup", d1.has_variable(x2) and d1.has_variable(t1)
                    and not d1.has_variable(SX.sym("other")), "has_variable")
        dd = d1.dae_system_dict
        ctx.require(n + " dictionary", set(dd) == {"x", "ode", "t"} | ({"z", "alg"} if alg else set())
                    | ({"p"} if d1.has_parameters else set()), str(list(dd)))
        ctx.equal(n + " dictionary ode", dd["ode"], ca.vertcat(f1, rt(f2)))
        # substitution reaches equations and variables
        nx = SX.sym("new", x2.numel())
        d1.substitute_variable(x2, nx)
        ctx.equal(n + " substituted ode", d1.ode, ca.substitute(ca.vertcat(f1, rt(f2)), x2, nx))
        ctx.require(n + " substituted variable", same_symbols(d1.x, ca.vertcat(x1, nx)), "x after substitution")


def scenarios(tier):
    out = [Scenario("declare " + f, declare, form=f) for f in (
        "vector", "list", "out of order", "reversed x", "batches", "der", "der scalar mixed", "equality", "override")]
    out += [Scenario("matrix variables", matrix), Scenario("included variables", included)]
    out += [Scenario("compose " + h, compose, how=h) for h in
            ("into empty", "one by one", "into another", "connecting equations", "nested")]
    out += [Scenario("connect " + h, connected, how=h) for h in
            ("scalar", "vector", "crossed", "replace", "twice", "then merged")]
    out += [Scenario("parametrised " + w, parametrized, when=w) for w in ("before", "feedback before", "after")]
    out += [Scenario("join " + c, dae_join, case=c) for c in ("dae dae", "ode dae", "dae ode", "ode ode")]
    return out
