"""C10: rewriting a model rewrites all of it, and copies are independent."""
import casadi as ca

from ..modlib import Ref, check_model, els, make, same_rows, same_symbols, vcat
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "Models with arbitrary equations are rewritten through the public API (replace_variable, parametrize_control, "
    "remove_*, connect, include_*) and copied (get_copy, get_deepcopy), on symbols.  The result is compared with the "
    "mathematical substitution / removal / renaming on the user's symbols; z3 decides equality of every vector-field "
    "component, control expression and algebraic system for all values.  For copies, one of the two is changed in "
    "every supported way and the other is proved unchanged; for deep copies the renamed copy is proved to have the "
    "same equations over symbols disjoint from the original's.")
BOUNDS = "models of 2..3 states, 0..2 algebraics, 2..3 controls, parameters and thetas, 1..3 successive operations"
ASSUMPTIONS = ["replacement expressions are arbitrary functions or affine feedback of the model's variables"]


def base(ctx, **kw):
    d = dict(nx=2, ny=2, nu=3, np=2, nth=1)
    d.update(kw)
    return make(ctx, 100, "A", **d)


def replace(ctx, what):
    m, r = base(ctx)
    q = SX.sym("q", 2)
    if what == "parameter by expression":
        a, b = m.p[0], ctx.uf(5, m.t, m.x, m.p[1])
    elif what == "state by expression":
        a, b = m.x[1], 2 * m.x[0] + m.t
    elif what == "vector":
        a, b = m.p, ca.vertcat(m.x[0] * 3, m.theta + m.p[0])
    elif what == "swap":
        a, b = m.p, ca.vertcat(m.p[1], m.p[0])
    elif what == "time":
        a, b = m.t, 2 * m.t + 1
    elif what == "control":
        a, b = m.u[1], m.x[0] - m.u[0]
    elif what == "two controls":
        a, b = ca.vertcat(m.u[2], m.u[0]), ca.vertcat(m.u[0] * 2, m.x[1] * m.p[0])
    elif what == "algebraic":
        a, b = m.y[1], ctx.uf(6, m.x, m.u)
    a, b = SX(a), SX(b)
    m.replace_variable(a, b)
    r.subs(a, b)
    check_model(ctx, "replace " + what, m, r)


def replace_refused(ctx):
    m, r = base(ctx)
    for n, (a, b) in {"longer": (m.p[0], m.x), "shorter": (m.x, m.p[0])}.items():
        try:
            m.replace_variable(a, b)
            ok = False
        except ValueError:
            ok = True
        ctx.require("refuses " + n, ok, "sizes differ but the replacement was accepted")
    check_model(ctx, "after refusal", m, r)


def parametrize(ctx, what):
    m, r = base(ctx)
    k = SX.sym("k", 3)

    def do(u, e, kp=None):
        u, e = SX(u), SX(e)
        m.parametrize_control(u, e, kp) if kp is not None else m.parametrize_control(u, e)
        r.parametrize(u, e, kp)

    if what == "all polynomial":
        do(m.u, k * m.tau + 1, k)
        par = [1, 1, 1]
    elif what == "one":
        do(m.u[1], k[0] * m.tau, k[0])
        par = [0, 1, 0]
    elif what == "feedback":
        do(m.u[2], -3 * m.x[0] + m.p[1])
        par = [0, 0, 1]
    elif what == "one by one reversed":
        do(m.u[2], k[2] * m.x[0], k[2])
        do(m.u[0], k[0] + k[1] * m.tau, k[:2])
        par = [1, 0, 1]
    elif what == "permuted":
        do(ca.vertcat(m.u[2], m.u[0]), ca.vertcat(k[0] * m.t, k[1] * m.x[1]), k[:2])
        par = [1, 0, 1]
    elif what == "arbitrary law":
        do(m.u[0], ctx.uf(7, m.t, m.tau, m.x, m.y, m.p, m.theta, k), k)
        par = [1, 0, 0]
    check_model(ctx, "parametrise " + what, m, r)
    for i in range(3):
        ctx.require("flag %d" % i, bool(m.control_is_parametrized(r.u[i])) == bool(par[i]), "flag of control %d" % i)
    ctx.require("model flag", m.is_parametrized(), "is_parametrized")
    i = par.index(1)
    try:
        m.parametrize_control(r.u[i], SX(1))
        ok = False
    except ValueError:
        ok = True
    ctx.require("twice refused", ok, "a control was parametrised twice")


def remove(ctx, what):
    m, r = base(ctx, nx=3)
    if what == "control middle":
        m.remove_control(m.u[1]); r.drop("u", [r.u[1]])
    elif what == "controls first last":
        v = ca.vertcat(m.u[2], m.u[0]); m.remove_control(v); r.drop("u", els(v))
    elif what == "all controls":
        v = m.u; m.remove_control(v); r.drop("u", els(v))
    elif what == "state first":
        v = m.x[0]; m.remove_state(v); r.drop("x", [v])
    elif what == "states":
        v = ca.vertcat(m.x[2], m.x[0]); m.remove_state(v); r.drop("x", els(v))
    elif what == "algebraic":
        v, e = m.y[0], m.alg[0]; m.remove_algebraic(v, e); r.drop("y", [v]); r.alg = r.alg[1:]
    elif what == "algebraic last":
        v, e = m.y[1], m.alg[1]; m.remove_algebraic(v, e); r.drop("y", [v]); r.alg = r.alg[:1]
    elif what == "parameter":
        v = m.p[0]; m.remove_parameter(v); r.drop("p", [v])
    elif what == "theta":
        v = m.theta; m.remove_theta(v); r.drop("th", els(v))
    elif what == "after parametrise":
        k = SX.sym("k")
        m.parametrize_control(m.u[2], k * m.x[0], k)
        r.parametrize(r.u[2], k * m.x[0], k)
        v = r.u[0]; m.remove_control(v); r.drop("u", [v])
    # the equations still mention the removed symbol, so closedness is not required here
    for a, b, n in ((m.x, r.x, "x"), (m.y, r.y, "y"), (m.u, r.u, "u"), (m.p, r.p, "p"), (m.theta, r.th, "theta"),
                    (m.u_par, r.upar, "u_par")):
        ctx.require("%s: %s" % (what, n), same_symbols(a, vcat(b)), "%s = %s instead of %s" % (n, a, vcat(b)))
    ctx.equal("ode", m.ode, vcat(r.ode))
    same_rows(ctx, "alg", m.alg, r.alg)
    if r.u:
        ctx.equal("control expressions", m.u_expr, vcat(r.uexpr))
    ctx.require("initial-condition symbols", m.x_0.numel() == m.n_x, "x_0 has %d entries for %d states"
                % (m.x_0.numel(), m.n_x))
    try:
        bad = SX.sym("stranger")
        getattr(m, {"x": "remove_state"}.get("x"))(bad)
        ok = False
    except (ValueError, KeyError):
        ok = True
    ctx.require("unknown refused", ok, "removing an unknown variable was accepted")


OPS = {
    "include state": lambda ctx, m, r: _inc_state(ctx, m, r),
    "override ode": lambda ctx, m, r: _override(ctx, m, r),
    "replace": lambda ctx, m, r: (m.replace_variable(m.p[0], m.x[0] * 2), r.subs(r.p[0], r.x[0] * 2)),
    "replace everywhere": lambda ctx, m, r: (m.replace_variable(m.t, m.t + 3), r.subs(r.t, r.t + 3)),
    "parametrise": lambda ctx, m, r: _par(ctx, m, r),
    "remove control": lambda ctx, m, r: (m.connect(m.u[0], m.y[0], replace=True), r.connect(r.u[0], r.y[0], replace=True)),
    "connect": lambda ctx, m, r: (m.connect(m.u[1], m.y[0]), r.connect(r.u[1], r.y[0])),
    "merge": lambda ctx, m, r: _merge(ctx, m, r),
    "include alg": lambda ctx, m, r: _incalg(ctx, m, r),
    "remove state": lambda ctx, m, r: (m.replace_variable(m.x[1], SX(1)), r.subs(r.x[1], SX(1)),
                                       m.remove_state(m.x[1]), r.drop("x", [r.x[1]])),
}


def _inc_state(ctx, m, r):
    z = SX.sym("z")
    e = ctx.uf(61, m.t, m.x, z)
    m.include_state(z, ode=e)
    r.x, r.ode = r.x + [z], r.ode + [e]


def _override(ctx, m, r):
    e = ctx.uf(62, m.t, m.x)
    m.include_equations(ode=e, x=m.x[0])
    r.ode = [e] + r.ode[1:]


def _par(ctx, m, r):
    k = SX.sym("k")
    m.parametrize_control(m.u[2], k * m.tau, k)
    r.parametrize(r.u[2], k * r.tau, k)


def _merge(ctx, m, r):
    b, rb = make(ctx, 300, "B", nx=1, ny=1, nu=1)
    m.merge([b])
    r.absorb(rb)


def _incalg(ctx, m, r):
    z = SX.sym("zz")
    e = ctx.uf(63, m.x, z)
    m.include_algebraic(z, alg=e)
    r.y, r.alg = r.y + [z], r.alg + [e]


def copies(ctx, op, side):
    m, r = base(ctx)
    c = m.get_copy()
    rc = r.copy()
    check_model(ctx, "fresh copy", c, rc)
    if side == "copy":
        OPS[op](ctx, c, rc)
    else:
        OPS[op](ctx, m, r)
    check_model(ctx, "%s: copy" % op, c, rc)
    check_model(ctx, "%s: original" % op, m, r)


def copy_of_parametrized(ctx):
    m, r = base(ctx)
    _par(ctx, m, r)
    c = m.get_copy()
    rc = r.copy()
    k2 = SX.sym("k2")
    c.parametrize_control(c.u[0], k2 * c.x[0], k2)
    rc.parametrize(rc.u[0], k2 * rc.x[0], k2)
    check_model(ctx, "copy", c, rc)
    check_model(ctx, "original", m, r)
    ctx.require("flags", c.control_is_parametrized(r.u[0]) and not m.control_is_parametrized(r.u[0])
                and c.control_is_parametrized(r.u[2]) and m.control_is_parametrized(r.u[2]), "parametrisation flags")


def rename(r, c):
    """r over the symbols of the deep copy c (position by position)."""
    old = [r.t, r.tau] + r.x + r.y + r.u + r.p + r.th
    new = [c.t, c.tau] + els(c.x) + els(c.y) + els(c.u) + els(c.p) + els(c.theta)
    up_old, up_new = r.upar, els(c.u_par)
    if len(old) != len(new) or len(up_old) != len(up_new):
        return None
    n = Ref()
    n.t, n.tau = c.t, c.tau
    o2, n2 = list(old), list(new)
    for a, b in zip(up_old, up_new):
        if not any(ca.is_equal(a, q) for q in old):
            o2.append(a)
            n2.append(b)
    f = lambda lst: [ca.substitute(e, vcat(o2), vcat(n2)) for e in lst]  # noqa: E731
    n.x, n.y, n.u, n.p, n.th, n.upar = els(c.x), els(c.y), els(c.u), els(c.p), els(c.theta), f(r.upar)
    n.ode, n.alg, n.uexpr = f(r.ode), f(r.alg), f(r.uexpr)
    return n


def deep(ctx, kind):
    if kind == "plain":
        m, r = base(ctx, tau=False)
    elif kind == "tau":
        m, r = base(ctx)
    elif kind == "ode":
        m, r = base(ctx, ny=0, nth=0)
    elif kind == "no control":
        m, r = base(ctx, nu=0)
    elif kind == "no parameters":
        m, r = base(ctx, np=0, nth=0)
    elif kind == "wide":
        m, r = base(ctx, nx=11, ny=3, nu=12, np=11, nth=3)
    elif kind == "prefix":
        m, r = base(ctx, prefix=True)
    elif kind == "parametrised":
        m, r = base(ctx)
        _par(ctx, m, r)
    r0 = r.copy()
    c = m.get_deepcopy()
    n = rename(r, c)
    ctx.require("sizes", n is not None, "the copy has different numbers of variables")
    if n is None:
        return
    check_model(ctx, "deep copy", c, n)
    mine = ca.vertcat(m.t, m.tau, *[vcat(els(v)) for v in (m.x, m.y, m.u, m.p, m.theta, m.u_par)])
    shared = [s.name() for s in ca.symvar(ca.vertcat(SX(c.ode), SX(c.alg), SX(c.u_expr), vcat(els(c.x))))
              if any(ca.is_equal(s, q) for q in els(mine))]
    ctx.require("independent symbols", not shared, "symbols shared with the original: %s" % shared)
    ctx.require("names", list(c.x_names) == list(m.x_names) and list(c.u_names) == list(m.u_names)
                and list(c.p_names) == list(m.p_names), "names %s instead of %s" % (c.x_names, m.x_names))
    check_model(ctx, "original", m, r0)
    if kind == "parametrised":
        ctx.require("flags", c.is_parametrized() and c.control_is_parametrized(c.u[2])
                    and not c.control_is_parametrized(c.u[0]), "parametrisation of the copy")
    elif n.u:
        _par(ctx, c, n)
        check_model(ctx, "changed deep copy", c, n)
        check_model(ctx, "original after change", m, r0)


def lookup(ctx):
    m, r = base(ctx)
    a = m.create_state("level")
    b = m.create_state("level_b")
    for s in r.x + r.y + r.u + r.p + r.th + [a, b]:
        ctx.require("has " + s.name(), m.has_variable(s), "has_variable false")
    c = SX.sym("gain")
    law = r.u[0]
    m.parametrize_control(m.u[0], c * m.x[0], c)
    ctx.require("has parametrised control", m.has_variable(law), "a parametrised control is still in the model")
    ctx.require("has control parameter", m.has_variable(c), "the parameter of a control law is in the model")
    ctx.require("has vector", m.has_variable(ca.vertcat(r.u[1], r.x[0], r.y[1])), "variables of the model")
    ctx.require("stranger in a vector", not m.has_variable(ca.vertcat(r.x[0], SX.sym("level"))), "a vector with a stranger is not in the model")
    ctx.require("stranger", not m.has_variable(SX.sym("level")), "an equally named stranger is not in the model")
    ctx.require("by name", ca.is_equal(m.get_variable_by_name("level_b"), b), "get_variable_by_name")
    ctx.require("by type", ca.is_equal(m.get_variable_by_name("A_u_1", "u"), r.u[1]), "get_variable_by_name with type")
    got = m.get_variables_by_names(["A_p_1", "A_x_0"])
    ctx.require("several", len(got) == 2 and {g.name() for g in got} == {"A_p_1", "A_x_0"}, str(got))
    for n in ("nothing", "A_x_.*"):
        try:
            m.get_variable_by_name(n)
            ok = False
        except ValueError:
            ok = True
        ctx.require("refuses " + n, ok, "ambiguous or unknown name accepted")


def scenarios(tier):
    out = [Scenario("replace " + w, replace, what=w) for w in (
        "parameter by expression", "state by expression", "vector", "swap", "time", "control", "two controls",
        "algebraic")]
    out.append(Scenario("replace refused", replace_refused))
    out += [Scenario("parametrise " + w, parametrize, what=w) for w in (
        "all polynomial", "one", "feedback", "one by one reversed", "permuted", "arbitrary law")]
    out += [Scenario("remove " + w, remove, what=w) for w in (
        "control middle", "controls first last", "all controls", "state first", "states", "algebraic",
        "algebraic last", "parameter", "theta", "after parametrise")]
    out += [Scenario("copy, change the %s: %s" % (s, o), copies, op=o, side=s) for o in OPS for s in ("copy", "original")]
    out.append(Scenario("copy of parametrised", copy_of_parametrized))
    out += [Scenario("deep copy " + k, deep, kind=k) for k in (
        "plain", "tau", "ode", "no control", "no parameters", "wide", "prefix", "parametrised")]
    out.append(Scenario("lookup", lookup))
    return out
