"""C20: equilibria, linearisations, matrix exponentials and vector helpers."""
import casadi as ca

from .. import hooks
from .. import ocplib as L
from ..core import NeedNumbers
from ..modlib import els, same_rows, same_symbols, vcat
from ..run import Scenario
from .c17 import quiet
from .c18 import exponential

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "find_equilibrium runs with the root finder replaced by a recorder that returns an arbitrary root: z3 decides for all "
    "equations that the residual is [f; g; additional] over [x; y; u] at t_0 and that the root is split into x, y, u. "
    "linearize runs at a symbolic point: the model obtained is x' = (df/dx) x + (df/du) u there. expm runs on a symbolic "
    "matrix over the integrator contract. The vector and theta helpers run on symbolic entries, for every list of positions "
    "within the bounds.")
BOUNDS = "1..3 states, 0..2 algebraics, 1..2 controls; vectors of 1..5 entries; matrices up to 3x3; 1..3 theta entries"
ASSUMPTIONS = ["the root finder returns a root of the residual it is given", "the integrator is exact"]


class Root:
    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, name, plugin, f, opts=None):
        outer = self

        class R:
            def __call__(self, *a, **k):
                if len(a) != 1 or k:
                    raise TypeError("root finder call")
                n = f.numel_in(0)
                r = SX.sym("root", n)
                outer.calls.append((f, SX(DM(a[0]) if not isinstance(a[0], SX) else a[0]), opts, r))
                return r
        return R()


def equilibrium(ctx, nx=2, ny=1, nu=1, aslist=True, guess=False, t0=0.0, options=False, tau=True, warm=False):
    from yaocptool.modelling import SystemModel
    m = SystemModel(name="m")
    x = m.create_state("x", nx)
    u = m.create_control("u", nu) if nu else SX(0, 1)
    y = m.create_algebraic_variable("y", ny) if ny else SX(0, 1)
    args = [m.t, *([m.tau] if tau else []), x, y, u]
    ode, alg = ctx.ufv(1, nx, *args), (ctx.ufv(21, ny, *args) if ny else SX(0, 1))
    add = ctx.ufv(41, nu, *args) if nu else SX(0, 1)
    m.include_equations(ode=ode, alg=alg) if ny else m.include_equations(ode=ode)
    kw = {}
    n = nx + ny + nu
    if guess:
        kw["guess"] = [0.3 + 0.1 * i for i in range(n)]
    if t0:
        kw["t_0"] = t0
    if options:
        kw["rootfinder_options"] = {"nlpsol": "ipopt"}
    rec = Root(ctx)
    if warm:        # an earlier search, with other conditions, at another time, before the model was edited
        with quiet(), hooks.active(rootfinder=Root(ctx)):
            m.find_equilibrium(els(ctx.ufv(61, nu, *args)) if nu else [], guess=[2.0] * n, t_0=t0 + 1.5)
        m.replace_variable(x[0], 2 * x[0] + 1)
        ode, alg = (ca.substitute(SX(e), x[0], 2 * x[0] + 1) for e in (ode, alg))
    with quiet(), hooks.active(rootfinder=rec):
        got = m.find_equilibrium(els(add) if aslist else add, **kw)
    ctx.require("one root problem", len(rec.calls) == 1, "%d root problems" % len(rec.calls))
    if len(rec.calls) != 1:
        return
    f, g, opts, r = rec.calls[0]
    ok = f.n_in() == 1 and f.numel_in(0) == n and g.numel() == n
    ctx.require("unknowns", ok, "%d unknowns" % f.numel_in(0))
    if not ok:
        return
    z = SX.sym("z", n)
    at = lambda e: ca.substitute(SX(e), ca.vertcat(m.t, m.tau, x, y, u), ca.vertcat(SX(t0), SX(0), z))  # noqa: E731
    same_rows(ctx, "residual", f(z), els(at(ca.vertcat(ode, alg, add))))
    ctx.equal("guess", g, SX(DM(kw.get("guess", [1] * n))))
    if options:
        ctx.require("options", opts == {"nlpsol": "ipopt"}, "options %s" % opts)
    ok = len(got) == 3 and [SX(q).numel() for q in got] == [nx, ny, nu]
    ctx.require("parts", ok, "parts %s" % [SX(q).shape for q in got])
    if ok:
        ctx.equal("root", ca.vertcat(*[ca.vec(SX(q)) for q in got]), r)
    # the model is unchanged
    ctx.equal("model kept", ca.vertcat(m.ode, m.alg), ca.vertcat(ode, alg))


def algebraic(ctx, nx=2, ny=2, nu=1, np=0, nth=0, guess=None, t=0.0, options=False, aslist=False, warm=False):
    """find_algebraic_variable solves alg(t, x, y, u, p, theta) = 0 for y at the given values."""
    from yaocptool.modelling import SystemModel
    m = SystemModel(name="m")
    x, y = m.create_state("x", nx), m.create_algebraic_variable("y", ny)
    u = m.create_control("u", nu) if nu else SX(0, 1)
    p = m.create_parameter("p", np) if np else SX(0, 1)
    th = m.create_theta("th", nth) if nth else SX(0, 1)
    alg = ctx.ufv(1, ny, m.t, x, y, u, p, th)
    m.include_equations(ode=x, alg=alg)
    V = [L._as(ctx, SX(ctx.arg(a, n))) if n else DM(0, 1) for a, n in (("xv", nx), ("uv", nu), ("pv", np), ("tv", nth))]
    kw = {}
    if aslist:
        if not SX(ca.vertcat(*V)).is_constant():
            raise NeedNumbers("lists of numbers")
    if np:
        kw["p"] = V[2] if not aslist else [float(q) for q in V[2].full().ravel()]
    if nth:
        kw["theta_value"] = V[3] if not aslist else [float(q) for q in V[3].full().ravel()]
    if guess is not None:
        kw["guess"] = guess
    if t:
        kw["t"] = t
    if options:
        kw["rootfinder_options"] = {"nlpsol": "ipopt"}
    rec = Root(ctx)
    if warm:
        with quiet(), hooks.active(rootfinder=Root(ctx)):
            m.find_algebraic_variable(DM([0.4] * nx), DM([0.1] * nu), t=t + 2.0, guess=[3] * ny,
                                      **{q: DM([0.7] * n) for q, n in (("p", np), ("theta_value", nth)) if n})
        m.replace_variable(x[0], 2 * x[0] + 1)
        alg = ca.substitute(SX(alg), x[0], 2 * x[0] + 1)
    with quiet(), hooks.active(rootfinder=rec):
        got = m.find_algebraic_variable(V[0], V[1], **kw)
    ok = len(rec.calls) == 1 and rec.calls[0][0].n_in() == 1 and rec.calls[0][0].numel_in(0) == ny
    ctx.require("root problem", ok, "%d root problems" % len(rec.calls))
    if not ok:
        return
    f, g, opts, r = rec.calls[0]
    z = SX.sym("z", ny)
    at = ca.substitute(SX(alg), ca.vertcat(m.t, x, y, u, p, th), ca.vertcat(SX(t), SX(V[0]), z, SX(V[1]), SX(V[2]), SX(V[3])))
    same_rows(ctx, "residual", f(z), els(at))
    ctx.equal("guess", g, SX(DM(guess if guess is not None else [1] * ny)))
    if options:
        ctx.require("options", opts == {"nlpsol": "ipopt"}, "options %s" % opts)
    ctx.equal("root", got, r)
    ctx.equal("model kept", m.alg, alg)


def linear(ctx, nx=2, nu=1, aslist=False, warm=False):
    from yaocptool.modelling import SystemModel
    m = SystemModel(name="tank")
    x, u = els(m.create_state("x", nx)), els(m.create_control("u", nu))
    f = []
    for i in range(nx):
        e = 0.3 * x[i] ** 3 - 0.7 * x[(i + 1) % nx] * x[i] + (0.2 + i) * x[(i + 1) % nx]
        for j, v in enumerate(u):
            e = e + (0.5 + 0.3 * j - 0.2 * i) * v * (1 + x[i]) + 0.4 * v ** 2 * x[(i + j) % nx]
        f.append(e)
    f = vcat(f)
    m.include_equations(ode=f)
    xb, ub = L._as(ctx, SX(ctx.arg("xb", nx))), L._as(ctx, SX(ctx.arg("ub", nu)))
    if aslist and not SX(ca.vertcat(xb, ub)).is_constant():
        raise NeedNumbers("lists of numbers")
    if warm:        # an earlier linearisation elsewhere, before the model was edited
        with quiet():
            m.linearize(DM([0.3] * nx), DM([0.2] * nu))
        m.replace_variable(u[0], 3 * u[0] - 1)
        f = ca.substitute(f, u[0], 3 * u[0] - 1)
    with quiet():
        lin = m.linearize([float(xb[i]) for i in range(nx)] if aslist else xb, [float(ub[i]) for i in range(nu)] if aslist else ub)
    ok = (lin.n_x, lin.n_u, lin.n_y, lin.n_p, lin.n_theta) == (nx, nu, 0, 0, 0) and lin.ode.numel() == nx
    ctx.require("sizes", ok, "states %d controls %d equations %d" % (lin.n_x, lin.n_u, lin.ode.numel()))
    if not ok:
        return
    at = lambda e: ca.substitute(e, ca.vertcat(*x, *u), ca.vertcat(SX(xb), SX(ub)))  # noqa: E731
    ctx.equal("linear equations", lin.ode, ca.mtimes(at(ca.jacobian(f, vcat(x))), lin.x) + ca.mtimes(at(ca.jacobian(f, vcat(u))), lin.u))
    ctx.require("name", lin.name == "linearized_tank", lin.name)
    ctx.equal("model kept", m.ode, f)
    ctx.require("own names", list(lin.x_names) == [q.name() for q in x] or len(set(lin.x_names)) == nx, "names %s" % lin.x_names)


def matexp(ctx, n=2):
    from yaocptool.util import expm
    if ctx.mode == "num":
        a = DM([[0.3 * i - 0.2 * j + 0.1 for j in range(n)] for i in range(n)])
        from scipy.linalg import expm as se
        with quiet():
            got = expm(a)
        ctx.equal("exponential", SX(got), SX(DM(se(a.full()))), eps=1e-4)
        return
    a = SX.sym("a", n, n)
    with quiet(), hooks.active(integrator=hooks.integrator_for(ctx, probes=True)):
        got = expm(a)
        want = exponential(ctx, a)
    ctx.equal("exponential", SX(got), want)


def removal(ctx, n=4, k=2):
    """Every list of k positions, also from the end, of a vector of n symbols."""
    from yaocptool.util import (find_variables_indices_in_vector, remove_variables_from_vector,
                                remove_variables_from_vector_by_indices)
    from itertools import permutations, product
    v = ctx.sym("v", n)
    for ind in product(range(-n, n), repeat=k):
        keep = [i for i in range(n) if i not in ind and i - n not in ind]
        got = remove_variables_from_vector_by_indices(list(ind), v)
        ctx.require("removed positions", same_symbols(got, vcat([v[i] for i in keep])), "%s removed from %d: %s" % (list(ind), n, got))
    for ind in permutations(range(n), k):
        w = vcat([v[i] for i in ind])
        ctx.require("positions", list(find_variables_indices_in_vector(w, v)) == list(ind), "positions of %s" % w)
        keep = [i for i in range(n) if i not in ind]
        ctx.require("removed", same_symbols(remove_variables_from_vector(w, v), vcat([v[i] for i in keep])), "%s removed" % w)
    for bad in (n, n + 1, -n - 1):
        try:
            got = remove_variables_from_vector_by_indices([0, bad], v)
        except ValueError:
            continue
        ctx.require("positions out of bounds", False, "position %d of %d accepted" % (bad, n))
    try:
        remove_variables_from_vector(ctx.sym("w"), v)
        ctx.require("unknown variable", False, "a variable that is not there was removed")
    except ValueError:
        pass
    # on expressions
    d = ctx.sym("d", n)
    e = ca.sin(d)
    ctx.equal("expressions", remove_variables_from_vector_by_indices([0], e), e[1:, 0] if n > 1 else SX(0, 1)) if n > 1 else None


def names(ctx):
    from yaocptool.util import find_variables_in_vector_by_name as find
    v = ca.vertcat(SX.sym("a"), SX.sym("ab"), SX.sym("b"), SX.sym("ba"), SX.sym("h_1"), SX.sym("h_12"))
    for q, ex, want in (("a", True, [0]), ("a", False, [0, 1]), (["b", "a"], True, [2, 0]), (["b", "a"], False, [2, 3, 0, 1]),
                        ("h_.", False, [4, 5]), ("h_.$", False, [4]), ("h_.", True, []), (".*b", False, [1, 2, 3]), ("zz", False, [])):
        got = find(q, v, exact=ex)
        ctx.require("variables named %s %s" % (q, ex), same_symbols(vcat(got), vcat([v[i] for i in want])), "%s" % got)


def thetas(ctx, ne=3, sizes=(1, 2)):
    from yaocptool.util import create_constant_theta, join_thetas
    parts = [{k: ctx.sym("th%d_%d" % (i, k), s) for k in range(ne)} if s else (None if i % 2 else {}) for i, s in enumerate(sizes)]
    got = join_thetas(*parts)
    real = [q for q in parts if q]
    ctx.require("keys", sorted(got) == (list(range(ne)) if real else []), "keys %s" % list(got))
    for k in range(ne if real else 0):
        ctx.equal("joined %d" % k, got[k], ca.vertcat(*[q[k] for q in real]))
    if len(real) > 1:
        short = dict(list(real[0].items())[:-1])
        if short:
            try:
                join_thetas(real[1], short)
                ctx.require("different lengths", False, "accepted")
            except ValueError:
                pass
    c = ctx.sym("c")
    for dim in (1, 3, (2, 1), (2, 2)):
        n = dim if isinstance(dim, int) else dim[0] * dim[1]
        if ctx.mode == "num":
            c = 1.7
        th = create_constant_theta(c, dim, ne)
        ctx.require("constant keys", sorted(th) == list(range(ne)), "keys %s" % list(th))
        for k in range(ne):
            ctx.require("constant shape", SX(th[k]).shape == (n, 1), "shape %s" % (SX(th[k]).shape,))
            ctx.equal("constant %d" % k, SX(th[k]), SX(c) * SX.ones(n, 1))


def kinds(ctx):
    from yaocptool.util import is_equality, is_inequality
    x, X = SX.sym("x"), ca.MX.sym("x")
    for v in (x, X):
        t = type(v).__name__
        for nm, e, eq, ineq in (("le", v <= 1, 0, 1), ("lt", v < 1, 0, 1), ("ge", v >= 1, 0, 1), ("eq", v == 1, 1, 0),
                                ("sum", v + 1, 0, 0), ("symbol", v, 0, 0), ("product", v * v, 0, 0), ("ne", v != 1, 0, 0)):
            ctx.require("%s %s" % (t, nm), (bool(is_equality(e)), bool(is_inequality(e))) == (bool(eq), bool(ineq)), "%s" % e)
    for q in (1.0, DM(1), None):
        ctx.require("number %s" % type(q).__name__, not is_equality(q) and not is_inequality(q), "%s" % q)


def scenarios(tier):
    E = [("", dict()), ("no algebraic", dict(ny=0)), ("two controls", dict(nu=2, aslist=False)), ("at a time", dict(t0=1.5)),
         ("no controls", dict(nu=0)), ("states only", dict(nu=0, ny=0, guess=True)), ("no controls vector", dict(nu=0, ny=2, aslist=False)),
         ("guess", dict(guess=True, ny=2)), ("options", dict(nx=1, options=True)), ("again", dict(warm=True, nu=2)), ("again without controls", dict(warm=True, nu=0, t0=0.5)), ("vector", dict(aslist=False, nx=3, ny=2, nu=2, guess=True, t0=0.7))]
    A = [("", dict()), ("no controls", dict(nu=0, ny=1)), ("parameters", dict(np=2, nth=1)), ("lists", dict(np=2, nth=2, aslist=True, guess=[0.3, 0.4])),
         ("again", dict(warm=True, np=2, nth=1)), ("at a time", dict(t=1.5, nu=2, guess=DM([2, 3]), options=True))]
    LN = [("", dict()), ("one state", dict(nx=1)), ("two controls", dict(nu=2)), ("lists", dict(nx=3, aslist=True)), ("again", dict(nu=2, warm=True))]
    R = [(1, 1), (2, 1), (3, 2), (4, 2), (4, 3)]
    T = [(1,), (1, 2), (2, 0, 1), (0, 2, 0, 1), (0, 0), (1, 1, 1)]
    if tier == "thorough":
        E += [("large", dict(nx=4, ny=3, nu=3, guess=True, t0=-2.0))]
        LN += [("large", dict(nx=4, nu=3))]
        R += [(5, 3), (5, 4)]
    return [Scenario(("equilibrium " + n).strip(), equilibrium, **k) for n, k in E] + \
        [Scenario(("algebraic " + n).strip(), algebraic, **k) for n, k in A] + \
        [Scenario(("linearize " + n).strip(), linear, **k) for n, k in LN] + \
        [Scenario("exponential %d" % n, matexp, n=n) for n in (1, 2, 3)] + \
        [Scenario("removal of %d from %d" % (b, a), removal, n=a, k=b) for a, b in R] + \
        [Scenario("names", names), Scenario("kinds of constraint", kinds)] + \
        [Scenario("thetas %s" % (t,), thetas, sizes=t, ne=3) for t in T] + [Scenario("thetas of twelve elements", thetas, ne=12, sizes=(1, 2)), Scenario("thetas of one element", thetas, ne=1, sizes=(2, 1))]
