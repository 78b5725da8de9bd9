"""C04: the NLP objective is terminal cost + integral cost + element costs."""
import casadi as ca

from .. import ocplib as L
from ..core import bounds
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "Same symbolic execution as C01/C02.  z3 proves that on every point satisfying the constraints the solver "
    "received, the objective it received equals V(x(tf),p) + integral of L + sum of S at the element ends, where "
    "the integral is the Radau quadrature of L (collocation) or the flow of the extra quadrature state (multiple "
    "shooting), for arbitrary V, L, S.  Quadratic costs are compared with symbolic references and weights.")
BOUNDS = "as C01/C02; quadratic cost for up to 3 states and 2 controls with fully symbolic Q, R, Qv, Rv, references"
ASSUMPTIONS = [
    "integrator contract stub for multiple shooting (see C02)",
    "real arithmetic; coefficients agree up to 1e-9; tolerance 1e-4 on |value|<=8",
]


def case(ctx, N=2, d=2, dc=1, scheme="collocation", mopts=None, **kw):
    o = L.Ocp(ctx, xb=False, yb=False, ub=False, **kw)
    T = L.transcribe(ctx, o, N=N, dc=dc, d=d, scheme=scheme, method_opts=mopts)
    h = T.h
    fV = ca.Function("fV", [o.x, o.p], [o.V])
    fL, fS = o.fun(o.L), o.fun(o.S)
    if scheme == "collocation":
        nodes = L.radau(d)
        b = L.radau_weights(d)
        J = fV(T.X[N - 1][d][T.ui], T.P)
        for k in range(N):
            tk = o.t0 + k * h
            for j in range(d):
                a = (tk + h * nodes[j], T.X[k][j + 1][T.ui], T.Y[k][j], L.u_at(T, k, nodes[j]), T.P, T.TH[k])
                J = J + h * b[j] * fL(*a)
            J = J + fS(tk + h, T.X[k][d][T.ui], T.Y[k][d - 1], L.u_at(T, k, 1.0), T.P, T.TH[k])
        hyps = T.nlp.rows()
    else:
        L.reference(ctx, o, T)
        ends = T.ends
        J = fV(T.X[N][0][T.ui], T.P)
        if len(T.extra) != 1:
            ctx.require("cost state", False, "expected one quadrature state")
            return
        if mopts and mopts.get("cost_as_a_sum"):
            # each element integrates its own share from zero; V is not part of it
            J = SX(0)
            for k in range(N):
                J = J + ends[k][0][T.extra[0]]
        else:
            J = J + ends[N - 1][0][T.extra[0]]
        for k in range(N):
            tk1 = o.t0 + (k + 1) * h
            J = J + fS(tk1, ends[k][0][T.ui], ends[k][1], L.u_at(T, k, 1.0), T.P, T.TH[k])
        hyps = T.nlp.rows()
    ctx.implies("objective", hyps, [(T.nlp.f, J, 0, 0)])
    # what the solver reports as objective is what the result carries
    ctx.equal("reported objective", T.res.objective_opt_problem, SX.sym("fval") * 0
              + T.res.raw_solution_dict["f"])


def quad(ctx, nx=2, nu=2, keys=("Q", "R", "Qv", "Rv", "x_ref", "u_ref"), via="ctor"):
    """Quadratic cost helper with symbolic weights and references."""
    from yaocptool.modelling import OptimalControlProblem, SystemModel
    m = SystemModel("m")
    x = m.create_state("x", nx)
    u = m.create_control("u", nu)
    m.include_equations(ode=ctx.ufv(10, nx, x, u))
    par = {}
    mk = lambda n, r, c: ca.reshape(ctx.arg(n, r * c), r, c)  # noqa: E731
    if "Q" in keys:
        par["Q"] = mk("Q", nx, nx)
    if "R" in keys:
        par["R"] = mk("R", nu, nu)
    if "Qv" in keys:
        par["Qv"] = mk("Qv", nx, nx)
    if "Rv" in keys:
        par["Rv"] = mk("Rv", nx, nx)
    if "x_ref" in keys:
        par["x_ref"] = ctx.arg("xr", nx)
    if "u_ref" in keys:
        par["u_ref"] = ctx.arg("ur", nu)
    x_r, u_r = par.get("x_ref", DM.zeros(nx)), par.get("u_ref", DM.zeros(nu))
    if via == "ctor":
        pr = OptimalControlProblem(m, x_0=DM.zeros(nx), obj=dict(par))
    else:
        pr = OptimalControlProblem(m, x_0=DM.zeros(nx))
        pr.create_quadratic_cost(dict(par))

    def q(v, W):
        s = SX(0)
        for i in range(v.numel()):
            for j in range(v.numel()):
                s = s + v[i] * W[i, j] * v[j]
        return s

    Lr, Vr = SX(0), SX(0)
    if "Q" in keys:
        Lr = Lr + q(x - x_r, par["Q"])
    if "R" in keys:
        Lr = Lr + q(u - u_r, par["R"])
    if "Qv" in keys:
        Vr = Vr + q(x - x_r, par["Qv"])
    if "Rv" in keys:
        Vr = Vr + q(x, par["Rv"])
    ctx.equal("running cost", pr.L, Lr)
    ctx.equal("terminal cost", pr.V, Vr)


def scenarios(tier):
    M = "multiple-shooting"
    q = [
        ("col L V", dict(d=3, N=2)),
        ("col L V S shifted", dict(d=2, N=3, S=True, t0=1.5, tf=4.0)),
        ("col only S", dict(d=2, N=3, S=True, cost=False, V=False)),
        ("col only V popt", dict(d=2, N=2, cost=False, np=2, popt=[1])),
        ("col polynomial control S", dict(d=3, N=2, dc=2, S=True, nu=2)),
        ("col theta", dict(d=2, N=3, nth=2, thopt=[1], S=True, ny=0)),
        ("col degree one", dict(d=1, N=2, S=True)),
        ("col degree four", dict(d=4, N=1, S=True, nx=3)),
        ("col numbers", dict(d=2, N=2, cost=1.5, V=-2, S=0.25)),
        ("col number L", dict(d=2, N=2, cost=2, V=True)),
        ("col twelve elements", dict(d=2, N=12, S=True, nx=1, nth=1)),
        ("col degree seven", dict(d=7, N=2, S=True, nx=1)),
        ("ms twelve elements", dict(N=12, S=True, nx=1, nth=1, scheme=M)),
        ("ms numbers", dict(N=2, cost=0.5, V=3, S=-1.25, scheme=M)),
        ("ms L V", dict(N=2, scheme=M)),
        ("ms L V S shifted", dict(N=3, scheme=M, S=True, t0=1.5, tf=4.0)),
        ("ms polynomial control", dict(N=2, scheme=M, dc=2, S=True, ny=0)),
        ("ms theta", dict(N=3, scheme=M, nth=2, thopt=[1], S=True, ny=0)),
    ]
    if tier == "thorough":
        for d in (1, 2, 3, 4, 5):
            for N in (1, 2, 4):
                q.append(("col sweep d%d N%d" % (d, N), dict(d=d, N=N, S=True, nx=3, ny=2, nu=2, np=2, popt=[0],
                                                             nth=1, t0=-1.0, tf=-1.0 + N)))
        for N in (1, 2, 4, 5):
            q.append(("ms sweep N%d" % N, dict(scheme=M, N=N, S=True, nx=3, ny=2, nu=2, np=2, popt=[0], nth=1)))
    out = [Scenario(n, case, **k) for n, k in q]
    out += [Scenario("quadratic all", quad, nx=3, nu=2),
            Scenario("quadratic method", quad, nx=2, nu=2, via="method"),
            Scenario("quadratic no refs", quad, nx=2, nu=1, keys=("Q", "R", "Qv")),
            Scenario("quadratic R only", quad, nx=2, nu=2, keys=("R", "u_ref")),
            Scenario("quadratic Qv only", quad, nx=2, nu=2, keys=("Qv", "x_ref"))]
    return out
