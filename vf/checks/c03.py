"""C03: every declared constraint reaches the NLP at its instants, and nothing else."""
import casadi as ca

from .. import core, ocplib as L
from ..run import Scenario

EXPLANATION = (
    "Problems with bounds, path equalities/inequalities ('start', 'end', 'default'), terminal and "
    "time-independent equalities, control-rate limits and optimised parameters are built through the public "
    "API with arbitrary (uninterpreted) constraint functions and transcribed by the real code; z3 proves the "
    "constraint set received by the numerical solver equivalent, row by row in both directions, to the declared "
    "constraints evaluated at the documented instants.")
BOUNDS = ("up to 3 states, 2 algebraics, 2 controls, 3 path constraints of each kind, 1..4 elements, degree 2..4; "
          "values in [-8,8], tolerance 1e-4")
ASSUMPTIONS = [
    "integrator contract stub for multiple shooting (see C02)",
    "bounds are numeric and distinct per component; +-inf means unbounded",
    "real arithmetic; coefficients agree up to 1e-9",
]


def case(ctx, N=2, d=2, dc=1, scheme="collocation", pass_last=None, mopts=None, **kw):
    o = L.Ocp(ctx, **kw)
    T = L.transcribe(ctx, o, N=N, dc=dc, d=d, scheme=scheme, pass_last=pass_last, method_opts=mopts)
    if not pass_last and o.problem.last_u is not None:
        T.last_u = ca.SX(o.problem.last_u)
    ref = L.reference(ctx, o, T)
    ctx.same_set("feasible set", T.nlp.rows(), ref)


def rate_refused(ctx, scheme, **kw):
    """Rate limits are defined for piecewise constant controls only; anything else is refused, never dropped."""
    o = L.Ocp(ctx, **kw)
    try:
        L.transcribe(ctx, o, N=2, dc=2, d=3, scheme=scheme)
        ok = False
    except core.Structural:
        raise
    except Exception as e:
        ok = "degree_control" in str(e) or type(e) in (Exception, ValueError, NotImplementedError)
    ctx.require("refused", ok, "rate limits of a polynomial control were accepted")


def scenarios(tier):
    M = "multiple-shooting"
    inf = ca.inf
    q = [
        ("col bounds nx3", dict(nx=3, ny=2, nu=2)),
        ("col path default", dict(g_eq=["default"], g_ineq=["default", None], d=3)),
        ("col path start/end", dict(g_eq=["start", "end"], g_ineq=["end", "start", "default"], N=3)),
        ("col path shifted horizon", dict(g_eq=["end"], g_ineq=["start", "default"], t0=1.5, tf=4.0)),
        ("col path polynomial control", dict(g_eq=["default"], g_ineq=["start", "end"], dc=2, d=3)),
        ("col terminal and static", dict(hfinal=2, h=1, np=2)),
        ("col hinit", dict(hinit=2, nx=3)),
        ("col p_opt unordered", dict(np=3, popt=[2, 0], h=1)),
        ("col theta_opt", dict(nth=3, thopt=[2, 0], N=3, g_ineq=["end"])),
        ("col all p optimised", dict(np=2, popt=[0, 1])),
        ("col delta_u", dict(nu=2, delta=([-0.3, -inf], [0.4, 0.5]), N=3)),
        ("col delta_u first control", dict(nu=2, delta=([-0.3, -inf], [0.4, inf]))),
        ("col delta_u first control below", dict(nu=2, delta=([-0.3, -inf], [inf, inf]), N=3)),
        ("col delta_u one side", dict(nu=2, delta=([-inf, -inf], [inf, 0.5]), N=4)),
        ("col delta_u problem last_u", dict(nu=2, delta=([-0.3, -0.7], [0.4, 0.5]), last_u=[0.2, -0.1])),
        ("col delta_u passed last_u", dict(nu=2, delta=([-0.3, -0.7], [0.4, 0.5]), last_u=[0.2, -0.1],
                                           pass_last=True, np=2, nth=1)),
        ("col delta_u last_u option", dict(nu=2, delta=([-0.3, -0.7], [0.4, 0.5]), pass_last=True,
                                           mopts=dict(last_control_as_parameter=True))),
        ("col positive objective", dict(positive=True)),
        ("col twelve elements", dict(N=12, g_eq=["end"], g_ineq=["start", "default"], delta=([-0.3, -inf], [0.4, 0.5]), nu=2, nx=1)),
        ("col wide", dict(nx=5, ny=4, nu=4, np=5, popt=[3, 0], nth=4, thopt=[3, 1], g_eq=["default"] * 4, g_ineq=["end", "start"] * 2,
                          hfinal=3, h=3, hinit=2, delta=([-0.3, -inf, -0.2, -inf], [0.4, 0.5, inf, inf]))),
        ("ms twelve elements", dict(N=12, g_ineq=["end", "default"], delta=([-0.3, -inf], [0.4, 0.5]), nu=2, nx=1, scheme=M)),
        ("ms bounds", dict(nx=3, ny=2, nu=2, scheme=M)),
        ("ms path", dict(g_eq=["default", "end"], g_ineq=["end", "default"], scheme=M, N=3)),
        ("ms path polynomial control", dict(g_eq=["end"], g_ineq=["default"], scheme=M, dc=2, ny=0)),
        ("ms terminal and static", dict(hfinal=2, h=1, np=2, scheme=M, t0=1.0, tf=3.0)),
        ("ms hinit", dict(hinit=1, nx=2, scheme=M)),
        ("ms p_opt theta_opt", dict(np=3, popt=[2, 0], nth=2, thopt=[1], scheme=M, N=3, g_ineq=["end"])),
        ("ms delta_u", dict(nu=2, delta=([-0.3, -inf], [0.4, 0.5]), N=3, scheme=M)),
        ("ms delta_u first control", dict(nu=2, delta=([-inf, -inf], [0.4, inf]), scheme=M)),
        ("ms delta_u problem last_u", dict(nu=2, delta=([-0.3, -0.7], [0.4, 0.5]), last_u=[0.2, -0.1], scheme=M)),
        ("ms delta_u passed last_u", dict(nu=2, delta=([-0.3, -0.7], [0.4, 0.5]), last_u=[0.2, -0.1],
                                          pass_last=True, scheme=M, np=2, nth=1)),
        ("ms positive objective", dict(positive=True, scheme=M)),
    ]
    if tier == "thorough":
        for sc, short in (("collocation", "col"), (M, "ms")):
            for N in (1, 2, 3, 4):
                for d in ((2, 3, 4) if short == "col" else (2,)):
                    for dc in (1, 2):
                        w = ["start", "end", "default"] if short == "col" else ["end", "default"]
                        q.append(("%s sweep N%d d%d dc%d" % (short, N, d, dc), dict(
                            scheme=sc, N=N, d=d, dc=dc, nx=3, ny=2, nu=2, np=3, popt=[2, 1], nth=2, thopt=[1],
                            g_eq=w, g_ineq=w[::-1], hfinal=2, h=2, hinit=1, t0=0.3, tf=0.3 + N,
                            delta=([-0.3, -0.7], [0.4, inf]) if dc == 1 else None,
                            last_u=[0.2, -0.1] if dc == 1 else None,
                            pass_last=True if dc == 1 else None)))
    return [Scenario(n, case, **k) for n, k in q] + [
        Scenario("rate of polynomial control " + s, rate_refused, scheme=s, nu=2, ny=0, delta=(lo, hi))
        for s, lo, hi in (("collocation", [-0.3, -inf], [0.4, inf]), (M, [-inf, -inf], [inf, 0.5]))]
