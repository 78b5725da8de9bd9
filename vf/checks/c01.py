"""C01: the collocation transcription imposes exactly the collocated DAE."""
from .. import ocplib as L
from ..run import Scenario

EXPLANATION = (
    "Solver-based checking of the real code: SystemModel/OptimalControlProblem/DirectMethod/"
    "CollocationScheme/NonlinearOptimizationProblem are executed on CasADi symbols with arbitrary "
    "(uninterpreted) dynamics right up to the numerical-solver boundary and back through the result "
    "decoding.  The constraint set handed to the solver and the Radau collocation equations written "
    "from the definition (own Lagrange basis, own time grid) are flattened to polynomials over atoms "
    "and z3 proves that each implies every row of the other, for every value of states, algebraics, "
    "controls, parameters, initial condition and every right-hand side.")
BOUNDS = ("1..3 states, 0..2 algebraic variables, 0..2 controls, 1..4 finite elements, degree 1..5, control "
          "degree 1..3, horizons [0,1], [1.5,4], [-2,7]; values in [-8,8], tolerance 1e-4")
ASSUMPTIONS = [
    "real arithmetic; coefficients agree up to 1e-9 (floating-point rounding of exact constants)",
    "dynamics/costs/constraints are functions of (t,x,y,u,p,theta) of the stated dimensions",
    "Radau abscissae are CasADi's collocation_points(.., 'radau')",
    "sizes, element counts and horizons outside the listed configurations are not covered",
]


def case(ctx, d, N, dc, **kw):
    o = L.Ocp(ctx, **kw)
    T = L.transcribe(ctx, o, d=d, N=N, dc=dc)
    ctx.require("trajectory length", len(T.X) >= N and len(T.Y) == N and len(T.U) == N
                and all(len(T.X[k]) == d + 1 for k in range(N)), "decoded trajectory has wrong shape")
    ref = L.reference(ctx, o, T)
    ctx.same_set("feasible set", T.nlp.rows(), ref)


def scenarios(tier):
    q = [
        ("dae d2 N2", dict(d=2, N=2, dc=1)),
        ("ode d3 N3 theta popt", dict(d=3, N=3, dc=2, ny=0, np=2, popt=[1], nth=1)),
        ("dae shifted horizon", dict(d=3, N=2, dc=1, t0=1.5, tf=4.0)),
        ("dae negative start", dict(d=2, N=3, dc=2, t0=-2.0, tf=7.0, nx=1, ny=2)),
        ("one element", dict(d=4, N=1, dc=1, nx=3, ny=2, nu=2)),
        ("degree one", dict(d=1, N=3, dc=1, nx=2, ny=1)),
        ("degree one ode", dict(d=1, N=2, dc=1, nx=1, ny=0)),
        ("control degree equals state degree", dict(d=3, N=2, dc=3, nu=2)),
        ("no control", dict(d=2, N=2, dc=1, nu=0)),
        ("theta only", dict(d=2, N=3, dc=1, np=0, nth=2, ny=0)),
        ("initial equalities", dict(d=2, N=2, dc=1, hinit=1, nx=3)),
        ("four elements", dict(d=2, N=4, dc=1, nx=2, ny=1, nth=1, t0=0.5, tf=3.0)),
        ("twelve elements", dict(d=2, N=12, dc=1, nx=1, ny=1, nth=1, t0=0.5, tf=3.0)),
        ("degree seven", dict(d=7, N=2, dc=5, nx=2, ny=1)),
        ("wide", dict(d=2, N=2, dc=1, nx=5, ny=4, nu=4, np=5, popt=[3, 0], nth=4, thopt=[3, 1])),
        ("no cost", dict(d=3, N=2, dc=1, cost=False, V=False)),
    ]
    if tier == "thorough":
        for d in (1, 2, 3, 4, 5):
            for N in (1, 2, 3, 5):
                for (dc, ny) in ((1, 1), (2, 0), (3, 2)):
                    q.append(("sweep d%d N%d dc%d ny%d" % (d, N, dc, ny),
                              dict(d=d, N=N, dc=dc, ny=ny, nx=3, nu=2, np=2, nth=1,
                                   t0=0.25 * d, tf=0.25 * d + 1.7 * N, popt=[1], thopt=[0])))
    return [Scenario(n, case, **k) for n, k in q]
