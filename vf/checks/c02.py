"""C02: multiple shooting joins consecutive flows of the modelled system."""
from .. import ocplib as L
from ..run import Scenario

EXPLANATION = (
    "The real DirectMethod/MultipleShootingScheme/DAESystem code is executed on CasADi symbols; the "
    "integrator is replaced by a contract stub whose result is an arbitrary function of (t0, tf, x0, p and the "
    "vector field itself).  z3 proves that the constraint set handed to the numerical solver and the "
    "definition (each node is the flow over the previous element with that element's control, p and theta; "
    "the node algebraics are the flow's; the first node is the initial condition) imply each other.")
BOUNDS = ("1..3 states, 0..2 algebraic variables, 0..2 controls, 1..4 finite elements, control degree 1..3, "
          "several horizons; values in [-8,8], tolerance 1e-4")
ASSUMPTIONS = [
    "integrator contract: the end point depends only on t0, tf, x0, p and the vector field (identified by its "
    "values at three instants); accuracy of SUNDIALS is outside the claim",
    "real arithmetic; coefficients agree up to 1e-9",
    "sizes and horizons outside the listed configurations are not covered",
]


def case(ctx, N, dc, **kw):
    integ = kw.pop("integ", None)
    o = L.Ocp(ctx, **kw)
    T = L.transcribe(ctx, o, N=N, dc=dc, d=3, scheme="multiple-shooting",
                     method_opts={"integrator_type": integ} if integ else None)
    ctx.require("trajectory length", len(T.X) == N + 1 and len(T.Y) == N and len(T.U) == N,
                "decoded trajectory has wrong shape")
    ref = L.reference(ctx, o, T)
    ctx.same_set("feasible set", T.nlp.rows(), ref)


def scenarios(tier):
    q = [
        ("dae N2", dict(N=2, dc=1)),
        ("ode N3 theta popt", dict(N=3, dc=1, ny=0, np=2, popt=[1], nth=1)),
        ("polynomial control", dict(N=2, dc=3, ny=0, nu=2)),
        ("dae polynomial control", dict(N=2, dc=2, ny=1, nu=1, t0=0.5, tf=2.5)),
        ("dae shifted horizon", dict(N=3, dc=1, t0=1.5, tf=4.0)),
        ("one element", dict(N=1, dc=1, nx=3, ny=2, nu=2)),
        ("no control", dict(N=2, dc=1, nu=0)),
        ("explicit integrator", dict(N=2, dc=1, ny=0, integ="explicit")),
        ("initial equalities", dict(N=2, dc=1, hinit=1, nx=3)),
        ("twelve elements", dict(N=12, dc=1, nx=1, ny=1, nth=1, t0=0.5, tf=3.0)),
        ("wide", dict(N=2, dc=1, nx=5, ny=4, nu=4, np=5, popt=[3, 0], nth=4, thopt=[3, 1])),
        ("optimised theta", dict(N=3, dc=1, nth=2, thopt=[1], ny=0)),
    ]
    if tier == "thorough":
        for N in (1, 2, 3, 4, 5):
            for (dc, ny) in ((1, 0), (1, 2), (2, 1), (3, 0)):
                q.append(("sweep N%d dc%d ny%d" % (N, dc, ny),
                          dict(N=N, dc=dc, ny=ny, nx=3, nu=2, np=2, nth=2, popt=[1, 0], thopt=[1],
                               t0=0.2 * N, tf=0.2 * N + 1.3 * N)))
    return [Scenario(n, case, **k) for n, k in q]
