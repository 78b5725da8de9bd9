"""C08: an optimisation problem means what was declared on it."""
import casadi as ca

from .. import hooks
from ..core import bounds
from ..run import Scenario

SX, DM, MX = ca.SX, ca.DM, ca.MX
EXPLANATION = (
    "NonlinearOptimizationProblem / QuadraticOptimizationProblem are driven through their public methods (variables, "
    "parameters, inequalities, equalities, <= / < / == constraints, objectives, repeated solves and changes between "
    "solves) with arbitrary (uninterpreted) expressions of variables and parameters.  The problem that reaches "
    "casadi.nlpsol / qpsol together with the bounds, start point, multipliers and parameter values of the call is "
    "compared with the declared problem: z3 decides, for all values of variables, parameters and expressions, that "
    "the two feasible sets imply each other and that the objectives are equal.")
BOUNDS = ("problems built by 3..12 calls, variable blocks of size 1..3, 0..2 parameter blocks, every form of bound "
          "(omitted, scalar int/float, vector DM, list, infinite); values in [-8,8], tolerance 1e-4")
ASSUMPTIONS = ["bounds are concrete pairwise different numbers (the API takes numbers there)",
               "real arithmetic"]


class B:
    """Mirror of the declarations: `rows`/`obj` are stated on the symbols of ctx."""

    def __init__(self, ctx, kind="nlp"):
        from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
        from yaocptool.optimization.quadratic_problem import QuadraticOptimizationProblem
        self.ctx = ctx
        self.pr = (NonlinearOptimizationProblem if kind == "nlp" else QuadraticOptimizationProblem)(name="pr")
        self.xs, self.ps, self.rows = [], [], []
        self.mx, self.mp = [], []
        self.rec = hooks.NlpRecorder()
        self.obj = SX(0)
        self.k = 0

    def var(self, n, lb=None, ub=None, how="create", rlb=None, rub=None):
        """lb/ub as passed; rlb/rub the vectors meant."""
        name = "v%d" % len(self.xs)
        kw = {}
        if lb is not None:
            kw["lb"] = lb
        if ub is not None:
            kw["ub"] = ub
        if how == "create":
            v = self.pr.create_variable(name, n, **kw)
        else:
            v = MX.sym(name, n)
            self.pr.include_variable(v, **kw)
        s = SX.sym(name, n)
        self.mx.append(v)
        self.xs.append(s)
        self.rows += bounds(s, -DM.inf(n) if rlb is None else DM(rlb), DM.inf(n) if rub is None else DM(rub))
        return v, s

    def par(self, n, how="create"):
        name = "q%d" % len(self.ps)
        if how == "create":
            v = self.pr.create_parameter(name, n)
        else:
            v = MX.sym(name, n)
            self.pr.include_parameter(v)
        self.mp.append(v)
        self.ps.append(SX.sym(name, n))
        return v, self.ps[-1]

    def fun(self, n, linear=False):
        """(MX, SX) pair: n arbitrary functions of all variables and parameters."""
        self.k += 10
        vs = self.xs + self.ps
        flat = ca.vertcat(*vs)
        z = [SX.sym("z%d" % i, v.numel()) for i, v in enumerate(vs)]
        f = ca.Function("f%d" % self.k, z, [ca.vertcat(*[self.ctx.uf(self.k + i, *z) for i in range(n)])])
        return f(*(self.mx + self.mp)), f(*vs)

    def solve(self, tag, x0=True, lam=True, p_as_list=False, call_dict=None):
        n = sum(v.numel() for v in self.xs)
        npar = sum(v.numel() for v in self.ps)
        pv = ca.vertcat(*self.ps) if self.ps else None
        kw = {}
        x0v, lx = SX.sym("x0" + tag, n), SX.sym("lx" + tag, n)
        lg = SX.sym("lg" + tag, self.pr.g.numel())
        if lam:
            kw = dict(lam_x=lx, lam_g=lg)
        if call_dict is not None:
            kw["call_dict"] = call_dict
        with hooks.active(nlpsol=self.rec, qpsol=self.rec):
            res = self.pr.solve(x0v, p=pv, **kw)
        s = self.rec.solvers[-1]
        nlp = hooks.Nlp(s, w=ca.vertcat(*self.xs), call=len(s.calls) - 1)
        ctx = self.ctx
        call = s.calls[-1]
        ctx.require(tag + " sizes", nlp.n == n and nlp.np == npar, "variables %d parameters %d" % (nlp.n, nlp.np))
        if nlp.n != n or nlp.np != npar:
            return
        ctx.equal(tag + " objective", nlp.f, self.obj)
        ctx.same_set(tag + " feasible set", nlp.rows(), self.rows if call_dict is None else self.override(call_dict, nlp))
        ctx.equal(tag + " start point", call["x0"], x0v)
        if npar:
            ctx.equal(tag + " parameters", call["p"], pv)
        if lam:
            ctx.equal(tag + " bound multipliers", call["lam_x0"], lx)
            ctx.equal(tag + " constraint multipliers", call["lam_g0"], lg)
        ctx.equal(tag + " returned point", res["x"], s.w)
        ctx.require(tag + " statistics", bool(res.get("stats", {}).get("success")), "no stats in the answer")
        return res

    def override(self, cd, nlp):
        return bounds(nlp.w, cd["lbx"], cd["ubx"]) + bounds(nlp.g, cd["lbg"], cd["ubg"])

    # constraints ------------------------------------------------------
    def ineq(self, n, lb=None, ub=None, rlb=None, rub=None):
        e, r = self.fun(n)
        kw = {}
        if lb is not None:
            kw["lb"] = lb
        if ub is not None:
            kw["ub"] = ub
        self.pr.include_inequality(e, **kw)
        self.rows += bounds(r, -DM.inf(n) if rlb is None else DM(rlb), DM.inf(n) if rub is None else DM(rub))

    def eq(self, n, rhs=None, r=None):
        e, s = self.fun(n)
        self.pr.include_equality(e, rhs) if rhs is not None else self.pr.include_equality(e)
        r = DM.zeros(n) if r is None else DM(r)
        self.rows += bounds(s, r, r)

    def con(self, n, form, c):
        e, s = self.fun(n)
        c_v = DM(c) if not isinstance(c, (int, float)) else DM.ones(n) * c
        inf = DM.inf(n)
        expr, lo, hi = {"le": lambda: (e <= c, -inf, c_v), "ge": lambda: (e >= c, c_v, inf),
                        "lt": lambda: (e < c, -inf, c_v), "gt": lambda: (e > c, c_v, inf),
                        "rle": lambda: (c <= e, c_v, inf), "rge": lambda: (c >= e, -inf, c_v),
                        "eq": lambda: (e == c, c_v, c_v), "req": lambda: (c == e, c_v, c_v)}[form]()
        self.pr.include_constraint(expr)
        self.rows += bounds(s, lo, hi)

    def objective(self, how="expr"):
        if how == "num":
            self.pr.set_objective(3)
            self.obj = SX(3)
        else:
            e, r = self.fun(1)
            self.pr.set_objective([e] if how == "list" else e)
            self.obj = r


def variables(ctx, kind):
    b = B(ctx, kind)
    b.var(1)
    b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25])
    b.var(3, lb=DM([-1, -2, -3.5]), ub=DM([1, 2, 3.25]), rlb=[-1, -2, -3.5], rub=[1, 2, 3.25])
    b.var(2, lb=-3, ub=4, rlb=[-3, -3], rub=[4, 4])
    b.var(2, lb=0, rlb=[0, 0])
    b.var(2, ub=DM([0.5, 0.75]), rub=[0.5, 0.75])
    b.var(2, lb=0.125, ub=0.125, rlb=[0.125] * 2, rub=[0.125] * 2)
    b.par(2)
    b.objective()
    b.solve("first")


def included(ctx, kind):
    b = B(ctx, kind)
    b.par(1, "include")
    b.var(1, how="include")
    b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25], how="include")
    b.var(3, lb=DM([-1, -2, -3.5]), ub=DM([1, 2, 3.25]), rlb=[-1, -2, -3.5], rub=[1, 2, 3.25], how="include")
    b.var(3, lb=DM(-0.25), ub=DM(0.5), rlb=[-0.25] * 3, rub=[0.5] * 3, how="include")
    b.var(2, ub=2.5, rub=[2.5, 2.5], how="include")
    b.var(2, lb=-2.5, rlb=[-2.5, -2.5], how="include")
    b.objective("list")
    b.solve("first")


def zeros(ctx, kind, how):
    """A bound or right hand side of zero is a bound."""
    b = B(ctx, kind)
    vs = lambda: [0, 0.0, DM(0), DM.zeros(1), -0.0]  # noqa: E731
    for v in vs():
        b.var(1, lb=v, rlb=[0], how=how)
        b.var(1, ub=v, rub=[0], how=how)
    b.var(2, lb=0, rlb=[0, 0], how=how)
    b.var(2, ub=0, rub=[0, 0], how=how)
    b.var(1, lb=0, ub=0, rlb=[0], rub=[0], how=how)
    b.objective()
    for v in vs():
        b.ineq(1, lb=v, rlb=[0])
        b.ineq(1, ub=v, rub=[0])
        b.eq(1, v, [0])
    b.ineq(2, lb=0, ub=1, rlb=[0, 0], rub=[1, 1])
    b.ineq(2, lb=-1, ub=0, rlb=[-1, -1], rub=[0, 0])
    for f in ("le", "ge", "lt", "gt", "rle", "rge", "eq", "req"):
        b.con(1, f, 0)
    b.solve("first")


def included_int(ctx, kind):
    b = B(ctx, kind)
    b.var(2, lb=-1, ub=3, rlb=[-1, -1], rub=[3, 3], how="include")
    b.var(1, lb=0, rlb=[0], how="include")
    b.objective()
    b.solve("first")


def inequalities(ctx, kind):
    b = B(ctx, kind)
    b.var(14)
    b.par(2)
    b.objective()
    b.ineq(1, ub=0.5, rub=[0.5])
    b.ineq(1, lb=-0.25, rlb=[-0.25])
    b.ineq(2, lb=-1, ub=1.25, rlb=[-1, -1], rub=[1.25, 1.25])
    b.ineq(2, lb=DM([-1.5, -0.5]), ub=DM([1.75, 0.25]), rlb=[-1.5, -0.5], rub=[1.75, 0.25])
    b.ineq(3, lb=[-1.5, -0.5, 0], ub=[1.75, 0.25, 1], rlb=[-1.5, -0.5, 0], rub=[1.75, 0.25, 1])
    b.ineq(2, ub=DM([0.125, ca.inf]), rub=[0.125, ca.inf])
    b.ineq(2, lb=DM(-0.75), rlb=[-0.75, -0.75])
    b.solve("first")


def equalities(ctx, kind):
    b = B(ctx, kind)
    b.var(14)
    b.par(1)
    b.objective()
    b.eq(1)
    b.eq(3)
    b.eq(1, 0.5, [0.5])
    b.eq(2, 1, [1, 1])
    b.eq(2, -0.75, [-0.75, -0.75])
    b.eq(2, DM([0.25, -1.25]), [0.25, -1.25])
    b.eq(2, DM(0.375), [0.375, 0.375])
    b.solve("first")


def constraints(ctx, kind, forms):
    b = B(ctx, kind)
    b.var(12)
    b.par(1)
    b.objective()
    for i, f in enumerate(forms):
        b.con(1, f, 0.25 + 0.1 * i)
        b.con(2, f, DM([0.5 + 0.1 * i, -0.25 - 0.1 * i]))
        b.con(2, f, -1 - i)
    b.solve("first")


def interleaved(ctx, kind):
    """Variables, parameters and constraints declared in mixed order."""
    b = B(ctx, kind)
    b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25])
    b.ineq(2, lb=-0.25, rlb=[-0.25, -0.25])
    b.par(1)
    b.var(1, lb=0.0, rlb=[0.0])
    b.eq(2, DM([0.25, -1.25]), [0.25, -1.25])
    b.par(2)
    b.con(1, "le", 0.75)
    b.objective()
    b.con(2, "rle", -2.0)
    b.var(1, ub=1.0, rub=[1.0])
    b.ineq(1, lb=-3.0, ub=3.5, rlb=[-3.0], rub=[3.5])
    b.solve("first")


def again(ctx, kind):
    """Solve, change the problem, solve again: the second answer is about the changed problem."""
    b = B(ctx, kind)
    b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25])
    b.par(1)
    b.ineq(1, lb=-0.25, rlb=[-0.25])
    b.objective()
    b.solve("first")
    b.solve("unchanged")
    b.objective()
    b.solve("new objective")
    b.ineq(2, ub=0.625, rub=[0.625, 0.625])
    b.solve("new inequality")
    b.eq(1, 0.5, [0.5])
    b.con(1, "le", 0.875)
    b.solve("new constraints")
    b.var(1, lb=-0.5, rlb=[-0.5])
    b.solve("new variable")
    b.par(1)
    b.objective("num")
    b.solve("new parameter")


def bounds_of_call(ctx, kind):
    """Bounds given for one solve replace the declared ones for that solve only."""
    b = B(ctx, kind)
    b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25])
    b.par(1)
    b.ineq(2, lb=-0.25, ub=0.25, rlb=[-0.25] * 2, rub=[0.25] * 2)
    b.objective()
    cd = b.pr.get_default_call_dict()
    ctx.require("default bounds", set(cd) >= {"lbx", "ubx", "lbg", "ubg"}, str(list(cd)))
    own = {"lbx": DM([-0.5, -0.75]), "ubx": DM([0.5, 0.625]), "lbg": DM([-2, -1]), "ubg": DM([3, 1.5])}
    keep = {k: DM(v) for k, v in own.items()}
    b.solve("own bounds", call_dict=own)
    ctx.require("caller's dictionary untouched", set(own) == set(keep)
                and all(bool(ca.is_equal(own[k], keep[k])) for k in keep), "call_dict was modified: %s" % list(own))
    b.solve("declared bounds")


def _raises(fn):
    try:
        fn()
    except Exception:  # noqa: BLE001
        return True
    return False


def refused(ctx, kind):
    """Contradictory or ill-sized declarations are refused and leave the problem as it was."""
    b = B(ctx, kind)
    x, _ = b.var(2, lb=-1.5, ub=2.25, rlb=[-1.5, -1.5], rub=[2.25, 2.25])
    q, _ = b.par(2)
    b.objective()
    b.ineq(1, ub=0.5, rub=[0.5])
    p = b.pr
    e, _ = b.fun(2)
    bad = {
        "variable lb>ub": lambda: p.create_variable("w", 2, lb=1.0, ub=0.5),
        "variable one component lb>ub": lambda: p.create_variable("w", 3, lb=DM([0, 2, 0]), ub=DM([1, 1, 1])),
        "variable last component lb>ub": lambda: p.include_variable(MX.sym("w", 3), lb=DM([0, 0, 2]), ub=DM([1, 1, 1])),
        "variable bound size": lambda: p.create_variable("w", 3, lb=DM([1.0, 2.0])),
        "variable upper size": lambda: p.include_variable(MX.sym("w", 3), ub=DM([1.0, 2.0])),
        "inequality lb>ub": lambda: p.include_inequality(e, lb=1.0, ub=0.0),
        "inequality last lb>ub": lambda: p.include_inequality(e, lb=DM([0, 3]), ub=DM([1, 1])),
        "inequality lb size": lambda: p.include_inequality(e, lb=DM([1, 1, 1])),
        "inequality ub size": lambda: p.include_inequality(e, ub=DM([1, 1, 1])),
        "inequality bound depends on x": lambda: p.include_inequality(e, lb=x),
        "inequality bound depends on p": lambda: p.include_inequality(e[0], ub=q[0]),
        "equality rhs size": lambda: p.include_equality(e, DM([1, 2, 3])),
        "equality rhs depends on x": lambda: p.include_equality(e, x),
        "matrix equality": lambda: p.include_equality(ca.repmat(e, 1, 2)),
        "matrix inequality": lambda: p.include_inequality(ca.repmat(e, 1, 2), ub=0.0),
        "not a constraint": lambda: p.include_constraint(x + 1),
        "constraint both sides": lambda: p.include_constraint(x <= e),
        "vector objective": lambda: p.set_objective(x),
    }
    for name, fn in bad.items():
        ctx.require("refuses " + name, _raises(fn), "%s was accepted" % name)
    # the numerical solver itself accepts an empty vector (as zeros) and repeats a scalar
    with hooks.active(nlpsol=b.rec, qpsol=b.rec):
        ctx.require("refuses short p", _raises(lambda: p.solve(DM.zeros(2), p=DM([1]))), "short p accepted")
        ctx.require("refuses missing p", _raises(lambda: p.solve(DM.zeros(2))), "missing p accepted")
    b.solve("after refusals")


def scenarios(tier):
    out = []
    for kind in ("nlp", "qp"):
        for fn in (variables, included, included_int, inequalities, equalities, interleaved, again, bounds_of_call, refused):
            out.append(Scenario("%s %s" % (kind, fn.__name__), fn, kind=kind))
        out.append(Scenario("%s zeros" % kind, zeros, kind=kind, how="create"))
        out.append(Scenario("%s zeros included" % kind, zeros, kind=kind, how="include"))
        out.append(Scenario("%s constraints weak" % kind, constraints, kind=kind, forms=["le", "rle"]))
        out.append(Scenario("%s constraints weak reversed" % kind, constraints, kind=kind, forms=["ge", "rge"]))
        out.append(Scenario("%s constraints strict" % kind, constraints, kind=kind, forms=["lt", "gt"]))
        out.append(Scenario("%s constraints equal" % kind, constraints, kind=kind, forms=["eq", "req"]))
    return out
