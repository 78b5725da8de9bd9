"""C13: editing an optimal control problem keeps all of its parts aligned."""
import casadi as ca

from ..core import zero
from ..modlib import Ref, check_model, els, make, vcat
from ..run import Scenario

SX, DM = ca.SX, ca.DM
inf = ca.inf
EXPLANATION = (
    "OptimalControlProblem is edited through its public operations (include/create/remove variables, optimised "
    "parameters, constraints, replace, parametrise, connect, merge) on models and costs that are arbitrary functions, "
    "with symbolic bounds, initial values and guesses. A separate description of what the problem is meant to be, keyed "
    "by variable, is edited alongside. After every step z3 decides, for all values and functions, that each bound, "
    "initial value and guess stands at the position of its own variable, that costs add up, and that the constraint "
    "systems (per instant of evaluation) have the same solutions as the declared ones.")
BOUNDS = "problems of 1..3 states, 0..2 algebraics, 1..3 controls, parameters; sequences of up to 6 edits; merges of up to 3 problems"
ASSUMPTIONS = ["bounds are scalars per variable; +-infinity marks an absent one"]
FIELDS = ("L", "V", "S")


class PRef:
    """What a problem is meant to be."""

    def __init__(self, m):
        self.m = m                      # modlib.Ref
        self.b = {}                     # symbol hash -> {field: scalar}
        self.keep = []
        self.h, self.h0, self.hf = [], [], []
        self.geq, self.gin = [], []     # (expr, when)
        self.L = self.V = self.S = SX(0)
        self.popt, self.thopt = [], []
        self.lists = {}

    def put(self, s, **kw):
        self.keep.append(s)
        self.b.setdefault(s.element_hash(), {}).update(kw)

    def get(self, s, f, default=None):
        return self.b.get(s.element_hash(), {}).get(f, default)

    def subs(self, a, b):
        a, b = vcat(els(a)), vcat(els(b))
        f = lambda e: ca.substitute(SX(e), a, b)  # noqa: E731
        for k in ("h", "h0", "hf"):
            setattr(self, k, [f(e) for e in getattr(self, k)])
        self.geq = [(f(e), w) for e, w in self.geq]
        self.gin = [(f(e), w) for e, w in self.gin]
        self.L, self.V, self.S = f(self.L), f(self.V), f(self.S)

    def absorb(self, o):
        a, b = ca.vertcat(o.m.t, o.m.tau), ca.vertcat(self.m.t, self.m.tau)
        self.m.absorb(o.m)
        self.b.update(o.b)
        self.keep += o.keep
        for k in ("h", "h0", "hf", "geq", "gin", "popt", "thopt"):
            setattr(self, k, getattr(self, k) + list(getattr(o, k)))
        self.L, self.V, self.S = self.L + o.L, self.V + o.V, self.S + o.S
        self.subs(a, b)


COLS = (("x_0", "x", "x0", 0.0), ("x_min", "x", "lo", -inf), ("x_max", "x", "hi", inf), ("y_min", "y", "lo", -inf),
        ("y_max", "y", "hi", inf), ("u_min", "u", "lo", -inf), ("u_max", "u", "hi", inf),
        ("delta_u_min", "u", "dlo", -inf), ("delta_u_max", "u", "dhi", inf))


def check(ctx, name, pr, r, guesses=()):
    check_model(ctx, name + " model", pr.model, r.m)
    for attr, kind, f, d in COLS:
        want = vcat([SX(r.get(s, f, d)) for s in getattr(r.m, kind)])
        ctx.equal("%s %s" % (name, attr), vcat(els(getattr(pr, attr))), want) if want.numel() else \
            ctx.require("%s %s" % (name, attr), SX(getattr(pr, attr)).numel() == 0, "%s is not empty" % attr)
    for attr, kind, f in (("y_guess", "y", "guess"), ("u_guess", "u", "guess"), ("last_u", "u", "last")):
        if attr in guesses:
            got = getattr(pr, attr)
            syms = getattr(r.m, kind)
            ctx.require("%s %s present" % (name, attr), got is not None or not syms, "%s was lost" % attr)
            if got is not None and syms:
                ctx.equal("%s %s" % (name, attr), vcat(els(got)), vcat([SX(r.get(s, f, 0.0)) for s in syms]))
    for attr, lst, lo, hi in (("p_opt", r.popt, "p_opt_min", "p_opt_max"), ("theta_opt", r.thopt, "theta_opt_min", "theta_opt_max")):
        got = els(getattr(pr, attr))
        ctx.require("%s %s" % (name, attr), len(got) == len(lst) and all(ca.is_equal(a, b) for a, b in zip(got, lst)),
                    "%s = %s instead of %s" % (attr, got, lst))
        if len(got) == len(lst) and lst:
            ctx.equal("%s %s" % (name, lo), vcat(els(getattr(pr, lo))), vcat([SX(r.get(s, "olo", -inf)) for s in lst]))
            ctx.equal("%s %s" % (name, hi), vcat(els(getattr(pr, hi))), vcat([SX(r.get(s, "ohi", inf)) for s in lst]))
    idx = lambda lst, of: [[ca.is_equal(s, q) for q in of].index(True) for s in lst]  # noqa: E731
    ctx.require(name + " positions", list(pr.get_p_opt_indices()) == idx(r.popt, r.m.p) and
                list(pr.get_theta_opt_indices()) == idx(r.thopt, r.m.th),
                "optimised parameters at %s, %s" % (pr.get_p_opt_indices(), pr.get_theta_opt_indices()))
    for f in FIELDS:
        ctx.equal("%s %s" % (name, f), SX(getattr(pr, f)), getattr(r, f))
    for attr, rows in (("h", r.h), ("h_initial", r.h0), ("h_final", r.hf)):
        rowset(ctx, "%s %s" % (name, attr), els(getattr(pr, attr)), rows)
    for attr, tattr, rows, lo in (("g_eq", "time_g_eq", r.geq, 0.0), ("g_ineq", "time_g_ineq", r.gin, None)):
        got, when = els(getattr(pr, attr)), list(getattr(pr, tattr))
        ctx.require("%s %s count" % (name, attr), len(got) == len(when) == len(rows), "%d constraints, %d instants, %d declared"
                    % (len(got), len(when), len(rows)))
        if len(got) == len(when) == len(rows):
            for w in ("start", "end", "default"):
                rowset(ctx, "%s %s at %s" % (name, attr, w), [e for e, q in zip(got, when) if q == w],
                       [e for e, q in rows if q == w], lo)


def rowset(ctx, name, got, want, lo=0.0):
    ctx.require(name + " count", len(got) == len(want), "%d rows instead of %d" % (len(got), len(want)))
    if want and got:
        ctx.same_set(name, [(e, lo, 0.0) for e in got], [(e, lo, 0.0) for e in want])


def start(ctx, k, name, full=True, t0=1.0, tf=3.0, guess=True, last=False, **sz):
    """A problem with every part filled in, and its description."""
    from yaocptool.modelling import OptimalControlProblem
    m, mr = make(ctx, k, name, **sz)
    r = PRef(mr)
    a = lambda tag, s: ctx.arg("%s_%s" % (s.name(), tag))  # noqa: E731
    x0 = [a("x0", s) for s in mr.x]
    for s, v in zip(mr.x, x0):
        r.put(s, x0=v)
    pr = OptimalControlProblem(m, name=name, x_0=ca.vertcat(*x0) if x0 else None, t_0=t0, t_f=tf)
    x0s = els(pr.model.x_0)
    r.h0 = [s - q for s, q in zip(mr.x, x0s)]
    if full:
        for attr, kind, f, d in COLS[1:]:
            syms = getattr(mr, kind)
            for s in syms:
                r.put(s, **{f: a(f, s)})
            if syms:
                setattr(pr, attr, ca.vertcat(*[r.get(s, f) for s in syms]))
        args = [m.t, m.tau, m.x, m.y, m.u, m.p, m.theta]
        r.L, r.V, r.S = ctx.uf(k + 40, *args), ctx.uf(k + 41, m.x, m.p), ctx.uf(k + 42, *args)
        pr.L, pr.V, pr.S = r.L, r.V, r.S
        e = [ctx.uf(k + 43 + i, *args) for i in range(6)]
        pr.include_time_equality(e[0])
        pr.include_time_equality(ca.vertcat(e[1], e[2]), when="end")
        pr.include_time_inequality([e[3], e[4]], when="start")
        pr.include_time_inequality(e[5])
        r.geq += [(e[0], "default"), (e[1], "end"), (e[2], "end")]
        r.gin += [(e[3], "start"), (e[4], "start"), (e[5], "default")]
        hh, hf, hi = ctx.uf(k + 50, m.p), ctx.uf(k + 51, m.x, m.p), ctx.uf(k + 52, m.x)
        if mr.p:
            pr.include_equality(hh)
            r.h.append(hh)
        if mr.x:
            pr.include_final_time_equality([hf])
            pr.include_initial_time_equality(hi)
            r.hf.append(hf)
            r.h0.append(hi)
    if guess:
        for attr, kind in (("y_guess", "y"), ("u_guess", "u")):
            syms = getattr(mr, kind)
            for s in syms:
                r.put(s, guess=a("g", s))
            if syms:
                setattr(pr, attr, ca.vertcat(*[r.get(s, "guess") for s in syms]))
    if last:
        for s in mr.u:
            r.put(s, last=a("last", s))
        pr.last_u = ca.vertcat(*[r.get(s, "last") for s in mr.u])
    return m, pr, r


G = ("y_guess", "u_guess")


def add_opt(ctx, pr, r, p=(), th=()):
    for kind, idx, lst in (("p", p, r.popt), ("th", th, r.thopt)):
        for i in idx:
            s = getattr(r.m, kind)[i]
            lo, hi = ctx.arg(s.name() + "_olo"), ctx.arg(s.name() + "_ohi")
            (pr.set_parameter_as_optimization_parameter if kind == "p" else pr.set_theta_as_optimization_theta)(s, lo, hi)
            r.put(s, olo=lo, ohi=hi)
            lst.append(s)


def include(ctx, form, nx=2, ny=1, nu=2):
    """New variables with bounds in every accepted form."""
    m, pr, r = start(ctx, 100, "A", nx=nx, ny=ny, nu=nu, np=1, nth=1)
    lst = (lambda v: [v[i] for i in range(v.numel())]) if form == "list" else (lambda v: v)
    none = form == "none"
    A = lambda n, k=2: None if none else lst(ctx.arg(n, k))  # noqa: E731
    V = lambda v, i, d: SX(d) if v is None else v[i]  # noqa: E731
    sx, sy, su = SX.sym("nx", 2), SX.sym("ny", 2), SX.sym("nu", 2)
    args = [m.t, m.x, m.y, m.u, sx, sy, su]
    ode, alg = ctx.ufv(160, 2, *args), ctx.ufv(170, 2, *args)
    x0, xlo, xhi = lst(ctx.arg("nx0", 2)), A("nxlo"), A("nxhi")
    pr.include_state(sx, ode, x_0=x0, x_min=xlo, x_max=xhi)
    for i in range(2):
        r.put(sx[i], x0=x0[i], lo=V(xlo, i, -inf), hi=V(xhi, i, inf))
    r.m.x += els(sx)
    r.m.ode += els(ode)
    r.h0 += [a - b for a, b in zip(els(sx), els(pr.model.x_0)[-2:])]
    ylo, yhi, yg = A("nylo"), A("nyhi"), None if none else ctx.arg("nyg", 2)
    pr.include_algebraic(sy, alg, y_min=ylo, y_max=yhi, y_guess=yg)
    for i in range(2):
        r.put(sy[i], lo=V(ylo, i, -inf), hi=V(yhi, i, inf), guess=V(yg, i, 0.0))
    r.m.y += els(sy)
    r.m.alg += els(alg)
    if form == "scalar":
        c = [ctx.arg(n) for n in ("nulo", "nuhi", "ndlo", "ndhi")]
        ulo, uhi, dlo, dhi = [ca.vertcat(q, q) for q in c]
        pr_g = ctx.arg("nug", 2)
        pr.include_control(su, u_min=c[0], u_max=c[1], delta_u_min=c[2], delta_u_max=c[3], u_guess=pr_g)
    else:
        ulo, uhi, dlo, dhi = A("nulo"), A("nuhi"), A("ndlo"), A("ndhi")
        pr_g = lst(ctx.arg("nug", 2))
        pr.include_control(su, u_min=ulo, u_max=uhi, delta_u_min=dlo, delta_u_max=dhi, u_guess=pr_g)
    for i in range(2):
        r.put(su[i], lo=V(ulo, i, -inf), hi=V(uhi, i, inf), dlo=V(dlo, i, -inf), dhi=V(dhi, i, inf), guess=pr_g[i])
    r.m.u += els(su)
    r.m.upar += els(su)
    r.m.uexpr += els(su)
    check(ctx, "included", pr, r, G)
    # a further state given by an initial equation instead of a value
    s = SX.sym("free")
    f, h = ctx.uf(180, m.x, s), ctx.uf(181, m.x, s)
    pr.include_state(s, f, h_initial=h)
    r.m.x.append(s)
    r.m.ode.append(f)
    r.h0.append(h)
    check(ctx, "state with an initial equation", pr, r, G)


def zeros(ctx, as_number):
    """A bound, guess or start value of zero is a value like any other."""
    m, pr, r = start(ctx, 100, "A", nx=1, ny=1, nu=1, np=1, nth=1)
    o, v = DM(0), (0 if as_number else DM(0))
    f, g = ctx.uf(160, m.t, m.x), ctx.uf(161, m.t, m.x)
    s = [SX.sym("z%s" % c) for c in "xXyYuU"]
    for k in range(2):
        a, b = ("min", "max") if k == 0 else ("max", "min")
        q = dict(lo=o, hi=inf) if k == 0 else dict(lo=-inf, hi=o)
        pr.include_state(s[k], f, x_0=o, **{"x_" + a: o})
        r.put(s[k], x0=o, **q)
        r.m.x.append(s[k])
        r.m.ode.append(f)
        r.h0.append(s[k] - els(pr.model.x_0)[-1])
        pr.include_algebraic(s[2 + k], g, y_guess=o, **{"y_" + a: o})
        r.put(s[2 + k], guess=o, **q)
        r.m.y.append(s[2 + k])
        r.m.alg.append(g)
        pr.include_control(s[4 + k], u_guess=v, **{"u_" + a: v, "delta_u_" + b: v})
        dq = dict(dlo=-inf, dhi=o) if k == 0 else dict(dlo=o, dhi=inf)
        r.put(s[4 + k], guess=o, **q, **dq)
        for c in ("u", "upar", "uexpr"):
            getattr(r.m, c).append(s[4 + k])
    for kind, inc in (("p", pr.include_optimization_parameter), ("th", pr.include_optimization_theta)):
        for k in range(2):
            w = SX.sym("z%s%d" % (kind, k))
            side = "min" if k == 0 else "max"
            inc(w, **{("p_opt_" if kind == "p" else "theta_opt_") + side: o})
            getattr(r.m, kind).append(w)
            r.put(w, olo=o if k == 0 else -inf, ohi=inf if k == 0 else o)
            (r.popt if kind == "p" else r.thopt).append(w)
    check(ctx, "zeros", pr, r, G)


def create(ctx):
    m, pr, r = start(ctx, 100, "A", nx=1, ny=0, nu=0, np=1, nth=1, guess=False)
    args = [m.t, m.x]
    lo, hi = ctx.arg("lo", 2), ctx.arg("hi", 2)
    x0 = ctx.arg("x0", 2)
    f = ctx.ufv(160, 2, *args)
    x = pr.create_state("cx", 2, ode=f, x_0=x0, x_min=lo, x_max=hi)
    for i in range(2):
        r.put(x[i], x0=x0[i], lo=lo[i], hi=hi[i])
    r.m.x += els(x)
    r.m.ode += els(f)
    r.h0 += [a - b for a, b in zip(els(x), els(pr.model.x_0)[-2:])]
    fz, hz = ctx.uf(166, *args), ctx.uf(167, m.x)       # a state given by an initial equation
    z = pr.create_state("cz", 1, ode=fz, h_initial=hz)
    r.m.x += els(z)
    r.m.ode.append(fz)
    r.h0.append(hz)
    g = ctx.ufv(170, 2, *args)
    ylo, yhi, yg = ctx.arg("ylo", 2), ctx.arg("yhi", 2), ctx.arg("yg", 2)
    y = pr.create_algebraic("cy", 2, alg=g, y_min=ylo, y_max=yhi, y_guess=yg)
    for i in range(2):
        r.put(y[i], lo=ylo[i], hi=yhi[i], guess=yg[i])
    r.m.y += els(y)
    r.m.alg += els(g)
    ulo, uhi, dlo, dhi, ug = [ctx.arg(n, 2) for n in ("ulo", "uhi", "dlo", "dhi", "ug")]
    u = pr.create_control("cu", 2, u_min=ulo, u_max=uhi, delta_u_min=dlo, delta_u_max=dhi, u_guess=ug)
    for i in range(2):
        r.put(u[i], lo=ulo[i], hi=uhi[i], dlo=dlo[i], dhi=dhi[i], guess=ug[i])
    for k in ("u", "upar", "uexpr"):
        getattr(r.m, k).extend(els(u))
    q = pr.create_parameter("cp", 2)
    r.m.p += els(q)
    plo, phi = ctx.arg("plo", 2), ctx.arg("phi", 2)
    o = pr.create_optimization_parameter("co", 2, p_opt_min=plo, p_opt_max=phi)
    tlo, thi = ctx.arg("tlo"), ctx.arg("thi")
    th = pr.create_theta("ct", 1)
    r.m.th += els(th)
    ot = pr.create_optimization_theta("cot", 1, new_theta_opt_min=tlo, new_theta_opt_max=thi)
    for i in range(2):
        r.put(o[i], olo=plo[i], ohi=phi[i])
    r.put(ot, olo=tlo, ohi=thi)
    r.m.p += els(o)
    r.m.th += els(ot)
    r.popt += els(o)
    r.thopt += els(ot)
    v, w = SX.sym("v", 2), SX.sym("w")
    vlo, whi = ctx.arg("vlo", 2), ctx.arg("whi")
    pr.include_optimization_parameter(v, p_opt_min=vlo)
    pr.include_optimization_theta(w, theta_opt_max=whi)
    for i in range(2):
        r.put(v[i], olo=vlo[i])
    r.put(w, ohi=whi)
    r.m.p += els(v)
    r.m.th.append(w)
    r.popt += els(v)
    r.thopt.append(w)
    v, w = SX.sym("vv"), SX.sym("ww", 2)
    vhi, wlo = ctx.arg("vhi"), ctx.arg("wlo", 2)
    pr.include_optimization_parameter(v, p_opt_max=vhi)
    pr.include_optimization_theta(w, theta_opt_min=wlo)
    r.put(v, ohi=vhi)
    for i in range(2):
        r.put(w[i], olo=wlo[i])
    r.m.p.append(v)
    r.m.th += els(w)
    r.popt.append(v)
    r.thopt += els(w)
    check(ctx, "created", pr, r, G)


def remove(ctx, what, order, n=3):
    m, pr, r = start(ctx, 100, "A", nx=2, ny=n, nu=n, np=1, nth=0, last=True)
    syms = [getattr(r.m, what)[i] for i in order]
    if what == "u":
        # the removed control leaves the equations first
        pr.replace_variable(ca.vertcat(*syms), DM.zeros(len(syms)) + 0.5)
        r.subs(vcat(syms), SX.ones(len(syms)) * 0.5)
        r.m.subs(vcat(syms), SX.ones(len(syms)) * 0.5)
        pr.remove_control(ca.vertcat(*syms))
        r.m.drop("u", syms)
    else:
        eqs = [r.m.alg[i] for i in order]
        pr.replace_variable(ca.vertcat(*syms), DM.zeros(len(syms)) + 0.5)
        r.subs(vcat(syms), SX.ones(len(syms)) * 0.5)
        r.m.subs(vcat(syms), SX.ones(len(syms)) * 0.5)
        eqs = [r.m.alg[i] for i in order]
        pr.remove_algebraic(ca.vertcat(*syms), ca.vertcat(*[pr.model.alg[i] for i in order]))
        r.m.drop("y", syms)
        r.m.alg = [e for i, e in enumerate(r.m.alg) if i not in order]
    check(ctx, "removed", pr, r, G + ("last_u",))


def replace(ctx, how):
    m, pr, r = start(ctx, 100, "A", nx=2, ny=1, nu=2, np=2, nth=1)
    if how == "swap":          # simultaneous
        a, b = ca.vertcat(m.p[0], m.p[1]), ca.vertcat(m.p[1], m.p[0])
    elif how == "expr":
        a, b = m.p[0], ctx.uf(77, m.x, m.t, m.p[1])
    elif how == "list":
        a, b = [m.p[0], m.theta], [SX(2.5), m.p[1] * 2]
    pr.replace_variable(a, b)
    r.subs(a, b)
    r.m.subs(a, b)
    check(ctx, "replaced", pr, r, G)
    for n, (c, d) in {"sizes": (m.p, m.p[0])}.items():
        try:
            pr.replace_variable(c, d)
            bad = True
        except ValueError:
            bad = False
        ctx.require("refuses different " + n, not bad, "accepted")
    check(ctx, "after refusing", pr, r, G)


def parametrize(ctx, how):
    m, pr, r = start(ctx, 100, "A", nx=2, ny=1, nu=2, np=1, nth=1)
    u = m.u if how == "all" else m.u[1]
    k = SX.sym("gain", 2)
    n = SX(u).numel()
    e = ca.vertcat(*[k[0] * m.x[0] + (i + 1) * k[1] for i in range(n)]) if how != "law" else ctx.uf(78, m.x, m.t)
    up = k if how != "law" else None
    pr.parametrize_control(u, e, up)
    r.subs(u, e)
    r.m.parametrize(u, e, up)
    check(ctx, "parametrised", pr, r, G)


def connect(ctx, replace=False, listed=False, guess=True, last=False):
    m, pr, r = start(ctx, 100, "A", nx=2, ny=2, nu=3, np=1, nth=0, guess=guess, last=last)
    u, y = [r.m.u[2], r.m.u[0]], [r.m.y[1], r.m.y[0]]
    U, Y = (u, y) if listed else (ca.vertcat(*u), ca.vertcat(*y))
    pr.connect(U, Y, replace=replace)
    if replace:
        r.subs(vcat(u), vcat(y))
        r.m.connect(vcat(u), vcat(y), True)
    else:
        r.m.connect(vcat(u), vcat(y))
        for s in u:          # the rate limits of a connected input end with it
            for f in ("dlo", "dhi"):
                r.b[s.element_hash()].pop(f, None)
    check(ctx, "connected", pr, r, (G if guess else ()) + (("last_u",) if last else ()))


def connect_partial(ctx):
    """A guess for the algebraic variables stays a guess for them."""
    m, pr, r = start(ctx, 100, "A", nx=1, ny=1, nu=2, np=0, nth=0, guess=False)
    g = ctx.arg("yg")
    pr.y_guess = g
    r.put(r.m.y[0], guess=g)
    pr.connect(r.m.u[0], r.m.y[0])
    r.m.connect(r.m.u[0], r.m.y[0])
    ctx.require("guess size", pr.y_guess is None or SX(pr.y_guess).numel() == pr.model.n_y,
                "guess of %s values for %d variables" % (None if pr.y_guess is None else SX(pr.y_guess).numel(), pr.model.n_y))
    if pr.y_guess is not None:
        ctx.equal("guess kept", SX(pr.y_guess)[0], SX(g))


def merge(ctx, n=2, last=True, empty_first=False, opt=True, second=None, first=None):
    from yaocptool.modelling import OptimalControlProblem, SystemModel
    P = []
    for k in range(n):
        sz = dict(nx=2 - k % 2, ny=1, nu=1 + k % 2, np=2, nth=1)
        if second and k == 1:
            sz.update(second)
        if first and k == 0:
            sz.update(first)
        P.append(start(ctx, 100 + 100 * k, "ABC"[k], last=last and sz["nu"] > 0, **sz))
        if opt:
            add_opt(ctx, P[-1][1], P[-1][2], p=(1,) if sz["np"] else (), th=(0,) if sz["nth"] else ())
    import copy
    keep = [(p[1], copy.deepcopy(p[2].L), p[2]) for p in P]
    if empty_first:
        m = SystemModel("E")
        a = OptimalControlProblem(m, name="E", t_0=1.0, t_f=3.0)
        r = PRef(Ref())
        r.m.t, r.m.tau = a.model.t, a.model.tau
        rest = P
    else:
        a, r = P[0][1], P[0][2]
        rest = P[1:]
    others = [(p[1], PRef_copy(p[2])) for p in rest]
    a.merge([p[1] for p in rest])
    for p in rest:
        r.absorb(p[2])
    check(ctx, "merged", a, r, (G + (("last_u",) if last else ())))
    for p, q in others:
        check(ctx, "merged-in problem unchanged " + p.name, p, q, G)
    # later edits of the result do not reach the parts
    s = SX.sym("extra")
    a.include_parameter(s)
    a.include_equality(s)
    for p, q in others:
        check(ctx, "after an edit of the result " + p.name, p, q, G)


def PRef_copy(r):
    q = PRef(r.m.copy())
    for k, v in r.__dict__.items():
        if k != "m":
            setattr(q, k, dict((a, dict(b)) for a, b in v.items()) if k == "b" else (list(v) if isinstance(v, list) else v))
    return q


def merge_refuse(ctx):
    m, pr, r = start(ctx, 100, "A")
    for n, kw in {"start": dict(t0=0.0), "end": dict(tf=4.0)}.items():
        _, o, _ = start(ctx, 200, "B", **kw)
        try:
            pr.merge([o])
            bad = True
        except ValueError:
            bad = False
        ctx.require("refuses another " + n, not bad, "problems over different horizons were merged")
        check(ctx, "after refusing another " + n, pr, r, G)


def isolated(ctx):
    """The problem works on its own model; the caller's model and two problems over it stay apart."""
    from yaocptool.modelling import OptimalControlProblem
    m, mr = make(ctx, 100, "A", nx=2, ny=1, nu=2, np=1, nth=1)
    q = mr.copy()
    a = OptimalControlProblem(m, name="a", x_0=[0.1, 0.2], t_f=2.0)
    b = OptimalControlProblem(m, name="b", x_0=DM([0.3, 0.4]), t_0=1.0)
    rb = PRef(mr.copy())
    for i, v in enumerate((0.3, 0.4)):
        rb.put(mr.x[i], x0=v)
    rb.h0 = [s - o for s, o in zip(mr.x, els(b.model.x_0))]
    a.u_max[0] = 5.0
    a.create_state("extra", ode=m.x[0], x_0=DM(0))
    a.create_control("c2", u_max=DM(3))
    a.L = m.x[0] ** 2
    a.create_cost_state()
    a.parametrize_control(m.u[0], m.x[0] * 2)
    a.include_time_inequality(m.x[0] - 1)
    a.include_equality(m.p - 1)
    a.set_parameter_as_optimization_parameter(m.p)
    check_model(ctx, "the caller's model", m, q)
    check(ctx, "the other problem", b, rb)
    ctx.require("horizons", (a.t_0, a.t_f, b.t_0, b.t_f) == (0.0, 2.0, 1.0, 1.0), "horizons")


def working(ctx):
    """The working model can be reset to the caller's; a problem's own control constructor is create_control."""
    from yaocptool.modelling import OptimalControlProblem
    m, mr = make(ctx, 100, "A", nx=2, ny=1, nu=2, np=1, nth=1)
    a = OptimalControlProblem(m, name="a", x_0=DM([0.1, 0.2]))
    a.parametrize_control(m.u[0], m.x[0] * 2)
    a.create_parameter("q", 2)
    a.create_state("s", ode=m.x[0], x_0=DM(1))
    a.reset_working_model()
    check_model(ctx, "reset model", a.model, mr)
    check_model(ctx, "the caller's model", m, mr)
    a.create_parameter("q2")
    check_model(ctx, "the caller's model after the reset", m, mr)
    b = OptimalControlProblem(m, name="b", x_0=DM([0.1, 0.2]))
    v = b.create_input("v", 2, u_max=DM([3.0, 4.0]), u_min=DM([-1.0, -2.0]))
    ctx.equal("new controls", b.model.u, ca.vertcat(m.u, v))
    ctx.require("bounds", DM(b.u_max).full().ravel()[2:].tolist() == [3.0, 4.0] and DM(b.u_min).full().ravel()[2:].tolist() == [-1.0, -2.0], "bounds of the new controls")


def arguments(ctx):
    """The caller's containers are left as they were."""
    from yaocptool.modelling import OptimalControlProblem
    m, mr = make(ctx, 100, "A", nx=2, ny=1, nu=2, np=1, nth=1)
    x0, w = [0.1, 0.2], {"Q": DM.eye(2), "R": 2 * DM.eye(2)}
    a = OptimalControlProblem(m, x_0=x0, obj=w)
    ctx.require("cost weights", set(w) == {"Q", "R"}, "the caller's dictionary became %s" % sorted(w))
    ctx.equal("cost", a.L, ca.dot(m.x, m.x) + 2 * ca.dot(m.u, m.u))
    m2, _ = make(ctx, 200, "B", nx=3, ny=0, nu=1, np=1, nth=1)
    w2 = {"Qv": DM([1.0]) * DM.ones(1, 1)}
    b = OptimalControlProblem(m, x_0=x0)
    d = {"Qv": 3 * DM.eye(2)}
    b.create_quadratic_cost(d)
    ctx.require("weights", set(d) == {"Qv"}, "the caller's dictionary became %s" % sorted(d))
    ctx.equal("final cost", b.V, 3 * ca.dot(m.x, m.x))
    ctx.require("x_0 list", x0 == [0.1, 0.2], "the caller's list changed")
    lo = [-1.0, -2.0]
    s = SX.sym("s", 2)
    b.include_state(s, ca.vertcat(m.x[0], m.x[1]), x_0=lo, x_min=lo)
    ctx.require("bounds list", lo == [-1.0, -2.0], "the caller's list changed")


def sizes(ctx):
    """A problem whose parts do not fit its model is refused before solving."""
    for attr in ("x_0", "x_min", "x_max", "y_min", "y_max", "u_min", "u_max", "delta_u_min", "delta_u_max"):
        for d in (1, -1):
            m, pr, r = start(ctx, 100, "A", nx=2, ny=2, nu=2)
            v = SX(getattr(pr, attr))
            setattr(pr, attr, ca.vertcat(v, SX(1)) if d > 0 else v[:-1])
            _refused(ctx, "%s with %+d" % (attr, d), pr)
    for attr in ("p_opt_min", "p_opt_max", "theta_opt_min", "theta_opt_max"):
        m, pr, r = start(ctx, 100, "A", np=2, nth=2)
        add_opt(ctx, pr, r, p=(0, 1), th=(1,))
        setattr(pr, attr, ca.vertcat(SX(getattr(pr, attr)), SX(1)))
        _refused(ctx, attr, pr)
    for attr in ("L", "V"):
        m, pr, r = start(ctx, 100, "A")
        setattr(pr, attr, ca.vertcat(SX(getattr(pr, attr)), SX(1)))
        _refused(ctx, attr, pr)
    m, pr, r = start(ctx, 100, "A")
    pr.pre_solve_check()
    check(ctx, "accepted", pr, r, G)


def _refused(ctx, name, pr):
    try:
        pr.pre_solve_check()
        ok = False
    except Exception:  # noqa: BLE001  any refusal
        ok = True
    ctx.require("refuses " + name, ok, "a problem with the wrong size of %s was accepted" % name)


def sequence(ctx):
    m, pr, r = start(ctx, 100, "A", nx=2, ny=1, nu=3, np=2, nth=1)
    add_opt(ctx, pr, r, p=(1,))
    pr.connect(r.m.u[1], r.m.y[0])
    s = r.m.u[1]
    r.m.connect(s, r.m.y[0])
    for f in ("dlo", "dhi"):
        r.b[s.element_hash()].pop(f)
    check(ctx, "1 connected", pr, r, G)
    e = ctx.uf(79, m.x, m.t)
    pr.parametrize_control(r.m.u[1], e)
    r.subs(r.m.u[1], e)
    r.m.parametrize(r.m.u[1], e)
    check(ctx, "2 law", pr, r, G)
    _, o, ro = start(ctx, 200, "B", nx=1, ny=1, nu=1, np=1, nth=1)
    add_opt(ctx, o, ro, p=(0,), th=(0,))
    pr.merge([o])
    r.absorb(ro)
    check(ctx, "3 merged", pr, r, G)
    a, b = ro.m.p[0], r.m.p[0] * 2
    pr.replace_variable(a, b)
    r.subs(a, b)
    r.m.subs(a, b)
    check(ctx, "4 replaced", pr, r, G)
    lo, hi, g = ctx.arg("zlo"), ctx.arg("zhi"), ctx.arg("zg")
    u = pr.create_control("z", u_min=lo, u_max=hi, u_guess=g)
    r.put(u, lo=lo, hi=hi, guess=g)
    for k in ("u", "upar", "uexpr"):
        getattr(r.m, k).append(u)
    check(ctx, "5 control", pr, r, G)


def scenarios(tier):
    out = [Scenario("create", create), Scenario("isolated", isolated), Scenario("arguments", arguments),
           Scenario("sizes", sizes), Scenario("sequence", sequence), Scenario("working model", working), Scenario("merge refused", merge_refuse)]
    for f in ("dm", "list", "none", "scalar"):
        out.append(Scenario("include " + f, include, form=f))
    out.append(Scenario("zeros", zeros, as_number=False))
    out.append(Scenario("zeros as numbers", zeros, as_number=True))
    for what in ("u", "y"):
        for order in ((0,), (1,), (2,), (0, 2), (2, 0), (1, 2)):
            out.append(Scenario("remove %s %s" % (what, order), remove, what=what, order=order))
    for what in ("u", "y"):
        out.append(Scenario("remove %s of twelve" % what, remove, what=what, order=(10, 1, 5), n=12))
    out.append(Scenario("merge wide", merge, second=dict(nx=11, ny=3, nu=12, np=4, nth=3), first=dict(nx=3, nu=11, ny=2)))
    for h in ("swap", "expr", "list"):
        out.append(Scenario("replace " + h, replace, how=h))
    for h in ("all", "one", "law"):
        out.append(Scenario("parametrise " + h, parametrize, how=h))
    out += [Scenario("connect", connect), Scenario("connect replace", connect, replace=True),
            Scenario("connect lists", connect, listed=True), Scenario("connect no guess", connect, guess=False),
            Scenario("connect last control", connect, last=True), Scenario("connect partial guess", connect_partial),
            Scenario("merge two", merge), Scenario("merge three", merge, n=3), Scenario("merge into empty", merge, empty_first=True),
            Scenario("merge no last control", merge, last=False, opt=False),
            Scenario("merge without controls", merge, second=dict(nu=0)),
            Scenario("merge without algebraics", merge, second=dict(ny=0)),
            Scenario("merge without parameters", merge, second=dict(np=0, nth=0)),
            Scenario("merge into one without controls", merge, first=dict(nu=0)),
            Scenario("merge into one without algebraics", merge, first=dict(ny=0)),
            Scenario("merge into one without either", merge, n=3, first=dict(ny=0, nu=0), second=dict(nu=0)),
            Scenario("merge into one without parameters", merge, first=dict(np=0, nth=0))]
    if tier == "thorough":
        for nx in (1, 3):
            for ny in (0, 2):
                for nu in (1, 3):
                    for f in ("dm", "list", "none", "scalar"):
                        if ny:
                            out.append(Scenario("include %s x%d y%d u%d" % (f, nx, ny, nu), include, form=f, nx=nx, ny=ny, nu=nu))
        for second in (dict(nx=3), dict(nx=0), dict(ny=2, nu=3), dict(np=3, nth=2), dict(nx=1, ny=0, nu=0, np=0, nth=0)):
            for n in (2, 3):
                for ef in (False, True):
                    out.append(Scenario("merge %d %s %s" % (n, second, ef), merge, n=n, second=second, empty_first=ef))
        for order in ((0, 1, 2), (2, 1, 0), (1, 0), (2, 1)):
            for what in ("u", "y"):
                out.append(Scenario("remove %s %s" % (what, order), remove, what=what, order=order))
    return out
