"""Symbolic models with arbitrary equations, and the comparison of a SystemModel
with the equations it is meant to have (stated on the user's own symbols)."""
import casadi as ca

from .core import zero

SX, DM = ca.SX, ca.DM


def els(v):
    if isinstance(v, (list, tuple)):
        v = ca.vertcat(*v) if len(v) else None
    v = ca.vec(SX(v)) if v is not None else SX(0, 1)
    return [v[i] for i in range(v.numel())]


def same_symbols(a, b):
    a, b = els(a), els(b)
    return len(a) == len(b) and all(ca.is_equal(p, q) for p, q in zip(a, b))


def vcat(lst):
    return ca.vertcat(*lst) if lst else SX(0, 1)


class Ref:
    """What a model is meant to be: ordered variables and equations."""

    def __init__(self):
        self.x, self.y, self.u, self.p, self.th = [], [], [], [], []
        self.ode = []           # aligned with x
        self.alg = []           # a set of rows
        self.upar = []          # parameters of the controls
        self.uexpr = []         # aligned with u
        self.t = self.tau = None

    def copy(self):
        r = Ref()
        for k, v in self.__dict__.items():
            setattr(r, k, list(v) if isinstance(v, list) else v)
        return r

    def subs(self, a, b):
        a, b = vcat(els(a)), vcat(els(b))
        for k in ("ode", "alg", "uexpr"):
            setattr(self, k, [ca.substitute(e, a, b) for e in getattr(self, k)])

    def absorb(self, o):
        """Composition of two models over this one's time."""
        for k in ("x", "y", "u", "p", "th", "ode", "alg", "upar", "uexpr"):
            setattr(self, k, getattr(self, k) + list(getattr(o, k)))
        self.subs(ca.vertcat(o.t, o.tau), ca.vertcat(self.t, self.tau))

    def connect(self, u, y, replace=False):
        u, y = els(u), els(y)
        if replace:
            self.subs(u, y)
        else:
            self.alg += [a - b for a, b in zip(u, y)]
            self.y += u
        self.drop("u", u)

    def drop(self, kind, syms):
        syms = els(vcat(syms))
        if kind == "u":
            keep = [i for i, v in enumerate(self.u) if not any(ca.is_equal(v, s) for s in syms)]
            self.u = [self.u[i] for i in keep]
            self.uexpr = [self.uexpr[i] for i in keep]
            self.upar = [v for v in self.upar if not any(ca.is_equal(v, s) for s in syms)]
        elif kind == "x":
            keep = [i for i, v in enumerate(self.x) if not any(ca.is_equal(v, s) for s in syms)]
            self.x = [self.x[i] for i in keep]
            self.ode = [self.ode[i] for i in keep]
        else:
            cur = getattr(self, kind)
            setattr(self, kind, [v for v in cur if not any(ca.is_equal(v, s) for s in syms)])

    def parametrize(self, u, expr, upar=None):
        u, expr = els(u), els(expr)
        self.upar = [v for v in self.upar if not any(ca.is_equal(v, s) for s in u)] + (els(upar) if upar is not None else [])
        self.subs(u, expr)


def make(ctx, k, name, nx=2, ny=1, nu=1, np=1, nth=1, tau=True, prefix=False):
    """A SystemModel with arbitrary equations (index base k) and its Ref."""
    from yaocptool.modelling import SystemModel
    m = SystemModel(name=name, model_name_as_prefix=prefix)
    r = Ref()
    r.t, r.tau = m.t, m.tau
    c = "" if prefix else name + "_"
    x = m.create_state(c + "x", nx) if nx else SX(0, 1)
    y = m.create_algebraic_variable(c + "y", ny) if ny else SX(0, 1)
    u = m.create_control(c + "u", nu) if nu else SX(0, 1)
    p = m.create_parameter(c + "p", np) if np else SX(0, 1)
    th = m.create_theta(c + "th", nth) if nth else SX(0, 1)
    args = [m.t] + ([m.tau] if tau else []) + [x, y, u, p, th]
    ode = [ctx.uf(k + i, *args) for i in range(nx)]
    alg = [ctx.uf(k + 20 + i, *args) for i in range(ny)]
    if nx:
        m.include_equations(ode=ca.vertcat(*ode))
    if ny:
        m.include_equations(alg=ca.vertcat(*alg))
    r.x, r.y, r.u, r.p, r.th = els(x), els(y), els(u), els(p), els(th)
    r.ode, r.alg = ode, alg
    r.upar, r.uexpr = els(u), els(u)
    return m, r


def check_model(ctx, name, m, r):
    """m is the model described by r: variables, equations, the DAE used for
    simulation, and closedness (no symbol from elsewhere)."""
    for a, b, what in ((m.x, r.x, "x"), (m.y, r.y, "y"), (m.u, r.u, "u"), (m.p, r.p, "p"),
                       (m.theta, r.th, "theta"), (m.u_par, r.upar, "u_par")):
        ctx.require("%s variables %s" % (name, what), same_symbols(a, vcat(b)),
                    "%s: %s instead of %s" % (what, a, vcat(b)))
    ctx.require(name + " sizes", (m.n_x, m.n_y, m.n_u, m.n_p, m.n_theta, m.n_u_par) ==
                (len(r.x), len(r.y), len(r.u), len(r.p), len(r.th), len(r.upar)), "sizes differ")
    ctx.require(name + " names", list(m.x_names) == [s.name() for s in r.x] and
                list(m.y_names) == [s.name() for s in r.y] and list(m.u_names) == [s.name() for s in r.u],
                "names differ")
    if r.ode:
        ctx.equal(name + " differential equations", m.ode, vcat(r.ode))
    else:
        ctx.require(name + " differential equations", m.ode.numel() == 0, "unexpected equations")
    same_rows(ctx, name + " algebraic equations", m.alg, r.alg)
    if r.u:
        ctx.equal(name + " control expressions", m.u_expr, vcat(r.uexpr))
    else:
        ctx.require(name + " control expressions", m.u_expr.numel() == 0, "unexpected control expressions")
    # closed over the declared variables
    known = ca.vertcat(m.t, m.tau, *[vcat(els(v)) for v in (m.x, m.y, m.p, m.theta, m.u_par)])
    free = [s.name() for s in ca.symvar(ca.vertcat(SX(m.ode), SX(m.alg), SX(m.u_expr)))
            if not any(ca.is_equal(s, q) for q in els(known))]
    ctx.require(name + " closed", not free, "equations contain undeclared symbols %s" % free)
    d = m.get_dae_system()
    ctx.require(name + " dae variables", same_symbols(d.x, vcat(r.x)) and same_symbols(d.y, vcat(r.y))
                and same_symbols(d.p, vcat(r.p + r.th + r.upar)), "DAE variables x=%s y=%s p=%s" % (d.x, d.y, d.p))
    if r.ode:
        ctx.equal(name + " dae ode", d.ode, vcat(r.ode))
    if r.y:
        same_rows(ctx, name + " dae alg", d.alg, r.alg)
    ctx.require(name + " type", m.system_type == ("dae" if r.y else "ode") and d.is_dae == bool(r.alg and r.y)
                and d.is_ode != d.is_dae, "system type")


def same_rows(ctx, name, got, want):
    """Two lists of equations e = 0 with the same solutions and the same count."""
    got = els(got)
    ctx.require(name + " count", len(got) == len(want), "%d equations instead of %d" % (len(got), len(want)))
    if want:
        ctx.same_set(name, zero(vcat(got)), zero(vcat(want)))
