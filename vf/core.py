"""Scenario context: the vocabulary in which checks state their claims.

Modes
  sym   inputs are CasADi symbols, user functions are uninterpreted, integrators
        are replaced by contract stubs; claims are decided by the SMT solver.
  semi  like sym, but arguments the API documents as numeric are seeded DM
        values (used only when the code under test refuses symbols there).
  num   replay: nothing is stubbed, user functions are concrete smooth
        functions, claims are evaluated on the real code in floating point.
"""
import hashlib
import math
import random
import time

import casadi as ca

from . import enc as E
from .solve import BOX, Group, Stats

SX, DM, MX = ca.SX, ca.DM, ca.MX


class Structural(Exception):
    """The code's result lacks the documented shape (wrong count, missing part)."""


class HarnessError(Exception):
    pass


class NeedNumbers(Exception):
    """Raised by a scenario that only makes sense on numeric arguments."""


class Ctx:
    def __init__(self, mode="sym", seed=1, tier="quick", only=None, point=None, semi=False,
                 cross=False, hint=0):
        self.mode = mode
        self.semi = semi or mode == "semi"
        self.seed = seed
        self.tier = tier
        self.only = only            # claim to replay
        self.point = point or {}
        self.enc = E.Encoder()
        self.stats = Stats()
        self.fail = []              # (claim, kind, model, message)
        self.claims = []
        self.samples = []
        self.confirmed = None       # num mode: replay outcome
        self._ids = {}
        self._names = {}
        self.rng = random.Random(seed * 7919 + 17)
        self.translator_checks = 0
        self.scalars = 0
        self.cross = cross
        self.hint = hint
        self.notes = []
        self.path = []              # path condition of the path explorer
        self._inputs = {}

    def input(self, name, n=1):
        """The same symbol for the same name on every explored path."""
        if name not in self._inputs:
            self._inputs[name] = SX.sym(name, n)
        return SX(self._inputs[name])       # a copy: the code may write into what it is given

    def number(self, name, n=1, k=0):
        """Concrete value of an input: the solver's point (k=0) or a seeded one."""
        r = random.Random("%s/%d/%d" % (name, self.seed, k))
        out = []
        for i in range(n):
            v = self.point.get(name if n == 1 else "%s_%d" % (name, i)) if k == 0 else None
            out.append(r.uniform(-1.5, 1.5) if v is None else v)
        return DM(out)

    # ------------------------------------------------------------ inputs
    def sym(self, name, n=1):
        return SX.sym(name, n)

    def arg(self, name, n=1):
        """A numeric argument of a public call: symbolic, or DM in semi mode."""
        if self.semi:
            r = random.Random("%s/%d" % (name, self.seed))
            return DM([round(r.uniform(-1.5, 1.5), 3) for _ in range(n)])
        return SX.sym(name, n)

    def uf(self, k, *args):
        """An arbitrary scalar function (index k) of its arguments."""
        z = []
        for a in args:
            a = SX(a) if not isinstance(a, SX) else a
            z += [a[i] for i in range(a.numel())]
        if not z:
            z = [SX(0.25), SX(0.5)]
        if len(z) == 1:
            z = z + [SX(0.5)]
        if self.mode == "num":
            h = random.Random("uf%s" % k)
            e = SX(h.uniform(-0.5, 0.5))
            for i, v in enumerate(z):
                e = e + h.choice([-1, 1]) * h.uniform(0.3, 1.2) * v
                e = e + 0.07 * h.uniform(-1, 1) * v * z[(i + 1) % len(z)]
            return e
        t = z[-1]
        for v in reversed(z[:-1]):
            t = ca.atan2(v, t)
        return ca.sin(float(k) + t)

    def ufv(self, k, n, *args):
        return ca.vertcat(*[self.uf(k + i, *args) for i in range(n)]) if n else SX(0, 1)

    # ------------------------------------------------------------ expressions
    def _name_of(self, s):
        h = s.element_hash()
        if h not in self._ids:
            base = s.name()
            c = self._names.get(base, 0)
            self._names[base] = c + 1
            # the symbol is stored: its hash is an address and must stay alive
            self._ids[h] = (base if c == 0 else "%s#%d" % (base, c), s)
        return self._ids[h][0]

    def polys(self, exprs):
        flat = ca.vertcat(*[ca.vec(ca.densify(SX(e))) for e in exprs]) if exprs else SX(0, 1)
        syms = ca.symvar(flat)
        names = [self._name_of(s) for s in syms]
        f = ca.Function("claim", [ca.vertcat(*syms)] if syms else [SX(0, 1)], [flat])
        out = self.enc.run(f, [[self.enc.input(n) for n in names]])[0]
        if self.enc.nan and not self.semi:
            raise NeedNumbers("a symbol was converted to a number")
        # translator self-check: encoding vs CasADi at a random point
        vals = {n: self.rng.uniform(0.2, 1.7) for n in self.enc.inputs}
        try:
            got = self.enc.evaluate(out, vals)
        except (E.Unsupported, ValueError, ZeroDivisionError, OverflowError):
            got = None
        if got is not None:
            ref = f(DM([vals[n] for n in names])) if names else f(DM(0, 1))
            for i, g in enumerate(got):
                r = float(ref[i])
                if math.isfinite(r) and abs(g - r) > 1e-6 * max(1.0, abs(r)):
                    raise HarnessError("translator disagrees with CasADi: %r vs %r" % (g, r))
            self.translator_checks += len(got)
        self.scalars += len(out)
        return out

    def _nums(self, exprs, point):
        flat = ca.vertcat(*[ca.vec(ca.densify(SX(e))) for e in exprs])
        syms = ca.symvar(flat)
        names = [self._name_of(s) for s in syms]
        f = ca.Function("claim", [ca.vertcat(*syms)] if syms else [SX(0, 1)], [flat])
        return f, names

    # ------------------------------------------------------------ claims
    def require(self, name, cond, msg):
        """Structural fact of the produced objects (sizes, presence)."""
        self.claims.append(name)
        if not cond:
            if self.mode == "num":
                if self.only in (None, name):
                    self.confirmed = {"claim": name, "message": msg}
                return
            self.fail.append((name, "structural", {}, msg))

    def equal(self, name, impl, ref, eps=1e-6, box=BOX):
        """impl == ref for every value of the symbols."""
        impl, ref = SX(impl), SX(ref)
        if impl.numel() != ref.numel():
            self.require(name, False, "size %s instead of %s" % (impl.shape, ref.shape))
            return
        impl, ref = ca.vec(ca.densify(impl)), ca.vec(ca.densify(ref))
        self.implies(name, [], [(impl[i], ref[i], 0, 0) for i in range(impl.numel())],
                     eps=eps, box=box)

    def implies(self, name, hyps, concls, eps=None, box=BOX, timeout_ms=20000, twin=True):
        """hyps: [(expr, lo, hi)]   concls: [(a, b, lo, hi)] meaning lo<=a-b<=hi.
        lo/hi None = unbounded.  Decided for every value of the symbols in the box."""
        self.claims.append(name)
        if eps is None:
            eps = 1e-4 if hyps else 1e-6
        hyps = list(self.path) + list(hyps)
        hyps = [h for h in hyps if h[1] is not None or h[2] is not None]
        concls = [c for c in concls if c[2] is not None or c[3] is not None]
        if self.mode == "num":
            if self.only is None or self.only == name:
                self._replay(name, hyps, concls, box)
            return
        if not concls:
            return
        ps = self.polys([h[0] for h in hyps] + [c[0] for c in concls] + [c[1] for c in concls])
        nh, nc = len(hyps), len(concls)
        H = [(ps[i], hyps[i][1], hyps[i][2]) for i in range(nh)]
        C = [(ps[nh + i], ps[nh + nc + i], concls[i][2], concls[i][3]) for i in range(nc)]
        # z3 terms of coefficients of infinite constants are excluded by callers
        g = Group(self.enc, self.stats, H, box=box, timeout_ms=timeout_ms)
        if H:
            r = g.feasible()
            if str(r) == "unsat":
                self.fail.append((name, "vacuous", {}, "the hypotheses admit no point at all"))
                return
        if len(self.samples) < 3:
            self.samples.append({"claim": name, "hypotheses": nh, "conclusions": nc,
                                 "first": _short(concls[0])})
        status = "unsat"
        if not H and nc > 1:
            status, model = g.refute(C, eps)
            if status == "unsat":
                if self.cross:
                    self._cross(g, C, eps)
        if H or nc == 1 or status != "unsat":
            for i, c in enumerate(C):
                st, model = g.refute([c], eps)
                if st == "unsat":
                    if self.cross and i % 5 == 0:
                        self._cross(g, [c], eps)
                    continue
                self.fail.append((name, st, model or {}, "component %d: %s" % (i, _short(concls[i])), i))
                return
        # reachability twin: the same conclusion moved by one must be refutable
        if twin:
            a, b, lo, hi = C[0]
            one = E.Poly.const(1.0)
            if lo is not None and hi is not None:
                st, _ = g.refute([(a + one, b, lo, hi)], eps)
                self.stats.twins += 1
                if st == "unsat":
                    raise HarnessError("vacuous claim %s: its negated twin is unsatisfiable" % name)

    def same_set(self, name, impl, ref, **kw):
        """Two constraint systems [(expr, lo, hi)] have the same solutions."""
        self.implies(name + "/sound", impl, [(e, SX(0), lo, hi) for (e, lo, hi) in ref], **kw)
        self.implies(name + "/complete", ref, [(e, SX(0), lo, hi) for (e, lo, hi) in impl], **kw)

    def _cross(self, g, C, eps):
        if not g.linear:
            return
        try:
            import cvc5
        except Exception:
            return
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        s.setOption("tlimit-per", "20000")
        parser = cvc5.InputParser(s)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, g.smt2(C, eps), "q")
        sm = parser.getSymbolManager()
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(s, sm)
            if out and out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
        self.stats.cross += 1
        if res == "sat":
            raise HarnessError("z3 and cvc5 disagree")

    # ------------------------------------------------------------ replay
    def _replay(self, name, hyps, concls, box):
        if self.confirmed or not concls:
            return
        rng = random.Random(self.seed + 5)
        exprs = [h[0] for h in hyps] + [SX(c[0]) - SX(c[1]) for c in concls] + ([] if hyps else [SX(c[1]) for c in concls])
        undefined = {}
        f, names = self._nums(exprs, self.point)
        nh = len(hyps)

        def bad(v, i):
            lo, hi = concls[i][2], concls[i][3]
            x = float(v)
            if not math.isfinite(x):
                return None
            if lo is not None and x < lo:
                return lo - x
            if hi is not None and x > hi:
                return x - hi
            return 0.0

        if not hyps:
            for trial in range(25):
                pt = []
                for n in names:
                    v = self.point.get(n)
                    if trial > 0 or v is None:
                        v = rng.uniform(-1.5, 1.5)
                    pt.append(v)
                out = f(DM(pt)) if names else f(DM(0, 1))
                for i in range(len(concls)):
                    d = bad(out[i], i)
                    if d is None and math.isfinite(float(out[len(concls) + i])):
                        undefined[i] = undefined.get(i, 0) + 1      # the code's value is not a number, the reference is
                        if undefined[i] > 5:
                            d = math.inf
                    r = float(out[len(concls) + i])
                    if math.isfinite(r) and abs(r) > 1e8:       # beyond what doubles can tell apart
                        continue
                    if d is not None and d > 1e-5 * max(1.0, abs(r) if math.isfinite(r) else 1.0):
                        self.confirmed = {"claim": name, "component": i, "difference": d if math.isfinite(d) else "not a number",
                                          "point": dict(zip(names, pt)),
                                          "expr": _short(concls[i])}
                        return
            return
        if not names:
            out = f(DM(0, 1))
            for j in range(nh):
                v = float(out[j])
                if (hyps[j][1] is not None and v < hyps[j][1] - 1e-7) or \
                        (hyps[j][2] is not None and v > hyps[j][2] + 1e-7):
                    return
            for i in range(len(concls)):
                d = bad(out[nh + i], i)
                if d is not None and d > 1e-5:
                    self.confirmed = {"claim": name, "component": i, "difference": d, "expr": _short(concls[i])}
                    return
            return
        x = ca.SX.sym("z", len(names))
        out = f(x)
        g = out[:nh]
        lb = DM([(-ca.inf if h[1] is None else h[1]) for h in hyps])
        ub = DM([(ca.inf if h[2] is None else h[2]) for h in hyps])
        opts = {"ipopt.print_level": 0, "print_time": 0, "show_eval_warnings": False, "ipopt.linear_solver": "mumps",
                "ipopt.max_iter": 300, "ipopt.sb": "yes", "ipopt.tol": 1e-9,
                "ipopt.fixed_variable_treatment": "relax_bounds"}
        idx = list(range(len(concls)))
        idx.sort(key=lambda i: abs(i - self.hint))
        t_end = time.time() + 90
        for i in idx:
            if time.time() > t_end:
                return
            for sgn in (1, -1):
                if sgn == 1 and concls[i][3] is None or sgn == -1 and concls[i][2] is None:
                    continue
                obj = -sgn * out[nh + i]
                try:
                    s = ca.nlpsol("rp", "ipopt", {"x": x, "f": obj, "g": g}, opts)
                    for start in range(2):
                        x0 = [self.point.get(n, 0.0) if start == 0 else rng.uniform(-1, 1)
                              for n in names]
                        sol = s(x0=DM(x0), lbx=-3 * box, ubx=3 * box, lbg=lb, ubg=ub)
                        v = f(sol["x"])
                        viol = 0.0
                        for j in range(nh):
                            if hyps[j][1] is not None:
                                viol = max(viol, hyps[j][1] - float(v[j]))
                            if hyps[j][2] is not None:
                                viol = max(viol, float(v[j]) - hyps[j][2])
                        d = bad(v[nh + i], i)
                        if viol < 1e-6 and d is not None and d > 1e-3:
                            self.confirmed = {
                                "claim": name, "component": i, "difference": d,
                                "hypothesis_residual": viol,
                                "point": {n: float(sol["x"][k]) for k, n in enumerate(names)},
                                "expr": _short(concls[i])}
                            return
                except RuntimeError:
                    continue


def _short(c):
    s = "; ".join(str(x) for x in c)
    return s if len(s) < 220 else s[:217] + "..."


def bounds(expr, lb, ub):
    """[(scalar, lo, hi)] rows of lb <= expr <= ub, infinities dropped."""
    expr = ca.vec(ca.densify(SX(expr)))
    lb, ub = ca.vec(ca.densify(DM(lb))), ca.vec(ca.densify(DM(ub)))
    rows = []
    for i in range(expr.numel()):
        lo, hi = float(lb[i]), float(ub[i])
        if lo == math.inf or hi == -math.inf:       # nothing satisfies this bound
            rows.append((SX(0), 1.0, 1.0))
            continue
        rows.append((expr[i], None if lo == -math.inf else lo, None if hi == math.inf else hi))
    return [r for r in rows if r[1] is not None or r[2] is not None]


def zero(expr):
    expr = ca.vec(ca.densify(SX(expr)))
    return [(expr[i], 0.0, 0.0) for i in range(expr.numel())]


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:12]
