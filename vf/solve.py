"""SMT back end: decides  hyps => concl  for every value of the atoms in a box."""
import os
import pickle
import random
import select
import signal
import time

import z3

from .enc import Poly, Unsupported, _mmul, frac

BOX = 8.0
HYP_SLACK = 1e-7
REL = 1e-10          # relative rounding of coefficients


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.seconds = 0.0
        self.lemmas = 0
        self.exact = 0
        self.overruns = 0
        self.twins = 0
        self.cross = 0
        self.paths = 0


def _minus(a, b):
    """a - b with coefficients that agree up to rounding cancelled."""
    r = a - b
    for m in [m for m, c in r.t.items() if abs(c) <= REL * max(abs(a.t.get(m, 0.0)), abs(b.t.get(m, 0.0)))]:
        del r.t[m]
    return r


LIMIT = 400000       # monomial products when denominators are cleared


def cleared(enc, a, b):
    """The numerator of a - b: denominators multiplied out and even powers of square
    roots replaced by their radicands.  It vanishes iff a - b does wherever both are
    defined.  None when it would grow beyond LIMIT."""
    d = {}
    for p, sg in ((a, 1.0), (b, -1.0)):
        for m, c in p.t.items():
            v, g = d.get(m, (0.0, 0.0))
            d[m] = (v + sg * c, max(g, abs(c)))
    work, done = 0, set()
    while True:
        tidy = {m: q for m, q in d.items() if abs(q[0]) > 1e-9 * q[1]}
        ids = {i for m in tidy for i, _ in m if enc.atoms[i].kind in ("inv", "sqrt") and i not in done}
        if not ids:
            return Poly({m: q[0] for m, q in tidy.items()})
        i = max(ids)
        done.add(i)
        arg = enc.atoms[i].args[0]
        exps = {m: dict(m).get(i, 0) for m in d}
        top = max(0, max(exps.values()))
        low = min(0, min(exps.values()))
        pw = [Poly.const(1.0)]
        new = {}
        for m, (c, g) in d.items():
            rest, e = tuple(q for q in m if q[0] != i), exps[m]
            if enc.atoms[i].kind == "inv":
                k, odd = top - e, 0
            else:
                e -= low - (low % 2)
                k, odd = e // 2, e % 2
            while len(pw) <= k:
                if len(pw[-1].t) * len(arg.t) > LIMIT:
                    return None
                pw.append(pw[-1] * arg)
            if odd:
                rest = tuple(sorted(rest + ((i, 1),)))
            work += len(pw[k].t)
            if work > LIMIT:
                return None
            for m2, c2 in pw[k].t.items():
                mm = _mmul(rest, m2)
                v, h = new.get(mm, (0.0, 0.0))
                new[mm] = (v + c * c2, max(h, abs(g * c2)))
        d = new


class Group:
    """One hypothesis set with its solver; conclusions are pushed one by one."""

    def __init__(self, enc, stats, hyps, box=BOX, timeout_ms=20000, slack=HYP_SLACK):
        self.enc, self.stats, self.box = enc, stats, box
        self.timeout_ms = timeout_ms
        self.slack = slack
        whole = any(a.kind == "floor" for a in enc.atoms)
        self.s = z3.Solver() if whole else z3.SolverFor("QF_LRA")
        self.s.set("timeout", timeout_ms)
        self.mono = {}          # monomial -> z3 Real
        self.known_atoms = set()
        self.lemma_pairs = set()
        self.hyps = hyps
        self.base = []
        for (p, lo, hi) in hyps:
            self._assert_hyp(self.s, p, lo, hi)

    # -- terms
    def var(self, m):
        v = self.mono.get(m)
        if v is None:
            name = "*".join("a%d^%d" % (i, e) for i, e in m)
            v = z3.Real(name)
            self.mono[m] = v
            deg = sum(e for _, e in m)
            single = len(m) == 1 and m[0][1] == 1
            at = self.enc.atoms[m[0][0]] if single else None
            if any(e < 0 for _, e in m):
                if all(e % 2 == 0 for _, e in m):
                    self._fact(v >= 0)
            elif not single or at.kind in ("in", "uf"):
                b = z3.RealVal(str(frac(self.box ** deg)))
                self._fact(z3.And(v >= -b, v <= b))
                if not single and all(e % 2 == 0 for _, e in m):
                    self._fact(v >= 0)
            for (i, _) in m:
                self.atom(i)
            if not single:
                for k, (i, _) in enumerate(m):
                    if self.enc.atoms[i].kind in ("lt", "le", "eq", "ne"):      # 0 or 1
                        rest = m[:k] + m[k + 1:]
                        b = self.var(((i, 1),))
                        r = self.var(rest) if rest else z3.RealVal(1)
                        self._fact(z3.And(z3.Implies(b == 0, v == 0), z3.Implies(b == 1, v == r)))
                        break
        return v

    def atom(self, i):
        if i in self.known_atoms:
            return
        self.known_atoms.add(i)
        v = self.var(((i, 1),))
        a = self.enc.atoms[i]
        k = a.kind
        if k in ("in", "uf"):
            return
        if k == "const":
            return
        if k in ("max", "min"):
            x, y = self.term(a.args[0]), self.term(a.args[1])
            if k == "max":
                self._fact(z3.And(v >= x, v >= y, z3.Or(v <= x, v <= y)))
            else:
                self._fact(z3.And(v <= x, v <= y, z3.Or(v >= x, v >= y)))
        elif k == "abs":
            x = self.term(a.args[0])
            self._fact(z3.And(v >= x, v >= -x, z3.Or(v <= x, v <= -x)))
        elif k == "floor":
            x = self.term(a.args[0])
            self._fact(z3.And(z3.ToReal(z3.Int("k%d" % i)) == v, v <= x, x < v + 1))
        elif k == "sign":
            x = self.term(a.args[0])
            self._fact(z3.And(z3.Implies(x > 0, v == 1), z3.Implies(x < 0, v == -1),
                              z3.Implies(x == 0, v == 0)))
        elif k in ("lt", "le", "eq", "ne"):
            x, y = self.term(a.args[0]), self.term(a.args[1])
            c = {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[k]
            self._fact(z3.And(z3.Implies(c, v == 1), z3.Implies(z3.Not(c), v == 0)))
            self._fact(self.var(((i, 2),)) == v)
        elif k == "inv":
            me = Poly({((i, 1),): 1.0})
            self._fact(self.term(a.args[0] * me) == 1)
        elif k == "sqrt":
            self._fact(v >= 0)
            self._fact(self.var(((i, 2),)) == self.term(a.args[0]))

    def _fact(self, f):
        self.base.append(f)
        # facts are valid everywhere and only ever added below the push level
        self.s.add(f)

    def term(self, p):
        if not p.t:
            return z3.RealVal(0)
        parts = []
        for m, c in p.t.items():
            cf = frac(c)
            if cf == 0:
                continue
            q = z3.RealVal(str(cf))
            parts.append(q if m == () else q * self.var(m))
        if not parts:
            return z3.RealVal(0)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def _assert_hyp(self, s, p, lo, hi):
        t = self.term(p)
        if lo is not None:
            s.add(t >= z3.RealVal(str(frac(lo))) - z3.RealVal(str(frac(self.slack))))
        if hi is not None:
            s.add(t <= z3.RealVal(str(frac(hi))) + z3.RealVal(str(frac(self.slack))))

    def _viol(self, a, b, lo, hi, eps):
        d = self.term(_minus(a, b))
        e = z3.RealVal(str(frac(eps)))
        alts = []
        if lo is not None:
            alts.append(d < z3.RealVal(str(frac(lo))) - e)
        if hi is not None:
            alts.append(d > z3.RealVal(str(frac(hi))) + e)
        return z3.Or(alts) if alts else z3.BoolVal(False)

    def _check(self, s):
        t = time.time()
        r = s.check()
        self.stats.seconds += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def feasible(self):
        return self._check(self.s)

    # -- main entry
    def refute(self, concls, eps, want_model=True):
        """concls: list of (a, b, lo, hi): the claim lo <= a-b <= hi for each.
        Returns ('unsat', None) | ('sat', model) | ('unknown', None)."""
        concls = [self._normal(c) for c in concls]
        self.linear = True          # decided on the linear abstraction (what smt2 writes)
        if not self.hyps:
            w = self._witness(concls, eps)
            if w is not None:
                return "sat", w
        formula = z3.Or([self._viol(a, b, lo, hi, eps) for (a, b, lo, hi) in concls])
        nonlinear = False
        for rnd in range(14):
            self.s.push()
            self.s.add(formula)
            r = self._check(self.s)
            if r != z3.sat:
                self.s.pop()
                return ("unsat" if r == z3.unsat else "unknown"), None
            m = self.s.model()
            vals = self._values(m)
            self.s.pop()
            new = self._congruence(vals)
            if not new:
                break
            self.stats.lemmas += len(new)
            for f in new:
                self.base.append(f)
                self.s.add(f)
        nonlinear = any(len(mm) > 1 or mm[0][1] > 1 for mm in self.mono if mm)
        if nonlinear and not self._consistent(vals):
            r, v2 = self._exact(formula)
            self.linear = False
            if r == "unsat":
                return "unsat", None
            if r == "sat":
                return "sat", self._inputs(v2)
            return "unknown", self._inputs(vals)
        return "sat", self._inputs(vals)

    def _normal(self, c):
        a, b, lo, hi = c
        if lo == 0 and hi == 0:
            d = _minus(a, b)
            if any(self.enc.atoms[i].kind in ("inv", "sqrt") for m in d.t for i, _ in m):
                q = cleared(self.enc, a, b)
                if q is not None and not q.t:
                    return Poly(), Poly(), lo, hi
        return c

    def _witness(self, concls, eps):
        """A point at which a claim with denominators or roots fails, by evaluation."""
        if not any(self.enc.atoms[i].kind in ("inv", "sqrt") for c in concls for p in c[:2] for m in p.t for i, _ in m):
            return None
        g = random.Random(11)
        for k in range(30):
            vals = {n: g.uniform(0.2, 1.7) if k % 2 else g.uniform(-1.7, 1.7) for n in self.enc.inputs}
            try:
                v = self.enc.evaluate([p for c in concls for p in c[:2]], vals)
            except (Unsupported, ValueError, ZeroDivisionError, OverflowError):
                continue
            for j, (a, b, lo, hi) in enumerate(concls):
                d, t = v[2 * j] - v[2 * j + 1], max(10 * eps, 1e-6 * max(abs(v[2 * j]), abs(v[2 * j + 1])))
                if (lo is not None and d < lo - t) or (hi is not None and d > hi + t):
                    self.stats.queries += 1
                    self.stats.sat += 1
                    return vals
        return None

    def _values(self, m):
        out = {}
        for k, v in self.mono.items():
            x = m.eval(v, model_completion=True)
            try:
                out[k] = float(x.as_fraction())
            except Exception:
                try:
                    out[k] = float(x.approx(15).as_fraction())
                except Exception:
                    out[k] = 0.0
        return out

    def _pv(self, p, vals):
        return sum(c * (1.0 if mm == () else vals.get(mm, 0.0)) for mm, c in p.t.items())

    def _congruence(self, vals):
        groups = {}
        for i in self.known_atoms:
            a = self.enc.atoms[i]
            if a.kind in ("uf", "inv", "sqrt"):
                groups.setdefault((a.kind, a.op, len(a.args)), []).append(a)
        new = []
        for lst in groups.values():
            buckets = {}
            for a in lst:
                av = tuple(round(self._pv(p, vals), 7) for p in a.args)
                buckets.setdefault(av, []).append(a)
            for b in buckets.values():
                rep = b[0]
                rv = vals.get(((rep.id, 1),), 0.0)
                for a in b[1:]:
                    if abs(vals.get(((a.id, 1),), 0.0) - rv) < 1e-9:
                        continue
                    key = (rep.id, a.id)
                    if key in self.lemma_pairs:
                        continue
                    self.lemma_pairs.add(key)
                    t = z3.RealVal("1/1000000")
                    diff = []
                    for p, q in zip(rep.args, a.args):
                        d = self.term(p - q)
                        diff.append(z3.Or(d > t, d < -t))
                    new.append(z3.Or(diff + [self.var(((rep.id, 1),)) == self.var(((a.id, 1),))]))
                    if len(new) > 400:
                        return new
        return new

    def _consistent(self, vals):
        for mm, v in vals.items():
            if len(mm) > 1 or mm[0][1] > 1:
                x = 1.0
                for (i, e) in mm:
                    b = vals.get(((i, 1),), 0.0)
                    if e < 0 and b == 0:
                        return False
                    x *= b ** e
                if abs(x - v) > 1e-6 * max(1.0, abs(x)):
                    return False
        return True

    def _exact(self, formula):
        self.stats.exact += 1
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.set("rlimit", 40000000)       # the timeout alone is not always honoured
        for f in self.s.assertions():
            s.add(f)
        s.add(formula)
        for mm, v in list(self.mono.items()):
            if len(mm) > 1 or mm[0][1] > 1:
                num, den = z3.RealVal(1), v
                for (i, e) in mm:
                    for _ in range(abs(e)):
                        x = self.var(((i, 1),))
                        if e > 0:
                            num = num * x
                        else:
                            den = den * x
                s.add(den == num)
        for f in self.base:
            s.add(f)
        return self._bounded(s)

    def _bounded(self, s):
        """Decides s in a child that is ended when it overruns: neither the time-out nor
        the resource limit is honoured inside the non-linear engine."""
        limit = 1.25 * self.timeout_ms / 1000 if self.stats.overruns < 3 else 2.0
        t = time.time()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                r = s.check()
                out = (str(r), self._values(s.model()) if r == z3.sat else None)
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(out, fh)
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        while True:
            left = t + limit - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                self.stats.overruns += 1
                buf = b""
                break
            q = os.read(rd, 1 << 16)
            if not q:
                break
            buf += q
        os.close(rd)
        os.waitpid(pid, 0)
        r, v = pickle.loads(buf) if buf else ("unknown", None)
        self.stats.seconds += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, v

    def _inputs(self, vals):
        out = {}
        for name, a in self.enc.inputs.items():
            out[name] = vals.get(((a.id, 1),))
        return {k: v for k, v in out.items() if v is not None}

    def smt2(self, concls, eps):
        formula = z3.Or([self._viol(a, b, lo, hi, eps) for (a, b, lo, hi) in [self._normal(c) for c in concls]])
        s = z3.Solver()
        for f in self.s.assertions():
            s.add(f)
        s.add(formula)
        return "(set-logic QF_LRA)\n" + s.to_smt2()
