"""CasADi expression graph -> polynomials over atoms.

The repository builds its mathematics as CasADi expressions.  Running the real
code on CasADi symbols is therefore a symbolic execution of it; what comes out
is flattened to an SX instruction tape and each instruction is interpreted here
over *polynomials in atoms*.  An atom is an input symbol, an application of an
uninterpreted function, or the result of fmax/fmin/abs/compare/division/sqrt
with its defining constraints.  The translation is regenerated on every run.

Uninterpreted functions: the user-supplied dynamics, costs and constraints of a
scenario are written as  uf(k, a1..an) = sin(k + atan2(a1, atan2(a2, ...)))  and
sin/atan2 are *not* interpreted, so a verdict holds for every function of those
arguments.
"""
import math
from fractions import Fraction

import casadi as ca

SNAP = 1e-11      # coefficients below are rounding noise of exact cancellations
MATCH = 1e-9      # tolerance for identifying UF arguments / coefficients


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "op", "args", "name")

    def __init__(self, id, kind, op=None, args=(), name=None):
        self.id, self.kind, self.op, self.args, self.name = id, kind, op, args, name


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        return Poly({(): float(c)} if c != 0 else {})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0.0)

    def clean(self):
        for m in [m for m, c in self.t.items() if abs(c) < SNAP]:
            del self.t[m]
        return self

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0.0) + c
            if abs(v) < SNAP:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, k):
        if k == 0:
            return Poly()
        return Poly({m: c * k for m, c in self.t.items()}).clean()

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                r[m] = r.get(m, 0.0) + c1 * c2
        return Poly(r).clean()

    def key(self):
        return tuple(sorted(self.t))


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
        if d[v] == 0:            # x * 1/x, x nonzero wherever 1/x is defined
            del d[v]
    return tuple(sorted(d.items()))


def close(p, q, tol=MATCH):
    """Polynomials equal up to rounding of their coefficients."""
    for m, c in p.t.items():
        d = q.t.get(m, 0.0)
        if abs(c - d) > tol * max(1.0, abs(c), abs(d)):
            return False
    for m, c in q.t.items():
        if m not in p.t and abs(c) > tol:
            return False
    return True


class Encoder:
    """Holds the atom table of one scenario; shared by all its claims."""

    def __init__(self):
        self.atoms = []
        self.inputs = {}      # name -> atom
        self.table = {}       # (kind, op, shape-key) -> [atom]
        self.instructions = 0
        self.nan = False
        self.order = set()    # ids of lt/le atoms

    # ---- atoms
    def input(self, name):
        a = self.inputs.get(name)
        if a is None:
            a = Atom(len(self.atoms), "in", name=name)
            self.atoms.append(a)
            self.inputs[name] = a
        return Poly({((a.id, 1),): 1.0})

    def app(self, kind, op, args):
        key = (kind, op, tuple(p.key() for p in args))
        lst = self.table.setdefault(key, [])
        for a in lst:
            if all(close(x, y) for x, y in zip(a.args, args)):
                return Poly({((a.id, 1),): 1.0})
        # a coefficient at the snap threshold may change the key: look wider
        for k2, l2 in self.table.items():
            if k2[0] == kind and k2[1] == op and k2 != key and len(k2[2]) == len(args):
                for a in l2:
                    if all(close(x, y) for x, y in zip(a.args, args)):
                        return Poly({((a.id, 1),): 1.0})
        a = Atom(len(self.atoms), kind, op, tuple(args))
        self.atoms.append(a)
        lst.append(a)
        return Poly({((a.id, 1),): 1.0})

    def single_atom(self, p, coef=1.0):
        """The atom if p is exactly 1*atom, else None."""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == coef:
                return self.atoms[m[0][0]]
        return None

    def compare(self, kind, a):
        p = self.app(kind, kind, a)
        self.order.add(self.single_atom(p).id)
        return p

    def select(self, p):
        """lt(a,b) * (b - a) is max(a,b) - a: a selection written with a comparison
        (if_else) and one written with fmax/fmin become the same polynomial."""
        if not self.order:
            return p
        ids = {i for m in p.t for i, _ in m if i in self.order}
        for i in sorted(ids):
            C, D = {}, {}
            for m, c in p.t.items():
                if any(j == i for j, _ in m):
                    if any(j == i and e < 1 for j, e in m):
                        break
                    k = tuple(x for x in m if x[0] != i)        # 0 or 1: powers collapse
                    C[k] = C.get(k, 0.0) + c
                else:
                    D[m] = c
            else:
                a, b = self.atoms[i].args
                d = b - a
                C = Poly(C).clean()
                if not C.t or set(C.t) != set(d.t) or d.is_const():
                    continue
                m0 = max(d.t, key=lambda m: abs(d.t[m]))
                k = C.t[m0] / d.t[m0]
                if close(C, d.scale(k)):
                    p = Poly(D) + (self.op(ca.OP_FMAX, [a, b]) - a).scale(k)
        return p

    # ---- tape
    def run(self, fun, in_polys):
        """fun: SX Function; in_polys: per input, list of polys for nonzeros.
        Returns, per output, a dense column-major list of polys."""
        if not fun.is_a("SXFunction"):
            fun = fun.expand()
        n = fun.n_instructions()
        self.instructions += n
        w = [None] * fun.sz_w()
        outs = [[Poly()] * fun.nnz_out(i) for i in range(fun.n_out())]
        for k in range(n):
            op = fun.instruction_id(k)
            o = fun.instruction_output(k)
            if op == ca.OP_CONST:
                c = fun.instruction_constant(k)
                self.nan = self.nan or math.isnan(c)
                if not math.isfinite(c):
                    w[o[0]] = self.app("const", repr(c), ())
                else:
                    w[o[0]] = Poly.const(c)
                continue
            i = fun.instruction_input(k)
            if op == ca.OP_INPUT:
                w[o[0]] = in_polys[i[0]][i[1]]
                continue
            if op == ca.OP_OUTPUT:
                outs[o[0]][o[1]] = w[i[0]]
                continue
            w[o[0]] = self.op(op, [w[j] for j in i])
        res = []
        for j in range(fun.n_out()):
            sp = fun.sparsity_out(j)
            dense = [Poly()] * (sp.size1() * sp.size2())
            rows, cols = sp.get_triplet()
            for (r, c, v) in zip(rows, cols, outs[j]):
                dense[r + c * sp.size1()] = v
            res.append(dense)
        return res

    UF1 = {}

    def op(self, op, a):
        if op == ca.OP_ASSIGN:
            return a[0]
        if op == ca.OP_ADD:
            return self.select(a[0] + a[1])
        if op == ca.OP_SUB:
            return self.select(a[0] - a[1])
        if op == ca.OP_MUL:
            return self.select(a[0] * a[1])
        if op == ca.OP_NEG:
            return a[0].neg()
        if op == ca.OP_TWICE:
            return a[0].scale(2.0)
        if op == ca.OP_SQ:
            return a[0] * a[0]
        if op == ca.OP_DIV:
            return self.div(a[0], a[1])
        if op == ca.OP_INV:
            return self.div(Poly.const(1.0), a[0])
        if op in (ca.OP_POW, ca.OP_CONSTPOW):
            e = a[1]
            if e.is_const() and float(e.cval()).is_integer() and 0 <= e.cval() <= 16:
                r = Poly.const(1.0)
                for _ in range(int(e.cval())):
                    r = r * a[0]
                return r
            if e.is_const() and float(e.cval()).is_integer() and -16 <= e.cval() < 0:
                r = Poly.const(1.0)
                for _ in range(int(-e.cval())):
                    r = r * a[0]
                return self.div(Poly.const(1.0), r)
            if e.is_const() and e.cval() == 0.5:
                return self.sqrt(a[0])
            return self.app("uf", ("pow",), a)
        if op == ca.OP_SQRT:
            return self.sqrt(a[0])
        if op == ca.OP_SIN:
            return self.sin(a[0])
        if all(p.is_const() for p in a):
            v = self._fold(op, [p.cval() for p in a])
            if v is not None:
                return Poly.const(v)
        if op in (ca.OP_FMAX, ca.OP_FMIN):
            k = "max" if op == ca.OP_FMAX else "min"
            if close(a[0], a[1]):
                return a[0]
            # +-inf bounds
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                at = self.single_atom(x)
                if at is not None and at.kind == "const":
                    if (at.op == "-inf") == (k == "max"):
                        return y
            return self.app(k, k, tuple(sorted(a, key=lambda p: (len(p.t), str(sorted(p.t.items()))))))
        if op == ca.OP_FABS:
            return self.app("abs", "abs", a)
        if op == ca.OP_FLOOR:
            return self.app("floor", "floor", a)
        if op == ca.OP_CEIL:
            return self.app("floor", "floor", (a[0].neg(),)).neg()
        if op == ca.OP_SIGN:
            return self.app("sign", "sign", a)
        if op == ca.OP_LT:
            return self.compare("lt", a)
        if op == ca.OP_LE:
            return self.compare("le", a)
        if op == ca.OP_EQ:
            return self.app("eq", "eq", a)
        if op == ca.OP_NE:
            return self.app("ne", "ne", a)
        if op == ca.OP_NOT:
            return Poly.const(1.0) - a[0]
        if op == ca.OP_AND:
            return a[0] * a[1]
        if op == ca.OP_OR:
            return a[0] + a[1] - a[0] * a[1]
        if op == ca.OP_IF_ELSE_ZERO:
            return self.select(a[0] * a[1])
        if op == ca.OP_ATAN2:
            return self.app("uf", ("atan2",), a)
        names = {getattr(ca, n): n for n in dir(ca) if n.startswith("OP_")
                 and isinstance(getattr(ca, n), int)}
        if op in names and names[op] in (
                "OP_COS", "OP_TAN", "OP_EXP", "OP_LOG", "OP_ASIN", "OP_ACOS", "OP_ATAN",
                "OP_SINH", "OP_COSH", "OP_TANH", "OP_ASINH", "OP_ACOSH", "OP_ATANH",
                "OP_ERF", "OP_FMOD", "OP_EXPM1", "OP_LOG1P",
                "OP_HYPOT", "OP_COPYSIGN", "OP_ERFINV"):
            return self.app("uf", (names[op],), a)
        raise Unsupported("CasADi operation %s" % names.get(op, op))

    @staticmethod
    def _fold(op, v):
        f = {ca.OP_LT: lambda x, y: float(x < y), ca.OP_LE: lambda x, y: float(x <= y),
             ca.OP_EQ: lambda x, y: float(x == y), ca.OP_NE: lambda x, y: float(x != y),
             ca.OP_FMAX: max, ca.OP_FMIN: min, ca.OP_FABS: abs,
             ca.OP_FLOOR: math.floor, ca.OP_CEIL: math.ceil,
             ca.OP_SIGN: lambda x: float((x > 0) - (x < 0)), ca.OP_EXP: math.exp,
             ca.OP_COS: math.cos, ca.OP_ATAN2: math.atan2}.get(op)
        return f(*v) if f else None

    def div(self, p, q):
        if q.is_const():
            if q.cval() == 0:
                raise Unsupported("division by zero constant")
            return p.scale(1.0 / q.cval())
        if len(q.t) == 1:        # monomial denominator: negative exponents
            (m, c), = q.t.items()
            return p * Poly({tuple((i, -e) for i, e in m): 1.0 / c})
        return p * self.app("inv", "inv", (q,))

    def sqrt(self, p):
        if p.is_const() and p.cval() >= 0:
            return Poly.const(math.sqrt(p.cval()))
        if not p.t:
            return Poly()
        c = abs(p.t[max(p.t)])      # sqrt(c q) = sqrt(c) sqrt(q), c > 0
        return self.app("sqrt", "sqrt", (p.scale(1.0 / c),)).scale(math.sqrt(c))

    def sin(self, p):
        """sin(k + atan2-chain) is the n-ary uninterpreted function of index k."""
        if p.is_const():
            return Poly.const(math.sin(p.cval()))
        k = p.cval()
        rest = Poly({m: c for m, c in p.t.items() if m != ()})
        at = self.single_atom(rest)
        if at is not None and at.kind == "uf" and at.op == ("atan2",):
            args = []
            while at is not None and at.kind == "uf" and at.op == ("atan2",):
                args.append(at.args[0])
                nxt = self.single_atom(at.args[1])
                if nxt is not None and nxt.kind == "uf" and nxt.op == ("atan2",):
                    at = nxt
                else:
                    args.append(at.args[1])
                    at = None
            return self.app("uf", ("f", round(k, 6), len(args)), tuple(args))
        return self.app("uf", ("sin",), (p,))

    # ---- numeric evaluation of polynomials (translator self-check)
    def evaluate(self, polys, values):
        """values: {input name: float}. UFs get their CasADi meaning."""
        memo = {}

        def atom(i):
            if i in memo:
                return memo[i]
            a = self.atoms[i]
            if a.kind == "in":
                v = values[a.name]
            elif a.kind == "const":
                v = float(a.op)
            else:
                x = [ev(p) for p in a.args]
                v = _num(a, x)
            memo[i] = v
            return v

        def ev(p):
            s = 0.0
            for m, c in p.t.items():
                t = c
                for (i, e) in m:
                    t *= atom(i) ** e
                s += t
            return s

        return [ev(p) for p in polys]


def _num(a, x):
    if a.kind == "uf":
        if a.op[0] == "f":
            z = x[-1]
            for v in reversed(x[:-1]):
                z = math.atan2(v, z)
            return math.sin(a.op[1] + z)
        if a.op[0] == "sin":
            return math.sin(x[0])
        if a.op[0] == "atan2":
            return math.atan2(*x)
        if a.op[0] == "pow":
            return x[0] ** x[1]
        nm = a.op[0]
        f = {"OP_COS": math.cos, "OP_EXP": math.exp, "OP_LOG": math.log, "OP_TAN": math.tan,
             "OP_ATAN": math.atan, "OP_TANH": math.tanh, "OP_FMOD": math.fmod}.get(nm)
        if f is None:
            raise Unsupported("numeric " + nm)
        return f(*x)
    k = a.kind
    if k == "inv":
        return 1.0 / x[0]
    if k == "sqrt":
        return math.sqrt(x[0])
    if k == "max":
        return max(x)
    if k == "min":
        return min(x)
    if k == "abs":
        return abs(x[0])
    if k == "floor":
        return float(math.floor(x[0]))
    if k == "sign":
        return float((x[0] > 0) - (x[0] < 0))
    if k == "lt":
        return float(x[0] < x[1])
    if k == "le":
        return float(x[0] <= x[1])
    if k == "eq":
        return float(x[0] == x[1])
    if k == "ne":
        return float(x[0] != x[1])
    raise Unsupported(k)


def frac(c):
    """Coefficient as an exact short rational (12 significant digits)."""
    return Fraction("%.12g" % c)
