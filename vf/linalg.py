"""Exact contracts for the linear algebra CasADi does numerically: with these
active, solve/inv/chol of symbolic matrices are the rational (resp. square-root)
expressions that define them, so equal results have equal encodings."""
import casadi as ca

SX = ca.SX


def det(a):
    n = a.shape[0]
    if n == 0:
        return SX(1)
    if n == 1:
        return a[0, 0]
    s = SX(0)
    for j in range(n):
        s = s + (-1) ** j * a[0, j] * det(minor(a, 0, j))
    return s


def minor(a, i, j):
    n = a.shape[0]
    return a[[r for r in range(n) if r != i], [c for c in range(n) if c != j]]


def inv(a):
    a = SX(a)
    n = a.shape[0]
    if a.shape[1] != n:
        raise RuntimeError("inv: matrix of shape %s" % (a.shape,))
    if n == 0:
        return a
    d = 1 / det(a)
    q = SX.zeros(n, n)
    for i in range(n):
        for j in range(n):
            q[j, i] = (-1) ** (i + j) * (det(minor(a, i, j)) if n > 1 else SX(1)) * d
    return q


def solve(a, b, *rest):
    a, b = SX(a), SX(b)
    if a.shape[0] != b.shape[0]:
        raise RuntimeError("solve Ax=b: dimension mismatch: b has %d rows while A has %d." % (b.shape[0], a.shape[0]))
    if a.shape[0] == 0:
        return SX.zeros(a.shape[1], b.shape[1])
    return ca.mtimes(inv(a), b)


def chol(a):
    """Upper triangular R, R'R = a."""
    a = ca.densify(SX(a))
    n = a.shape[0]
    if a.shape[1] != n:
        raise RuntimeError("chol: matrix of shape %s" % (a.shape,))
    r = SX.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            s = a[i, j]
            for k in range(i):
                s = s - r[k, i] * r[k, j]
            r[i, j] = ca.sqrt(s) if i == j else s / r[i, i]
    return r
