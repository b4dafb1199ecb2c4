"""CZ network and four-splitter."""
import math
from fractions import Fraction

import numpy as np

from symcheck.api import Task

BOUNDS = ("every symmetric real-weighted adjacency matrix with up to 4 modes (thorough 6), every real vector and every real (also non-symmetric) matrix of "
          "quadratures symbolic, integer and real entries, dense / sparse array / sparse matrix adjacency; four-splitter blocks for 4 to 12 modes with every "
          "input vector symbolic; every permutation of up to 5 (thorough 6) items")
ASSUMPTIONS = ["exact real arithmetic", "scipy.sparse modelled by dense arithmetic with the sparse/dense kind of every result tracked",
               "thewalrus.symplectic.expand and beam_splitter run natively (constant inputs)"]


def adjacency(H, n, integer, loops=False):
    """Rows of a symmetric matrix with zero (or arbitrary) diagonal."""
    mk = (lambda s: H.int(s, -3, 3)) if integer else (lambda s: H.real(s, lo=-10, hi=10))
    a = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            a[i][j] = a[j][i] = mk("a%d%d" % (i, j))
        if loops:
            a[i][i] = mk("a%d%d" % (i, i))
    return a


def wrap(H, rows, form):
    if form == "dense":
        return H.array(rows)
    return H.sparse(rows, form)


def equal(H, x, y):
    return H.close(x, y, 1e-9)


def entries(H, m):
    m = m.toarray() if hasattr(m, "toarray") else m
    return m


def is_dense(m):
    return isinstance(m, np.ndarray)


def matrix(H, n, form, integer):
    ops = H.mod("cv.ops")
    a = adjacency(H, n, integer)
    for sparse in (True, False):
        s = ops.SCZ_mat(wrap(H, a, form), sparse=sparse)
        H.check(is_dense(s) == (form == "dense" or not sparse), "sparse iff asked for and the adjacency is")
        s = entries(H, s)
        H.check(tuple(s.shape) == (2 * n, 2 * n), "2N by 2N")
        for i in range(n):
            for j in range(n):
                d = int(i == j)
                H.check(H.all([equal(H, s[i, j], d), equal(H, s[i, n + j], 0), equal(H, s[n + i, j], a[i][j]), equal(H, s[n + i, n + j], d)]),
                        "blocks identity, zero, adjacency, identity")
        # S^T Omega S = Omega
        for i in range(2 * n):
            for j in range(2 * n):
                v = H.total([s[k, i] * s[n + k, j] - s[n + k, i] * s[k, j] for k in range(n)])
                H.check(equal(H, v, 1 if j == i + n else (-1 if i == j + n else 0)), "symplectic")


def vector(H, n, form, integer, intquads, one_shot=None):
    ops = H.mod("cv.ops")
    a = adjacency(H, n, integer)
    x = [H.int("x%d" % k, -5, 5) if intquads else H.real("x%d" % k, lo=-100, hi=100) for k in range(2 * n)]
    for one in (True, False):
        q = H.array(x)
        out = ops.SCZ_apply(wrap(H, a, form), q, one_shot=one)
        H.check(len(out) == 2 * n, "length")
        for i in range(n):
            H.check(equal(H, out[i], x[i]), "positions unchanged (one_shot=%s)" % one)
            H.check(equal(H, out[n + i], x[n + i] + H.total([a[i][j] * x[j] for j in range(n)])), "momenta shifted (one_shot=%s)" % one)
        for i in range(2 * n):
            H.check(equal(H, q[i], x[i]), "input left alone")


def covariance(H, n, form, integer, intquads):
    ops = H.mod("cv.ops")
    a = adjacency(H, n, integer)
    m = [[H.int("m%d_%d" % (i, j), -4, 4) if intquads else H.real("m%d_%d" % (i, j), lo=-9, hi=9) for j in range(2 * n)] for i in range(2 * n)]
    s = [[int(i == j) for j in range(2 * n)] for i in range(2 * n)]
    for i in range(n):
        for j in range(n):
            s[n + i][j] = a[i][j]
    for one in (True, False):
        out = ops.SCZ_apply(wrap(H, a, form), H.array(m), one_shot=one)
        H.check(tuple(out.shape) == (2 * n, 2 * n), "shape")
        for i in range(2 * n):
            for j in range(2 * n):
                v = H.total([s[i][k] * m[k][l] * s[j][l] for k in range(2 * n) for l in range(2 * n)
                             if not (isinstance(s[i][k], int) and s[i][k] == 0) and not (isinstance(s[j][l], int) and s[j][l] == 0)])
                H.check(equal(H, out[i, j], v), "S M S^T (one_shot=%s)" % one)


def splitter(H, n):
    ops = H.mod("cv.ops")
    b = np.asarray(ops.splitter_symp(n) if n != 4 else ops.splitter_symp())
    H.check(b.shape == (2 * n, 2 * n), "one block per four modes")
    tol = 1e-6
    x = [H.real("x%d" % k, lo=-1, hi=1) for k in range(2 * n)]
    bf = [[Fraction(float(b[i, j])) if H.symbolic else float(b[i, j]) for j in range(2 * n)] for i in range(2 * n)]

    def ix(mode, p):
        return (mode + 4 * p) if n == 4 else 2 * mode + p

    y = [H.total([bf[i][j] * x[j] for j in range(2 * n)]) for i in range(2 * n)]
    signs = None
    if n != 4:
        # the same network in the 'all q's first' convention
        b4 = np.asarray(ops.splitter_symp())
        signs = [[1 if b4[i, j] > 0 else -1 for j in range(4)] for i in range(4)]
    for g in range(n // 4):
        ms = range(4 * g, 4 * g + 4)
        rows = [[bf[ix(i, 0)][ix(j, 0)] for j in ms] for i in ms]
        sg = [[1 if v > 0 else -1 for v in r] for r in rows]
        H.check(signs is None or sg == signs, "the same four-splitter in every macronode and convention")
        signs = sg
        for r, i in zip(sg, ms):
            for p in (0, 1):
                want = H.total([Fraction(s, 2) * x[ix(j, p)] if H.symbolic else s / 2 * x[ix(j, p)] for s, j in zip(r, ms)])
                d = y[ix(i, p)] - want
                H.check(H.all([d <= tol, d >= -tol]), "each output is half a signed sum of the four inputs, alike on positions and momenta")
        for i in range(4):
            for j in range(4):
                H.check(sum(sg[i][k] * sg[j][k] for k in range(4)) == (4 if i == j else 0), "orthogonal")
    # norm is preserved
    e = H.total([v * v for v in y]) - H.total([v * v for v in x])
    if not H.symbolic:
        H.check(abs(e) < 1e-4, "norm")


def refused(H):
    ops = H.mod("cv.ops")
    n = H.choose("n", [0, 1, 2, 3])
    with H.silence():
        try:
            ops.splitter_symp(n)
            H.fail("fewer than four modes are refused")
        except Exception:
            pass
    H.check(True, "refused")


def inverse(H, n):
    ops = H.mod("cv.ops")
    p = H.permutation("p", range(n))
    q = ops.invert_permutation(np.array(p))
    q = [int(v) for v in q]
    H.check(len(q) == n and all(q[p[i]] == i for i in range(n)) and all(p[q[i]] == i for i in range(n)), "two-sided inverse")


def tasks(tier):
    q = tier == "quick"
    out = []
    forms = ("dense", "csr_array", "csr_matrix")
    for f in forms:
        for n in range(1, 5 if q else 7):
            for integer in (False, True):
                if integer and n > 2:
                    continue
                out.append(Task("matrix-%d-%s-%d" % (n, f, integer), matrix, n=n, form=f, integer=integer))
                for iq in (False, True):
                    if iq and n > 2:
                        continue
                    out.append(Task("vector-%d-%s-%d%d" % (n, f, integer, iq), vector, n=n, form=f, integer=integer, intquads=iq))
                    if n <= (3 if q else 4):
                        out.append(Task("cov-%d-%s-%d%d" % (n, f, integer, iq), covariance, n=n, form=f, integer=integer, intquads=iq, opts={"cost": n}))
    for n in (4, 8, 12):
        out.append(Task("splitter-%d" % n, splitter, n=n))
    out.append(Task("splitter-refused", refused))
    for n in range(1, 6 if q else 7):
        out.append(Task("inverse-%d" % n, inverse, n=n))
    return out
