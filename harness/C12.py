"""GKP binning for every real outcome."""
import math
from fractions import Fraction

import numpy as np

from symcheck.api import Task

BOUNDS = ("one to three real outcomes, unbounded; bin widths sqrt(pi) (as the double used by the code), 1, 0.7 and a symbolic "
          "width in (0,10]; bin boundaries k*sqrt(pi)/2 for symbolic odd k")
ASSUMPTIONS = ["exact real arithmetic; rounding of doubles next to a boundary is outside the model"]

A = float(np.sqrt(np.pi))


def parts(H, x, alpha, as_array):
    gkp = H.mod("cv.gkp")
    if as_array:
        n, f = gkp.integer_fractional(H.array([x]), alpha)
        H.check(np.shape(n) == (1,) and np.shape(f) == (1,), "array in, array out")
        return n[0], f[0]
    return gkp.integer_fractional(H.scalar(x), alpha)


def decomp(H, alpha, as_array):
    x = H.real("x")
    n, f = parts(H, x, alpha, as_array)
    H.check(H.close(n, H.floor(n)), "integer part is an integer")
    H.check(H.close(n * alpha + f, x, 1e-9), "x = n*alpha + f")
    H.check(H.all([H.leq(f, alpha / 2), H.leq(-alpha / 2, f)]), "|f| <= alpha/2")


def decomp_sym(H):
    alpha = H.real("alpha", gt=0, hi=10)
    x = H.real("x", lo=-50, hi=50)
    n, f = parts(H, x, alpha, True)
    H.check(H.close(n * alpha + f, x, 1e-9), "x = n*alpha + f")
    H.check(H.all([H.leq(f, alpha / 2), H.leq(-alpha / 2, f)]), "|f| <= alpha/2")


def bits(H, as_array):
    gkp = H.mod("cv.gkp")
    # the outcome in units of sqrt(pi); both scales range over all reals
    y = H.real("y")
    x = y * (Fraction(A) if H.symbolic else A)

    def binner(v, **k):
        r = gkp.GKP_binner(H.array([v]) if as_array else H.scalar(v), **k)
        if not as_array:
            return r
        return tuple(e[0] for e in r) if isinstance(r, tuple) else r[0]

    b = binner(x)
    b2, f = binner(x, return_fraction=True)
    H.check(H.any([b == 0, b == 1]), "bit is 0 or 1")
    H.check(b == b2, "same bit with and without fraction")
    # nearest multiple of sqrt(pi): m = floor(x/A + 1/2) away from boundaries
    m = H.floor(y + (Fraction(1, 2) if H.symbolic else 0.5))
    H.check(H.any([H.close(f, A / 2, 1e-9), H.close(f, -A / 2, 1e-9), b == m % 2]), "bit is the parity of the nearest multiple of sqrt(pi)")
    H.check(H.any([H.close(f, A / 2, 1e-9), H.close(f, -A / 2, 1e-9), H.close(f, x - m * A, 1e-9)]), "fraction is the offset from it")
    H.check(H.all([H.leq(f, A / 2), H.leq(-A / 2, f)]), "|fraction| <= sqrt(pi)/2")
    inner = H.all([H.not_(H.close(f, A / 2, 1e-9)), H.not_(H.close(f, -A / 2, 1e-9))])
    H.check(H.implies(inner, binner(x + 2 * (Fraction(A) if H.symbolic else A)) == b), "period 2 sqrt(pi)")
    H.check(H.implies(inner, binner(x + (Fraction(A) if H.symbolic else A)) == 1 - b), "shift by sqrt(pi) flips the bit")
    H.check(H.implies(H.all([y > -0.5, y < 0.5, inner]), b == 0), "central bin is 0")
    H.check(H.implies(H.all([y > 0.5, y < 1.5, inner]), b == 1), "next bin is 1")


def boundary(H, as_array):
    gkp = H.mod("cv.gkp")
    k = H.int("k", -9, 8)
    if H.symbolic:
        x = (2 * k + 1) * Fraction(A) / 2
    else:
        x = float((2 * k + 1) * Fraction(A) / 2)
        # only where the boundary is a double and the division is exact
        if Fraction(x) != (2 * k + 1) * Fraction(A) / 2:
            return
    v = H.array([x]) if as_array else H.scalar(x)
    r, f = gkp.GKP_binner(v, return_fraction=True)
    b = r[0] if as_array else r
    f = f[0] if as_array else f
    H.check(b == 0, "outcome on a bin boundary is binned to 0")
    H.check(H.any([f == A / 2, f == -A / 2]), "fraction is +-sqrt(pi)/2 on a boundary")


def boundary_exact(H):
    """The same on boundaries that are exactly representable."""
    gkp = H.mod("cv.gkp")
    ks = [k for k in range(-33, 34, 2) if Fraction(float(k * Fraction(A) / 2)) == k * Fraction(A) / 2]
    k = H.choose("k", ks)
    x = k * A / 2
    H.check(gkp.GKP_binner(H.array([x]))[0] == 0, "outcome on a bin boundary is binned to 0 (k=%d)" % k)
    H.check(gkp.GKP_binner(H.scalar(x)) == 0, "outcome on a bin boundary is binned to 0 (k=%d, scalar)" % k)


def arrays(H, n):
    gkp = H.mod("cv.gkp")
    xs = [H.real("x%d" % i) for i in range(n)]
    b, f = gkp.GKP_binner(H.array(xs), return_fraction=True)
    H.check(len(b) == n and len(f) == n, "one bit per outcome")
    for i, x in enumerate(xs):
        bi, fi = gkp.GKP_binner(H.scalar(x), return_fraction=True)
        H.check(b[i] == bi, "array and scalar bits agree")
        H.check(f[i] == fi, "array and scalar fractions agree")
    l = gkp.GKP_binner(list(xs))
    for i in range(n):
        H.check(l[i] == b[i], "list input agrees")
    e = gkp.GKP_binner(H.array([]))
    H.check(len(e) == 0, "empty input")
    m = gkp.GKP_binner(H.array([xs, xs]))
    H.check(np.shape(m) == (2, n), "shape kept")


def tasks(tier):
    T = []
    for arr in (True, False):
        for nm, a in (("sqrtpi", A), ("1", 1), ("0.7", 0.7), ("3", 3.0)):
            T.append(Task("decomp-%s-%s" % (nm, "array" if arr else "scalar"), decomp, alpha=a, as_array=arr))
        T.append(Task("bits-%s" % ("array" if arr else "scalar"), bits, as_array=arr))
        T.append(Task("boundary-%s" % ("array" if arr else "scalar"), boundary, as_array=arr))
    T.append(Task("boundary-exact", boundary_exact))
    T.append(Task("arrays", arrays, n=3))
    T.append(Task("decomp-width", decomp_sym))
    return T
