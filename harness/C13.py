"""Conditional phase-error probabilities."""
import math
from fractions import Fraction

import numpy as np

from symcheck.api import Task

BOUNDS = ("one or two variances and outcomes, every positive variance and every real outcome symbolic; summation range var_num in "
          "{1,2,3} (quick) up to the default 10 (thorough and one quick task); 0/0 cases with outcomes in [-8,8] and variances 1/2000, 1/1000; unconditional probabilities: one or two (thorough 3) widths in [1/50, 3], "
          "summation range 5 (default) and 8, to within 1e-4")
ASSUMPTIONS = ["exact real arithmetic, exp an uninterpreted positive function (terms compared by their exact arguments)",
               "erf an increasing odd function with its values at 7 points and a bounded slope",
               "underflow of exp modelled as exp(x) = 0 below x = -745.13"]

A = float(np.sqrt(np.pi))
FA = Fraction(A)


def oracle(H, var, hom, N, whole):
    """(numerator, denominator, fraction)."""
    gkp = H.mod("cv.gkp")
    bit, frac = gkp.GKP_binner(H.scalar(hom), return_fraction=True)
    wrong = 1 - H.concrete(bit) if whole else 1
    z = hom if whole else frac
    a = FA if H.symbolic else A
    num = H.total([H.exp(-((z - (2 * i + wrong) * a) ** 2) / var) for i in range(-N, N)])
    den = H.total([H.exp(-((z - i * a) ** 2) / var) for i in range(-2 * N, 2 * N)])
    return num, den, frac


def same(H, r, num, den):
    """r = num/den without dividing by zero."""
    if H.symbolic:
        return r == num / den
    if den == 0:
        return True
    return H.close(r, num / den, 1e-9)


def variance(H, name):
    return H.real(name, gt=0)


def ratio(H, N, whole, form):
    gkp = H.mod("cv.gkp")
    var, hom = variance(H, "var"), H.real("hom")
    if not H.symbolic and abs(hom) > 1000:
        return
    kw = dict(var_num=N, use_hom_val=whole)
    num, den, _ = oracle(H, var, hom, N, whole)
    if form == "scalar":
        r = gkp.Z_err_cond(H.scalar(var), H.scalar(hom), **kw)
    elif form == "list":
        r = gkp.Z_err_cond([var], [hom], **kw)
    elif form == "array":
        r = gkp.Z_err_cond(H.array([var]), H.array([hom]), **kw)
    else:
        r = gkp.Z_err_cond([var], H.scalar(hom), **kw)
    H.check(np.ndim(r) == 0, "one value in, one value out")
    H.check(same(H, r, num, den), "probability is wrong-parity weight over total weight")
    H.check(H.leq(num, den), "probability at most 1")
    H.check(H.leq(0, num), "probability at least 0")
    H.check(den >= 0, "total weight nonnegative")


def default_range(H):
    gkp = H.mod("cv.gkp")
    var, hom = variance(H, "var"), H.real("hom")
    if not H.symbolic and abs(hom) > 1000:
        return
    r = gkp.Z_err_cond(H.scalar(var), H.scalar(hom))
    num, den, _ = oracle(H, var, hom, 10, False)
    H.check(same(H, r, num, den), "default summation range is 10")


def elementwise(H, N, whole, shape):
    """Array forms agree with the scalar form element by element."""
    gkp = H.mod("cv.gkp")
    kw = dict(var_num=N, use_hom_val=whole)
    n = 2
    homs = [H.real("hom%d" % i) for i in range(n)]
    if not H.symbolic and max(abs(h) for h in homs) > 1000:
        return
    if shape == "var-scalar":
        v = variance(H, "var")
        vs, arg_v, arg_h = [v] * n, H.scalar(v), H.array(homs)
    elif shape == "hom-scalar":
        vs = [variance(H, "var%d" % i) for i in range(n)]
        homs = [homs[0]] * n
        arg_v, arg_h = H.array(vs), H.scalar(homs[0])
    else:
        vs = [variance(H, "var%d" % i) for i in range(n)]
        arg_v = list(vs) if shape == "lists" else H.array(vs)
        arg_h = list(homs) if shape == "lists" else H.array(homs)
    ref = [oracle(H, vs[i], homs[i], N, whole) for i in range(n)]
    r = gkp.Z_err_cond(arg_v, arg_h, **kw)
    H.check(np.shape(r) == (n,), "one probability per entry")
    for i in range(n):
        s = gkp.Z_err_cond(H.scalar(vs[i]), H.scalar(homs[i]), **kw)
        H.check(H.close(r[i], s, 1e-9), "array form agrees with the scalar form")
        num, den, _ = ref[i]
        H.check(same(H, r[i], num, den), "probability is wrong-parity weight over total weight")


def undefined(H, N, whole, repl, form):
    """0/0: all Gaussians underflow."""
    gkp = H.mod("cv.gkp")
    kw = dict(var_num=N, use_hom_val=whole)
    if repl is not None:
        kw["replace_undefined"] = repl
    v1, v2 = (Fraction(1, 2000), 1) if H.symbolic else (1 / 2000, 1.0)
    lim = A * (1 if not whole else 3 * N)
    hom = H.real("hom", lo=-lim, hi=lim)
    v3 = {"scalar": [v1], "one": [v1]}.get(form, [v2, v1, v1])
    ref = [oracle(H, v, hom, N, whole) for v in v3]
    if form == "scalar":
        rs = [gkp.Z_err_cond(H.scalar(v1), H.scalar(hom), **kw)]
        vs = [v1]
    elif form == "one":
        rs = [gkp.Z_err_cond([v1], [hom], **kw)]
        vs = [v1]
    else:
        vs = [v2, v1, v1]
        r = gkp.Z_err_cond(list(vs), H.array([hom, hom, hom]), **kw)
        H.check(np.shape(r) == (3,), "one probability per entry")
        rs = [r[0], r[1], r[2]]
    for (num, den, frac), r in zip(ref, rs):
        if H.decide(den == 0):
            if repl == "bin_location":
                H.check(H.close(r, abs(frac) / (FA if H.symbolic else A), 1e-9), "bin_location is |fraction|/sqrt(pi)")
                H.check(H.all([r >= 0, r <= 0.5 + (0 if H.symbolic else 1e-9)]), "bin_location lies in [0,1/2]")
            else:
                H.check(r == (0 if repl is None else repl), "0/0 gives the requested replacement")
        else:
            H.check(same(H, r, num, den), "defined cases are not replaced")


GRID = (2, 4, 6, 8, 10, 12, 14)


def erf_atoms(x):
    """The erf terms (constant, reference, value) of an expression c * erf(constant * reference)."""
    from symcheck import core

    out = []
    for m in getattr(x, "p", {}):
        for i in m:
            a = core.ATOMS[i]
            if a.kind == "fn" and a.data[0] == "erf" and len(a.data[1]) == 1:
                (ref, c), = a.data[1].items()
                out.append((c, ref, core.SymNum({(i,): 1}, False)))
    return out


def unconditional(H, n, top, var_num):
    """Z_err: one minus the mass of the even bins, whatever the other entries."""
    gkp = H.mod("cv.gkp")
    a = FA if H.symbolic else A
    vs = [H.real("var%d" % i, lo=Fraction(1, 50), hi=top) for i in range(n)]
    K = int(top * 8 // 2) + 4
    r = gkp.Z_err(H.array(vs), *([] if var_num is None else [var_num]))
    H.check(np.shape(r) == (n,), "one probability per entry")
    for j, v in enumerate(vs):
        edges = [(4 * k + s) * a / 2 for k in range(K) for s in (1, 3)]
        E = {c: H.erf(c / v) for c in edges}
        want = 1 - E[edges[0]]
        for k in range(1, K):
            want = want - (E[(4 * k + 1) * a / 2] - E[(4 * k - 1) * a / 2])
        if H.symbolic:
            # facts about erf: increasing, its values at a grid of points, slope at most 2/sqrt(pi)
            terms, facts = erf_atoms(r[j]), []
            for c, e in E.items():
                t = erf_atoms(e)
                if t:
                    terms += t
                for g in GRID:
                    val = Fraction(math.erf(g / 4))
                    facts.append(H.implies(c >= Fraction(g, 4) * v, e >= val - Fraction(1, 10**6)))
                    facts.append(H.implies(c <= Fraction(g, 4) * v, e <= val + Fraction(1, 10**6)))
            terms = sorted({(c, ref): e for c, ref, e in terms}.items(), key=lambda t: (t[0][1], t[0][0]))
            for ((c, ref), e), ((c2, ref2), e2) in zip(terms, terms[1:]):
                if ref == ref2:
                    facts.append(e <= e2)
                    if c2 - c < Fraction(1, 10**9):
                        facts.append(e2 - e <= Fraction(1, 10**6))
            H.assume(H.all(facts))
        eps = Fraction(1, 10**4) if H.symbolic else 1e-4
        H.check(H.all([r[j] - want <= eps, want - r[j] <= eps]), "the error probability is one minus the mass of the even bins")


def tasks(tier):
    T = []
    for n, top in ((1, 1), (2, 2), (1, 3)) + (((2, 3), (3, 2)) if tier == "thorough" else ()):
        for var_num in (None, 8):
            T.append(Task("unconditional-%d-%d-%s" % (n, top, var_num), unconditional, n=n, top=top, var_num=var_num, opts={"cost": 5}))
    for whole in (False, True):
        w = "hom" if whole else "frac"
        for N in (1, 2, 3) + ((5, 10) if tier == "thorough" else ()):
            for form in ("scalar", "list", "array", "mixed"):
                T.append(Task("ratio-%s-%d-%s" % (w, N, form), ratio, N=N, whole=whole, form=form))
        for shape in ("lists", "arrays", "var-scalar", "hom-scalar"):
            for N in (2,) + ((4,) if tier == "thorough" else ()):
                T.append(Task("elementwise-%s-%d-%s" % (w, N, shape), elementwise, N=N, whole=whole, shape=shape))
        for repl in (None, 0.25, "bin_location"):
            for form in ("scalar", "one", "many"):
                T.append(Task("undefined-%s-%s-%s" % (w, repl, form), undefined, opts={"exp_underflow": True, "cost": 10}, N=1, whole=whole,
                              repl=repl, form=form))
    T.append(Task("default-range", default_range))
    return T
