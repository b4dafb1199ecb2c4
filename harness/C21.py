"""Binary row reduction and nullspaces, entries of the matrix symbolic."""
from symcheck.api import Task

BOUNDS = ("all binary matrices of the listed shapes (entries symbolic); row-space and completeness claims are checked for a "
          "symbolic test vector, i.e. for all vectors")
ASSUMPTIONS = ["integer entries 0/1 as documented; integer overflow of numpy dtypes is not modelled"]


def matrix(H, m, n):
    la = H.mod("utils.linalg")
    vals = [[H.bit("m%d_%d" % (i, j)) for j in range(n)] for i in range(m)]
    return la, vals, H.array(vals)


def kills(H, rows, v):
    """Boolean: every row is orthogonal to v (mod 2)."""
    return H.all([H.total([r[j] * v[j] for j in range(len(v))]) % 2 == 0 for r in rows])


def rref_ok(H, R, ncols, m):
    """Boolean: R is in reduced echelon form on its first ncols columns; and list of row-nonzero flags."""
    lead = {}
    zero = []
    conds = []
    for i in range(m):
        for j in range(ncols):
            lead[i, j] = H.all([R[i][j] == 1] + [R[i][k] == 0 for k in range(j)])
        zero.append(H.all([R[i][k] == 0 for k in range(ncols)]))
    for i in range(m):
        for j in range(ncols):
            conds.append(H.implies(lead[i, j], H.all([R[k][j] == 0 for k in range(m) if k != i])))
            for k in range(i + 1, m):
                for l in range(j + 1):
                    conds.append(H.not_(H.all([lead[i, j], lead[k, l]])))
        for k in range(i + 1, m):
            conds.append(H.implies(zero[i], zero[k]))
    return H.all(conds), zero


def rank(H, rows):
    """Independent elimination."""
    rows = [list(r) for r in rows]
    if not rows:
        return 0
    rk = 0
    for j in range(len(rows[0])):
        piv = next((i for i in range(rk, len(rows)) if H.decide(rows[i][j] == 1)), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        for i in range(len(rows)):
            if i != rk and H.decide(rows[i][j] == 1):
                rows[i] = [H.xor([a, b]) for a, b in zip(rows[i], rows[rk])]
        rk += 1
        if rk == len(rows):
            break
    return rk


def ent(H, A, m, n):
    return [[H.as_int(A[i, j]) for j in range(n)] for i in range(m)]


def reduce(H, m, n, cols):
    la, vals, M = matrix(H, m, n)
    R, p = la.reduce_RREform_mod2(M) if cols is None else la.reduce_RREform_mod2(M, max_cols=cols)
    c = n if cols is None else cols
    H.check(tuple(R.shape) == (m, n), "shape kept")
    for i in range(m):
        for j in range(n):
            H.check(M[i, j] == vals[i][j], "argument untouched")
    R = ent(H, R, m, n)
    for row in R:
        for x in row:
            H.check(H.any([x == 0, x == 1]), "entries binary")
    ok, zero = rref_ok(H, R, c, m)
    H.check(ok, "reduced echelon form on the requested columns")
    H.check(H.total([H.ite(z, 0, 1) for z in zero]) == p, "pivot count is the number of nonzero rows (rank)")
    v = [H.bit("v%d" % j) for j in range(n)]
    H.check(H.iff(kills(H, vals, v), kills(H, R, v)), "row space unchanged")


def null(H, m, n):
    la, vals, M = matrix(H, m, n)
    B = la.nullspace_basis(M)
    k = B.shape[0]
    for i in range(m):
        for j in range(n):
            H.check(M[i, j] == vals[i][j], "argument untouched")
    H.check(len(B.shape) == 2 and B.shape[1] == n, "basis vectors have one entry per column")
    rows = ent(H, B, k, n)
    for r in rows:
        for x in r:
            H.check(H.any([x == 0, x == 1]), "entries binary")
        H.check(kills(H, vals, r), "basis vectors annihilated by the matrix")
    c = [H.bit("c%d" % i) for i in range(k)]
    comb = [H.total([c[i] * rows[i][j] for i in range(k)]) % 2 for j in range(n)]
    H.check(H.implies(H.all([x == 0 for x in comb]), H.all([x == 0 for x in c])), "basis vectors independent")
    H.check(k == n - rank(H, vals), "dimension is columns minus rank")


def tasks(tier):
    out = []
    red = [(1, 1, None), (1, 4, None), (4, 1, None), (2, 3, None), (3, 3, None), (3, 4, None), (4, 3, None), (3, 5, 3),
           (2, 6, 3), (4, 6, 2), (3, 4, 0), (2, 3, 3)]
    nul = [(1, 1), (1, 4), (4, 1), (2, 4), (3, 3), (3, 4), (4, 3), (2, 5)]
    if tier == "thorough":
        red += [(4, 4, None), (5, 3, None), (3, 5, None), (4, 8, 3), (3, 9, 4), (2, 8, 6), (6, 2, None)]
        nul += [(4, 4), (5, 3), (3, 5), (2, 7), (6, 2)]
    for m, n, c in red:
        s = 8 if m * n > 14 and c is None or (c or 0) * m > 14 else (2 if m * n >= 12 and c is None else 1)
        out.append(Task("reduce-%dx%d-%s" % (m, n, c), reduce, split=s, opts={"cost": m * n}, m=m, n=n, cols=c))
    for m, n in nul:
        s = 8 if m * n > 14 else (3 if m * n >= 12 else 1)
        out.append(Task("null-%dx%d" % (m, n), null, split=s, opts={"cost": m * n + 1}, m=m, n=n))
    return out
