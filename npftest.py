"""Differential test of the numpy / scipy.sparse facade: each expression on symbolic entries must,
for every assignment of them, equal what numpy computes natively."""
import ast
import os
import sys
import traceback

os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from fractions import Fraction  # noqa: E402

import numpy as np  # noqa: E402
from symcheck import api, core, loader, npf  # noqa: E402

EXPRS = """
A @ B
A.dot(v)
np.dot(A, B) % 2
(A @ B) % 2 == 0
np.where(A, B, 7)
np.where(v == 1)[0]
np.argwhere(A)
np.nonzero(A)
np.flatnonzero(v)
A[v.astype(bool)]
A[v == 0]
v[[1, 0]]
np.concatenate([A, B], axis=1)
np.hstack((A, B))
np.vstack((A, v))
np.stack([v, w])
np.block([[A, B], [B, A]])
np.kron(A, B)
np.outer(v, w)
np.multiply.outer(v, w)
np.einsum('ij,j->i', A, v)
np.einsum('ij,jk->ik', A, B)
np.tensordot(A, B, axes=1)
np.trace(A)
np.diag(A)
np.diagonal(A)
np.triu(A, 1)
np.tril(A)
np.fill_diagonal(A, 5) or A
np.sort(v)
np.argsort(v, kind='stable')
np.unique(v)
np.bincount(v)
np.isin(v, [1])
np.setdiff1d(v, [0])
np.in1d(v, [0]) if hasattr(np, 'in1d') else 0
np.cumsum(v)
np.cumprod(v)
np.diff(v)
np.prod(v + 1)
np.any(A, axis=1)
np.all(A, axis=0)
A.any()
A.all()
np.logical_xor(v, w)
np.logical_xor.reduce(v)
np.bitwise_xor.reduce(v)
np.bitwise_xor(v, w)
np.add.reduce(A, axis=1)
np.maximum(v, w)
np.max(A, axis=0)
np.min(A)
A.max()
np.argmax(v)
np.argmin(A, axis=1)
np.count_nonzero(A)
np.count_nonzero(A, axis=0)
np.mean(v)
np.sum(A, axis=0, keepdims=True)
np.sum(v, where=[True, False])
np.tile(v, 2)
np.repeat(v, 2)
np.roll(v, 1)
np.flip(v)
np.take(v, [1, 0])
np.delete(A, 0, axis=0)
np.insert(v, 1, 9)
np.append(v, w)
np.clip(v * 3, 0, 2)
np.sign(v - w)
np.abs(v - w)
np.square(v - w)
np.power(-1, v)
(-1) ** v
2 ** v
np.floor(v / 2)
np.round(v / 4)
np.rint(v / 2)
np.modf(v / 2)
np.divmod(v + 3, 2)
divmod(int(v[0]) + 3, 2)
np.mod(v - w, 2)
np.fmod(v + w, 2)
np.remainder(v + w, 2)
np.left_shift(1, v)
v << 1
v & w
v | w
~(v == 1)
np.gcd(v + 2, 4)
np.array_equal(v, w)
np.allclose(v, w)
np.isclose(v, w)
np.linalg.norm(v - w)
np.linalg.norm(A, axis=1)
np.linalg.norm(v, ord=1)
np.linalg.norm(v, np.inf)
np.linalg.det(A + 2 * np.eye(2))
np.linalg.matrix_rank(A)
np.searchsorted([0, 1], v)
np.array([v, w])
np.array([int(x) for x in v])
np.array(list(v) + [2], dtype=int)
np.array([v[0], 2.5])
np.full((2, 2), v[0])
np.full(2, v)
np.zeros(2, dtype=int) + v
np.ones_like(A) - A
np.zeros_like(A)
np.asarray(v, dtype=float) / 2
np.eye(2, dtype=int) @ v
np.identity(2) + A
np.copy(A)
A.copy().T
A.reshape(4)
A.ravel()
A.flatten()
A.transpose()
A.sum(axis=1)
A.sum()
A.tolist()
v.tolist()
np.add.accumulate(v)
np.vectorize(lambda x: x + 1)(v)
np.apply_along_axis(lambda r: r.sum(), 1, A)
np.fromiter((x for x in v), dtype=int)
np.ix_([0, 1], [1])
A[np.ix_([0, 1], [1])]
A[:, 0]
A[0]
A[..., 1]
A[np.newaxis].shape
A[[0, 1], [1, 0]]
v[::-1]
v[-1]
sum(v)
max(v)
min(list(v) + [1])
sorted(v)
any(v)
all(v)
len(v)
abs(v[0] - w[0])
round(v[0] / 2)
float(v[0])
int(v[0] == w[0])
bool(v[0])
math.sqrt(v[0] + 1)
math.floor(v[0] / 2)
math.hypot(v[0], 1)
math.prod(v)
math.fsum(v)
math.copysign(2, v[0] - 0.5)
math.isclose(v[0], w[0])
np.int64(v[0]) + 1
np.float64(v[0]) / 2
np.array(v, dtype=np.uint8) - np.array(w, dtype=np.uint8)
(100 * v).astype(np.int8) + (100 * w).astype(np.int8)
(100 * v).astype(np.int8) * np.int64(2)
(200 * v).astype(np.int8)
(v - w).astype(np.uint8)
setitem(np.zeros(2, dtype=int), v / 2)
setitem(np.zeros(2), v / 2)
setitem(np.zeros(2, dtype=np.int8), 100 * (v + w))
inplace(v, w)
np.array(A, dtype=np.int8) @ np.array(100 * v, dtype=np.int8)
np.put(v, [0], [7]) or v
np.copyto(v, w) or v
np.add.at(v, [0, 0], 1) or v
np.subtract(v, w, out=v)
np.add(v, w, where=v == 1, out=w)
np.logical_not(v)
np.logical_and(v, w)
np.logical_or.reduce(A, axis=None)
np.logical_and.reduce([v, w])
np.not_equal(v, w)
np.greater(v, w).astype(int)
np.broadcast_to(v, (2, 2))
np.expand_dims(v, 0)
np.squeeze(A[:, :1])
np.swapaxes(A, 0, 1)
np.array_split(v, 2)
np.split(A, 2)
np.meshgrid(v, w)
np.column_stack((v, w))
np.dstack((v, w))
np.select([v == 1, w == 1], [5, 6], 7)
np.choose(v, [w, 1 - w])
np.piecewise(v * 1.0, [v > 0], [2.0, 3.0])
np.average(v)
np.average(v + 1, weights=w + 1)
np.var(v)
np.ptp(v)
np.median(v)
np.nansum(v)
np.interp(0.5, [0, 1], v)
np.sqrt(v)
np.reciprocal(v + 1.0)
np.heaviside(v - 0.5, 1)
np.nan_to_num(v)
np.ndim(A)
np.size(A)
np.shape(A)
np.isscalar(v[0])
np.matmul(A, B)
np.inner(v, w)
np.vdot(v, w)
np.cross([1, 0, 0], [v[0], v[1], 1])
np.linalg.multi_dot([A, B, A])
np.linalg.matrix_power(A, 2)
np.rot90(A)
np.packbits(v)
np.add.outer(v, w)
np.subtract.outer(v, w) % 2
functools.reduce(operator.xor, v)
functools.reduce(lambda a, b: a ^ b, [int(x) for x in v], 0)
operator.add(v[0], w[0])
collections.Counter(v.tolist())
{int(x): 1 for x in v}
{x for x in v.tolist()}
[i for i, x in enumerate(v) if x]
list(itertools.compress([3, 4], v))
list(zip(v, w))
[x for x in range(v[0] + 1)]
[5, 6][v[0]]
'ab'[v[0]]
(v[0] + v[1]) // 2
-v // 2
v[0] % 2
pow(2, v[0])
v[0] ** 2
1 if v[0] else 2
sp.csr_matrix(A).toarray()
sp.csr_array(A).dot(v)
sp.csr_array(A) @ sp.csr_array(B)
sp.csr_matrix(A) * sp.csr_matrix(B)
sp.csr_matrix((v, ([0, 1], [1, 1])), shape=(2, 2))
sp.coo_array((v, ([0, 0], [1, 1])), shape=(2, 2))
sp.csr_array((v, [0, 1], [0, 1, 2]), shape=(2, 2))
sp.csc_array((v, [0, 1], [0, 1, 2]), shape=(2, 2))
sp.bmat([[A, None], [sp.csr_matrix(B), sp.identity(2)]])
sp.block_array([[sp.csr_array(A), None], [None, sp.csr_array(B)]])
sp.hstack([sp.csr_array(A), sp.csr_array(B)])
sp.vstack([sp.csr_array(A), sp.csr_array(B)])
sp.kron(A, B)
sp.diags(v)
sp.diags([v, [1]], [0, 1])
sp.block_diag((A, B))
sp.eye(2) - sp.csr_matrix(A)
sp.csr_matrix(A).T
sp.csr_matrix(A).sum()
sp.csr_array(A).sum(axis=0)
sp.csr_matrix(A).sum(axis=1)
sp.csr_matrix(A).nnz
sp.csr_matrix(A).nonzero()
sp.csr_matrix(A)[0, 1]
sp.csr_matrix(A)[0].toarray()
sp.lil_matrix(A).tocsr().diagonal()
sp.csr_matrix(A).multiply(sp.csr_matrix(B))
sp.csr_array(A) * sp.csr_array(B)
sp.csr_matrix(A).astype(bool)
sp.csr_matrix(A).todense()
(sp.csr_matrix(A) + sp.csr_matrix(B)).toarray() % 2
sp.coo_matrix(A).row
sp.coo_matrix(A).data
sp.csr_matrix(100 * A, dtype=np.int8) + sp.csr_matrix(100 * B, dtype=np.int8)
sp.bmat([[sp.csr_array(100 * A + 100 * B)]], dtype=np.int8)
sp.csr_matrix(A)[:, 1].toarray()
sp.csr_array(A)[0]
sp.csr_array(A)[:, 1]
sp.csr_matrix(A)[[0]].toarray()
sp.issparse(sp.csr_array(A))
sp.csr_matrix(A).max()
sp.triu(sp.csr_matrix(A))
sp.find(sp.csr_matrix(A))
sp.csr_matrix(A).power(2)
"""
HEAD = """
import collections, functools, itertools, math, operator
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg
def setitem(a, b):
    a[:] = b
    return a
def inplace(a, b):
    a = a.copy()
    a += b
    a *= 2
    a[0] -= 1
    return a
"""
MAY_BE_UNSUPPORTED = ("sp.linalg.norm", ".power(")


def build(e):
    src = HEAD + "def f(A, B, v, w):\n    return " + e + "\n"
    native = {}
    exec(src, native)
    tree = ast.parse(src)
    tree = loader.Rewriter("npftest", loader.bound_names(tree)).visit(tree)
    ast.fix_missing_locations(tree)
    sym = {"__builtins__": loader.BUILTINS, "__name__": "npftest"}
    exec(compile(tree, "npftest", "exec"), sym)
    return native["f"], sym["f"]


def plain(x):
    """Comparable form of a result."""
    if isinstance(x, core.SymBase):
        if isinstance(x, core.SymNum) and not x.isint:
            # a real built from integers only: fix those, the rest is arithmetic
            c = x.const()
            if c is None:
                for lo in range(-4, 900):
                    for q in (Fraction(lo), Fraction(2 * lo + 1, 2), Fraction(4 * lo + 1, 4), Fraction(4 * lo + 3, 4), Fraction(3 * lo + 1, 3), Fraction(3 * lo + 2, 3),
                              Fraction(5 * lo + 3, 5), Fraction(5 * lo + 2, 5), Fraction(6 * lo + 1, 6)):
                        if bool(x == q):
                            return float(q)
                    if lo > 8:
                        break
                return x
            return float(c)
        return npf.settle_int(x)
    if isinstance(x, npf.SymSparse):
        return plain(x.arr)
    if hasattr(x, "toarray") and not isinstance(x, np.ndarray):
        return plain(x.toarray())
    if isinstance(x, np.ndarray):
        b = np.asarray(x).view(np.ndarray)
        return [plain(e) for e in b] if b.ndim else plain(b[()])
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (set, frozenset)):
        return sorted((plain(e) for e in x), key=repr)
    if isinstance(x, dict):
        return sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    if isinstance(x, Fraction):
        return float(x)
    return x


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, core.SymBase) or isinstance(b, core.SymBase):
        return bool(abs(a - b) < 1e-9)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9 or a == b
    return a == b


def main(only=None):
    loader.install()
    bad = unsup = 0
    exprs = [e for e in EXPRS.strip().splitlines() if only is None or only in e]
    for e in exprs:
        try:
            fn, fs = build(e)
        except Exception:
            print("BUILD", e)
            traceback.print_exc()
            bad += 1
            continue
        st = core.Stats()
        work, msg, paths = [[]], None, 0
        while work and msg is None:
            ctx = core.Context(work.pop(), st, {})
            core.set_ctx(ctx)
            H = api.SymH(ctx, st)
            mk = lambda n, names: [H.bit("%s%d" % (n, i)) for i in range(names)]
            a, b, v, w = mk("a", 4), mk("b", 4) if "B" in e else [1, 0, 1, 1], mk("v", 2) if "v" in e or "w" in e else [0, 1], mk("w", 2) if "w" in e else [1, 0]
            if "A" not in e:
                a = [1, 1, 0, 1]
            A, B = npf.f_array([a[:2], a[2:]]), npf.f_array([b[:2], b[2:]])
            try:
                try:
                    r = ("ok", fs(A, B, npf.f_array(v), npf.f_array(w)))
                except Exception as ex:
                    r = ("exc", type(ex).__name__, traceback.format_exc())
                cv = [npf.settle_int(x) for x in a + b + v + w]
                paths += 1
                try:
                    n = ("ok", fn(np.array(cv[:4]).reshape(2, 2), np.array(cv[4:8]).reshape(2, 2), np.array(cv[8:10]), np.array(cv[10:])))
                except Exception as ex:
                    n = ("exc", type(ex).__name__)
                if r[0] != n[0]:
                    msg = "%s vs %s" % (r, n)
                elif r[0] == "ok":
                    p, q = plain(r[1]), plain(n[1])
                    if not same(p, q):
                        msg = "%r vs native %r at %s" % (p, q, cv)
            except core.AbortPath:
                pass
            except core.Unsupported as ex:
                msg = "unsupported: %s" % ex
            work.extend(ctx.alts)
        if msg is not None:
            if msg.startswith("unsupported") and any(k in e for k in MAY_BE_UNSUPPORTED):
                unsup += 1
                continue
            bad += 1
            print("DIFF %s\n    %s" % (e, msg))
    core.set_ctx(None)
    print("facade: %d expressions, %d differ, %d unsupported" % (len(exprs), bad, unsup))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else None))
