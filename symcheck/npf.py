"""numpy facade: symbolic elements in object arrays, everything else native."""
import functools
import math
import operator
import types
from fractions import Fraction

import numpy as np

from symcheck import core
from symcheck.core import SymBase, SymNum, SymBool, Unsupported

_INT_KINDS = "iub"


def has_sym(x):
    if isinstance(x, SymBase):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, SymBase) for e in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(e) for e in x)
    if isinstance(x, SymSparse):
        return True
    return False


# ------------------------------------------------------------------ elementwise
def _logical(f):
    def g(*a):
        return f(*[core._tobool(x) for x in a])

    return g


def _cmp(op):
    def g(a, b):
        return op(a, b)

    return g


def s_exp(x):
    return x.exp() if isinstance(x, SymNum) else (x.as_num().exp() if isinstance(x, SymBool) else math.exp(x))


def s_fn(name):
    def g(x):
        if isinstance(x, SymBool):
            x = x.as_num()
        if isinstance(x, SymNum):
            return core.fn(name, x)
        return getattr(np, name)(float(x)) if hasattr(np, name) else getattr(math, name)(x)

    return g


def s_floor(x):
    return core.to_real(core.floor(x)) if isinstance(x, SymBase) else float(np.floor(x))


def s_ceil(x):
    return core.to_real(-core.floor(-x)) if isinstance(x, SymBase) else float(np.ceil(x))


def s_rint(x):
    return core.to_real(core.rint(x)) if isinstance(x, SymBase) else float(np.rint(float(x)))


def s_trunc(x):
    return core.to_real(core.trunc(x)) if isinstance(x, SymBase) else float(np.trunc(float(x)))


def s_sign(x):
    if isinstance(x, SymBase):
        return core.ite(x > 0, 1, core.ite(x < 0, -1, 0))
    return (x > 0) - (x < 0)


def s_max(a, b):
    return core.ite(core.CTX.settle(core._tobool(a >= b)), a, b)


def s_min(a, b):
    return core.ite(core.CTX.settle(core._tobool(a <= b)), a, b)


def s_abs(x):
    return abs(x)


def s_false(x):
    if isinstance(x, SymBase):
        return False
    return bool(np.isnan(float(x)))


def s_isfinite(x):
    if isinstance(x, SymBase):
        return True
    return bool(np.isfinite(float(x)))


def s_isinf(x):
    if isinstance(x, SymBase):
        return False
    return bool(np.isinf(float(x)))


def s_truediv(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return core.divide(a, b)
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return a / b
    return float(np.true_divide(a, b))


def s_divmod(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return core.floordiv(a, b), core.mod(a, b)
    r = np.divmod(a, b)
    return r[0].item(), r[1].item()


def _s2(op, npname):
    def g(a, b):
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            return op(a, b)
        r = getattr(np, npname)(a, b)
        return r.item() if hasattr(r, "item") else r

    return g


def s_modf(x):
    if isinstance(x, SymBase):
        t = core.to_real(core.trunc(x))
        return x - t, t
    return tuple(float(v) for v in np.modf(x))


UFUNCS = {
    "greater": (operator.gt, 2, 1),
    "less": (operator.lt, 2, 1),
    "greater_equal": (operator.ge, 2, 1),
    "less_equal": (operator.le, 2, 1),
    "equal": (operator.eq, 2, 1),
    "not_equal": (operator.ne, 2, 1),
    "logical_and": (_logical(core.bool_and2), 2, 1),
    "logical_or": (_logical(core.bool_or2), 2, 1),
    "logical_not": (_logical(core.bool_not), 1, 1),
    "logical_xor": (_logical(lambda a, b: core.bool_not(core.bool_iff(a, b))), 2, 1),
    "add": (operator.add, 2, 1),
    "subtract": (operator.sub, 2, 1),
    "multiply": (operator.mul, 2, 1),
    "true_divide": (s_truediv, 2, 1),
    "divide": (s_truediv, 2, 1),
    "floor_divide": (_s2(core.floordiv, "floor_divide"), 2, 1),
    "remainder": (_s2(core.mod, "remainder"), 2, 1),
    "mod": (_s2(core.mod, "remainder"), 2, 1),
    "divmod": (s_divmod, 2, 2),
    "modf": (s_modf, 1, 2),
    "power": (operator.pow, 2, 1),
    "float_power": (operator.pow, 2, 1),
    "square": (lambda x: x * x, 1, 1),
    "negative": (operator.neg, 1, 1),
    "positive": (lambda x: x, 1, 1),
    "absolute": (s_abs, 1, 1),
    "fabs": (s_abs, 1, 1),
    "sign": (s_sign, 1, 1),
    "exp": (s_fn("exp"), 1, 1),
    "log": (s_fn("log"), 1, 1),
    "sqrt": (s_fn("sqrt"), 1, 1),
    "floor": (s_floor, 1, 1),
    "ceil": (s_ceil, 1, 1),
    "rint": (s_rint, 1, 1),
    "trunc": (s_trunc, 1, 1),
    "maximum": (s_max, 2, 1),
    "minimum": (s_min, 2, 1),
    "fmax": (s_max, 2, 1),
    "fmin": (s_min, 2, 1),
    "isnan": (s_false, 1, 1),
    "isfinite": (s_isfinite, 1, 1),
    "isinf": (s_isinf, 1, 1),
    "bitwise_xor": (operator.xor, 2, 1),
    "bitwise_and": (operator.and_, 2, 1),
    "bitwise_or": (operator.or_, 2, 1),
    "invert": (operator.invert, 1, 1),
    "conjugate": (lambda x: x, 1, 1),
    "reciprocal": (lambda x: s_truediv(1, x), 1, 1),
}
REDUCE_ID = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_xor": 0, "bitwise_or": 0}


def settle_int(e):
    """One symbolic leaf -> concrete value, by branching (finite domains only)."""
    if isinstance(e, SymBool):
        return bool(e)
    if isinstance(e, SymNum):
        c = e.const()
        if c is not None:
            return float(c) if not e.isint else int(c)
        if not e.isint:
            tot = Fraction(0)
            for m, k in e.p.items():
                for i in m:
                    a = core.ATOMS[i]
                    if not a.isint:
                        raise Unsupported("native numpy function on a symbolic real")
                    k = k * core.CTX.concretize(SymNum({(i,): 1}, True))
                tot += k
            return float(tot)
        return operator.index(e)
    if isinstance(e, Fraction):
        return float(e)
    return e


def concretize_tree(x):
    """Nested arguments with every symbolic leaf replaced by a concrete value."""
    if isinstance(x, SymBase):
        return settle_int(x)
    if isinstance(x, SymSparse):
        import scipy.sparse as sps

        d = concretize_tree(x.arr)
        return sps.csr_array(d) if x.kind == "array" else sps.csr_matrix(d)
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        if b.dtype != object:
            return b
        vals = [settle_int(e) for e in b.flat]
        if not vals:
            return np.zeros(b.shape)
        if any(e is None or isinstance(e, (str, tuple, list, dict, set)) for e in vals):
            r = np.empty(len(vals), dtype=object)
            for i, e in enumerate(vals):
                r[i] = e
            return r.reshape(b.shape)
        return np.array(vals).reshape(b.shape)
    if isinstance(x, list):
        return [concretize_tree(e) for e in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(concretize_tree(e) for e in x)
    return x


def pyval(e):
    """Concrete numpy scalar -> Python number."""
    if isinstance(e, np.generic):
        return e.item()
    return e


def raw(x):
    """Object ndarray (base class) of anything array-like."""
    if isinstance(x, SymBase):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SymSparse):
        return raw(x.arr)
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        return b if b.dtype == object else b.astype(object)
    return obj_array(x)


def obj_array(x):
    """np.array of nested sequences with possibly symbolic leaves, object dtype."""
    if isinstance(x, (list, tuple)) and any(isinstance(e, (list, tuple, np.ndarray, range)) for e in x):
        parts = [raw(e) for e in x]
        shp = {p.shape for p in parts}
        if len(shp) != 1:
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return np.stack(parts) if parts else np.empty(0, dtype=object)
    if isinstance(x, (list, tuple, range)):
        a = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            a[i] = pyval(e)
        return a
    if isinstance(x, (set, frozenset, dict, str)) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    r = np.asarray(x)
    return r if r.dtype == object else r.astype(object)


def wrap(r):
    """Result object array -> SymArray / scalar."""
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r[()]
        return r.view(SymArray) if not isinstance(r, SymArray) else r
    if isinstance(r, tuple):
        if hasattr(r, "_fields"):
            return r
        return tuple(wrap(e) for e in r)
    if isinstance(r, list):
        return [wrap(e) if isinstance(e, np.ndarray) else e for e in r]
    return r


def concretish(a):
    """Object array without symbolic entries and with uniform numeric type -> native dtype."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and not any(isinstance(e, SymBase) for e in a.flat):
        if all(isinstance(e, (bool, np.bool_)) for e in a.flat):
            return a.astype(bool)
    return a


def npscalar(e):
    """Concrete scalar results are numpy scalars, as in numpy."""
    if isinstance(e, bool):
        return np.bool_(e)
    if isinstance(e, int) and abs(e) < 2**62:
        return np.int64(e)
    if isinstance(e, float):
        return np.float64(e)
    return e


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if any(isinstance(x, SymSparse) for x in inputs):
        inputs = [x.arr if isinstance(x, SymSparse) else x for x in inputs]
    if name in ARITH and method == "__call__" and any(getattr(x, "ldt", None) is not None for x in inputs):
        dt = _narrow_result(inputs)
        if dt is not None:
            out = kw.pop("out", None)
            r = dispatch_ufunc2(ufunc, method, inputs, kw)
            return _store(out, cast(r, dt) if isinstance(r, np.ndarray) else wrap_int(r, dt))
    return dispatch_ufunc2(ufunc, method, inputs, kw)


def dispatch_ufunc2(ufunc, method, inputs, kw):
    name = ufunc.__name__
    arrs = [x.view(np.ndarray) if isinstance(x, SymArray) else x for x in inputs]
    out = kw.pop("out", None)
    if not any(isinstance(x, SymBase) or (isinstance(x, np.ndarray) and x.dtype == object) for x in arrs):
        if out is not None:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
            if any(isinstance(o, np.ndarray) and o.dtype == object for o in kw["out"]):
                r = getattr(ufunc, method)(*arrs, **{k: v for k, v in kw.items() if k != "out"})
                out[0][...] = r
                return out[0]
        r = getattr(ufunc, method)(*arrs, **kw)
        return wrap(r)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    where_ = kw.pop("where", True)
    if where_ is not True:
        if method == "__call__" and out is not None and name in UFUNCS and UFUNCS[name][2] == 1:
            r = dispatch_ufunc(ufunc, method, arrs, dict(kw))
            o = out[0] if isinstance(out, tuple) else out
            m, r, old = np.broadcast_arrays(raw(where_), raw(r), raw(o))
            return _store(out, where(m, r, old))
        if method == "reduce" and name in REDUCE_ID:
            a, m = np.broadcast_arrays(raw(arrs[0]), raw(where_))
            arrs = [raw(where(m, a, REDUCE_ID[name]))]
        else:
            raise Unsupported("ufunc where=")
    if name == "matmul":
        res = wrap(matmul(*arrs))
        return _store(out, res)
    if name not in UFUNCS:
        conc = concretize_tree(list(arrs))
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in conc):
            raise Unsupported("ufunc " + name)
        return _store(out, wrap(getattr(ufunc, method)(*conc, **kw)))
    f, nin, nout = UFUNCS[name]
    pf = np.frompyfunc(f, nin, nout)
    objs = [raw(x) for x in arrs]
    if method == "__call__":
        r = pf(*objs)
        if nout == 1:
            r = concretish(r) if isinstance(r, np.ndarray) else npscalar(r)
        else:
            r = tuple(e if isinstance(e, np.ndarray) else npscalar(e) for e in r)
        return _store(out, wrap(r))
    if method == "reduce":
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        a = objs[0]
        return _store(out, wrap(reduce_obj(f, name, a, axis, keep, init)))
    if method == "outer":
        a, b = objs
        r = np.empty(a.shape + b.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            for j in np.ndindex(*b.shape):
                r[i + j] = f(a[i], b[j])
        return _store(out, wrap(concretish(r)))
    if method == "accumulate":
        return _store(out, wrap(pf.accumulate(objs[0], axis=kw.get("axis", 0))))
    if method == "at":
        a = inputs[0]
        idx = inputs[1]
        if nin == 1:
            a[idx] = pf(raw(a[idx]))
        else:
            vals = np.broadcast_to(objs[2], np.shape(a[idx]))
            idx = idx if isinstance(idx, tuple) else (np.asarray(idx),)
            for k, pos in enumerate(zip(*[np.asarray(q).ravel() for q in idx])):
                a[pos] = f(a[pos], vals.ravel()[k])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _store(out, res):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    if getattr(o, "ldt", None) is not None:
        for e in raw(res).flat:
            if isinstance(e, (float, Fraction)) or (isinstance(e, SymNum) and not e.isint):
                raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('%s') with casting rule 'same_kind'" % o.ldt)
    o[...] = res
    return o


def _narrow_result(arrs):
    """Integer dtype of a result all of whose operands are narrow integer arrays (or plain Python integers)."""
    dt = None
    for x in arrs:
        d = getattr(x, "ldt", None)
        if isinstance(x, np.ndarray):
            if d is None and x.dtype != object and x.dtype.kind in "iu":
                d = x.dtype
            if d is None and (x.dtype == bool or (x.dtype == object and x.size and all(isinstance(e, (bool, SymBool)) for e in x.flat))):
                continue
            if not narrow(d):
                return None
            dt = d if dt is None else np.promote_types(dt, d)
        elif type(x) is not int and not isinstance(x, bool):
            return None
    return dt if narrow(dt) else None


ARITH = {"add", "subtract", "multiply", "negative", "power", "square", "positive", "absolute", "sign", "floor_divide", "remainder", "mod",
         "maximum", "minimum", "bitwise_and", "bitwise_or", "bitwise_xor", "invert", "matmul"}


def reduce_obj(f, name, a, axis, keep, init):
    if axis is None:
        axis = tuple(range(a.ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    axis = tuple(x % a.ndim for x in axis) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axis]
    b = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
    shape = b.shape[:-1]
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        vals = list(b[i])
        if init is not np._NoValue:
            vals = [init] + vals
        if not vals:
            if name not in REDUCE_ID:
                raise ValueError("zero-size array to reduction operation")
            r[i] = REDUCE_ID[name]
        elif name == "add":
            r[i] = sum_list(vals)
        elif name == "logical_and":
            r[i] = core.bool_and(vals)
        elif name == "logical_or":
            r[i] = core.bool_or(vals)
        else:
            r[i] = functools.reduce(f, vals)
    if keep:
        r = r.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
    return r


def sum_list(vals):
    """Linear-time sum (polynomials are merged in one dictionary)."""
    if not any(isinstance(v, SymBase) for v in vals):
        return functools.reduce(operator.add, vals)
    p, isint = {}, True
    for v in vals:
        q, qi = core.poly_of(v)
        isint = isint and qi
        for m, c in q.items():
            w = p.get(m, 0) + c
            if w == 0:
                p.pop(m, None)
            else:
                p[m] = w
    p = {m: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.items()}
    return core.mk(p, isint)


def matmul(a, b):
    a, b = raw(a), raw(b)
    one_a, one_b = a.ndim == 1, b.ndim == 1
    if one_a:
        a = a[None, :]
    if one_b:
        b = b[:, None]
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul with more than 2 dimensions")
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: dimension mismatch %s %s" % (a.shape, b.shape))
    r = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        nz = [k for k in range(a.shape[1]) if isinstance(a[i, k], SymBase) or a[i, k] != 0]
        for j in range(b.shape[1]):
            vals = [a[i, k] * b[k, j] for k in nz if isinstance(b[k, j], SymBase) or b[k, j] != 0]
            r[i, j] = sum_list(vals) if vals else 0
    if one_a:
        r = r[0]
    if one_b:
        r = r[..., 0]
    return r


# ---------------------------------------------------------------------- casting
def dkind(dtype):
    if dtype in (int,):
        return "i"
    if dtype in (float,):
        return "f"
    if dtype in (bool,):
        return "b"
    return np.dtype(dtype).kind


def cast_elem(x, kind):
    if kind in "iu":
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, SymNum):
            return core.trunc(x)
        if isinstance(x, Fraction):
            return math.trunc(x)
        return int(x)
    if kind == "f":
        if isinstance(x, SymBase):
            return core.to_real(x)
        if isinstance(x, Fraction):
            return x
        return float(x)
    if kind == "b":
        if isinstance(x, SymBase):
            return core._tobool(x)
        return bool(x)
    return x


def narrow(dt):
    return dt is not None and dt.itemsize < 8


def wrap_int(x, dt):
    """Two's complement wrap of an integer stored in a narrow integer dtype."""
    if dt is None or dt.itemsize >= 8 or isinstance(x, (SymBool, bool)):
        return x
    n = 8 * dt.itemsize
    h = 0 if dt.kind == "u" else 1 << (n - 1)
    if not isinstance(x, SymNum):
        return (int(x) + h) % (1 << n) - h
    if core.small(x, -h, (1 << n) - 1 - h):
        return x
    if core.CTX.settle(core.bool_and2(x >= -h, x <= (1 << n) - 1 - h)) is True:
        return x
    return core.mod(x + h, 1 << n) - h


def int_dtype(dtype):
    if dtype is None:
        return None
    k = dkind(dtype)
    if k not in "iu":
        return None
    return np.dtype(dtype) if dtype is not int else np.dtype(np.int64)


def cast(x, dtype):
    kind = dkind(dtype)
    dt = int_dtype(dtype)
    if isinstance(x, np.ndarray) and x.dtype == object and dt is not None:
        base = x.view(np.ndarray)
        r = np.empty(base.shape, dtype=object)
        for i in np.ndindex(*base.shape):
            r[i] = wrap_int(cast_elem(base[i], kind), dt)
        r = r.view(SymArray)
        r.ldt = dt
        return r
    if dt is not None and not isinstance(x, np.ndarray):
        return wrap_int(cast_elem(x, kind), dt)
    if isinstance(x, np.ndarray):
        base = x.view(np.ndarray)
        if base.dtype != object:
            return base.astype(dtype).view(SymArray)
        r = np.empty(base.shape, dtype=object)
        for i in np.ndindex(*base.shape):
            r[i] = cast_elem(base[i], kind)
        if kind in "b" and not has_sym(r):
            return r.astype(bool).view(SymArray)
        return r.view(SymArray)
    return cast_elem(x, kind)


def index_of(i):
    """Convert object/Sym index parts to native ones."""
    if isinstance(i, tuple):
        return tuple(index_of(e) for e in i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymNum):
        return operator.index(i)
    if isinstance(i, float) and i.is_integer():
        raise IndexError("only integers, slices (`:`), ellipsis are valid indices")
    if isinstance(i, slice):
        return slice(*[operator.index(e) if isinstance(e, SymNum) else e for e in (i.start, i.stop, i.step)])
    if isinstance(i, np.ndarray):
        b = i.view(np.ndarray)
        if b.dtype != object:
            return b
        return _native_index(list(b.flat), b.shape)
    if isinstance(i, list):
        if has_sym(i) or any(isinstance(e, np.ndarray) for e in i):
            b = raw(i)
            return _native_index(list(b.flat), b.shape)
        return i
    return i


def _native_index(vals, shape):
    if vals and all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
        return np.array([bool(v) for v in vals], dtype=bool).reshape(shape)
    out = []
    for v in vals:
        if isinstance(v, float) and not v.is_integer():
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        out.append(int(v) if not isinstance(v, SymNum) else operator.index(v))
    return np.array(out, dtype=np.int64).reshape(shape)


def dtype_of(a):
    """The dtype a native array with the entries of `a` would have."""
    if a.ldt is not None or a.dtype != object:
        return a.ldt if a.ldt is not None else a.dtype
    kinds = set()
    for e in a.view(np.ndarray).flat:
        if isinstance(e, (bool, np.bool_, SymBool)):
            kinds.add("b")
        elif isinstance(e, (int, np.integer)) or (isinstance(e, SymNum) and e.isint):
            kinds.add("i")
        elif isinstance(e, (float, np.floating, Fraction, SymNum)):
            kinds.add("f")
        else:
            return a.dtype
    if not kinds:
        return a.dtype
    return np.dtype(float if "f" in kinds else (np.int64 if "i" in kinds else bool))


class SymArray(np.ndarray):
    """ndarray view whose operations understand symbolic entries."""

    ldt = None  # the integer dtype the array would have, where it is known

    def __array_finalize__(self, obj):
        self.ldt = getattr(obj, "ldt", None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __getitem__(self, i):
        r = self.view(np.ndarray)[index_of(i)]
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r.ldt = self.ldt
        return r

    def __setitem__(self, i, v):
        base = self.view(np.ndarray)
        if isinstance(v, SymArray):
            v = v.view(np.ndarray)
        if isinstance(v, SymSparse):
            v = v.arr.view(np.ndarray)
        if base.dtype != object:
            if has_sym(v):
                raise Unsupported("symbolic value stored in a native array")
            base[index_of(i)] = v
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = v.astype(object)
        elif isinstance(v, (list, tuple)):
            v = raw(v)
        if self.ldt is not None:
            if isinstance(v, np.ndarray):
                v = cast(v, self.ldt).view(np.ndarray)
            elif isinstance(v, (SymBase, int, float, Fraction, np.generic)):
                v = wrap_int(cast_elem(pyval(v), self.ldt.kind), self.ldt)
        base[index_of(i)] = pyval(v)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def any(self, axis=None, **k):
        return np.logical_or.reduce(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.logical_and.reduce(self, axis=axis, **k)

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis, **{q: w for q, w in k.items() if q != "dtype"})

    def prod(self, axis=None, **k):
        return np.multiply.reduce(self, axis=axis, **{q: w for q, w in k.items() if q != "dtype"})

    def dot(self, o):
        return narrowed(wrap(dot(self, o)), self, o)

    def nonzero(self):
        return nonzero(self)

    def min(self, axis=None, **k):
        return call_np(np.min, (self,), {"axis": axis})

    def max(self, axis=None, **k):
        return call_np(np.max, (self,), {"axis": axis})

    def argmin(self, axis=None, **k):
        return call_np(np.argmin, (self,), {"axis": axis})

    def argmax(self, axis=None, **k):
        return call_np(np.argmax, (self,), {"axis": axis})

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis, **k) / n

    def toarray(self):
        return self

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def __matmul__(self, o):
        return narrowed(wrap(matmul_any(self, o)), self, o)

    def __rmatmul__(self, o):
        return narrowed(wrap(matmul_any(o, self)), o, self)


def narrowed(r, *operands):
    """A product of narrow integer arrays wraps."""
    ops = [x.arr if isinstance(x, SymSparse) else x for x in operands]
    if any(narrow(getattr(x, "ldt", None)) for x in ops):
        dt = _narrow_result(ops)
        if dt is not None:
            return cast(r, dt) if isinstance(r, np.ndarray) else wrap_int(r, dt)
    return r


def _is_obj(x):
    return isinstance(x, (SymBase, SymSparse)) or (isinstance(x, np.ndarray) and x.dtype == object) or (
        isinstance(x, (list, tuple)) and has_sym(x)
    )


def matmul_any(a, b):
    if _is_obj(a) or _is_obj(b):
        return matmul(a, b)
    a = a.arr if isinstance(a, SymSparse) else a
    b = b.arr if isinstance(b, SymSparse) else b
    return np.matmul(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray))


def dot(a, b):
    a = a.arr if isinstance(a, SymSparse) else a
    b = b.arr if isinstance(b, SymSparse) else b
    if _is_obj(a) or _is_obj(b):
        if np.ndim(a) == 0 or np.ndim(b) == 0:
            return np.multiply(a, b)
        if np.ndim(a) == 1 and np.ndim(b) == 1:
            return matmul(a, b)[()]
        return matmul(a, b)
    return np.dot(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray))


def nonzero(a):
    b = raw(a)
    mask = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        mask[i] = bool(b[i])
    return tuple(x.view(SymArray) for x in np.nonzero(mask))


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    c, x, y = raw(cond), raw(xy[0]), raw(xy[1])
    f = np.frompyfunc(lambda q, u, v: core.ite(core._tobool(q), u, v), 3, 1)
    return wrap(f(c, x, y))


def _argext(op):
    def g(a, axis=None, **k):
        b = raw(a)
        if axis is None:
            vals = list(b.flat)
            best = 0
            for i in range(1, len(vals)):
                if bool(op(vals[i], vals[best])):
                    best = i
            return best
        c = np.moveaxis(b, axis, -1)
        r = np.empty(c.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*r.shape):
            r[i] = g(c[i])
        if k.get("keepdims"):
            r = np.expand_dims(r, axis)
        return wrap(r)

    return g


def _ext(f2):
    def g(a, axis=None, **k):
        b = raw(a)
        if axis is None:
            return functools.reduce(f2, list(b.flat))
        return wrap(reduce_obj(f2, "ext", b, axis, k.get("keepdims", False), np._NoValue))

    return g


def np_unique(a, **k):
    b = raw(a)
    vals = [operator.index(v) if isinstance(v, SymNum) else v for v in b.flat]
    return wrap(np.unique(np.array(vals), **k))


def np_round(a, decimals=0, **k):
    if decimals != 0:
        if not has_sym(a):
            b = np.asarray(a)
            if b.dtype == object:
                b = b.astype(float)
            return wrap(np.round(b.view(np.ndarray), decimals))
        one = lambda x: x.__round__(decimals) if isinstance(x, SymNum) else round(x, decimals)
        return np.frompyfunc(one, 1, 1)(raw(a)) if not isinstance(a, SymBase) else one(a)
    return np.frompyfunc(s_rint, 1, 1)(raw(a)) if not isinstance(a, SymBase) else s_rint(a)


def np_cumsum(a, axis=None, **k):
    b = raw(a)
    if axis is None:
        b = b.ravel()
    return wrap(np.cumsum(b, axis=axis or 0))


def np_array_equal(a, b, **k):
    a, b = raw(a), raw(b)
    if a.shape != b.shape:
        return False
    return core.bool_and([x == y for x, y in zip(a.flat, b.flat)])


def np_clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def np_count_nonzero(a, axis=None, **k):
    b = raw(a)
    f = np.frompyfunc(lambda x: (core._tobool(x).as_num() if isinstance(x, SymBase) and isinstance(core._tobool(x), SymBool) else int(bool(x))), 1, 1)
    return wrap(reduce_obj(operator.add, "add", f(b) if b.ndim else raw(f(b)), axis, False, np._NoValue))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    f = np.frompyfunc(lambda x, y: abs(x - y) <= atol + rtol * abs(y), 2, 1)
    r = f(raw(a), raw(b))
    return wrap(r)


def np_allclose(a, b, **k):
    r = np_isclose(a, b, **k)
    return core.bool_and(list(raw(r).flat))


def np_diag(v, k=0):
    b = raw(v)
    if b.ndim == 1 and k == 0:
        n = b.shape[0]
        r = np.zeros((n, n), dtype=object)
        for i in range(n):
            r[i, i] = b[i]
        return wrap(r)
    return wrap(np.diag(b, k))


def np_linalg_norm(x, *a, **k):
    b = raw(x)
    ord_ = k.pop("ord", None) if not a else a[0]
    axis = k.pop("axis", a[1] if len(a) > 1 else None)
    if k or len(a) > 2 or (ord_ not in (None, 2) and axis is None and b.ndim != 1) or ord_ not in (None, 2, 1, np.inf):
        raise Unsupported("norm options")
    if axis is not None or ord_ in (1, np.inf):
        if ord_ == 1:
            return np.add.reduce(wrap(np.frompyfunc(abs, 1, 1)(b)), axis=axis)
        if ord_ == np.inf:
            return _ext(s_max)(np.frompyfunc(abs, 1, 1)(b), axis)
        return UfuncFacade(np.sqrt)(np.add.reduce(wrap(b * b), axis=axis))
    return core.fn("sqrt", sum_list([e * e for e in b.flat])) if has_sym(b) else float(np.linalg.norm(b.astype(float)))


def np_isscalar(x):
    return isinstance(x, SymBase) or np.isscalar(x)


OVERRIDE = {
    "where": where,
    "nonzero": nonzero,
    "flatnonzero": lambda a: nonzero(raw(a).ravel())[0],
    "argwhere": lambda a: wrap(np.transpose([x.view(np.ndarray) for x in nonzero(a)])),
    "dot": lambda a, b, **k: narrowed(wrap(dot(a, b)), a, b),
    "matmul": lambda a, b, **k: narrowed(wrap(matmul_any(a, b)), a, b),
    "argmin": _argext(operator.lt),
    "argmax": _argext(operator.gt),
    "min": _ext(s_min),
    "max": _ext(s_max),
    "amin": _ext(s_min),
    "amax": _ext(s_max),
    "unique": np_unique,
    "round": np_round,
    "around": np_round,
    "cumsum": np_cumsum,
    "array_equal": np_array_equal,
    "clip": np_clip,
    "count_nonzero": np_count_nonzero,
    "isclose": np_isclose,
    "allclose": np_allclose,
    "diag": np_diag,
    "any": lambda a, axis=None, **k: np.logical_or.reduce(wrap(raw(a)), axis=axis, **k),
    "all": lambda a, axis=None, **k: np.logical_and.reduce(wrap(raw(a)), axis=axis, **k),
    "sum": lambda a, axis=None, **k: np.add.reduce(wrap(raw(list(a) if isinstance(a, types.GeneratorType) else a)), axis=axis, **k),
    "mean": lambda a, axis=None, **k: wrap(raw(a)).mean(axis, **k),
    "prod": lambda a, axis=None, **k: np.multiply.reduce(wrap(raw(a)), axis=axis, **k),
}


def call_np(func, args, kwargs):
    """Call a numpy (array) function on arguments that may be symbolic."""
    name = getattr(func, "__name__", "")
    symbolic = any(_deep_obj(a) for a in args) or any(_deep_obj(v) for v in kwargs.values())
    if symbolic and name in OVERRIDE and getattr(np, name, None) is func:
        kwargs = {k: v for k, v in kwargs.items() if k not in ("out", "dtype") or v is not None}
        return OVERRIDE[name](*args, **kwargs)
    if symbolic and func is np.linalg.norm:
        return np_linalg_norm(*args, **kwargs)
    args = tuple(_strip(a) for a in args)
    kwargs = {k: _strip(v) for k, v in kwargs.items()}
    if not symbolic:
        return wrap(func(*args, **kwargs))
    if name in ("delete", "take", "insert", "repeat", "roll", "tile", "put") and len(args) > 1:
        args = (args[0], index_of(args[1])) + args[2:]
    if name in CONCRETE:
        return wrap(func(*concretize_tree(args), **{k: concretize_tree(v) for k, v in kwargs.items()}))
    try:
        return wrap(func(*args, **kwargs))
    except (TypeError, NotImplementedError):
        conc = concretize_tree(args), {k: concretize_tree(v) for k, v in kwargs.items()}
    return wrap(func(*conc[0], **conc[1]))


# functions that do not work on object arrays, or answer differently there
CONCRETE = {"bincount", "digitize", "histogram", "packbits", "unpackbits", "interp", "isin", "in1d", "intersect1d", "setdiff1d", "union1d",
            "setxor1d", "lexsort", "searchsorted", "unwrap", "nan_to_num", "array2string", "array_repr", "array_str", "det", "inv", "solve",
            "matrix_rank", "svd", "eig", "eigvals", "eigh", "eigvalsh", "lstsq", "pinv", "cond", "slogdet", "qr", "cholesky", "isposinf", "isneginf"}


def _deep_obj(x):
    if isinstance(x, (SymBase, SymSparse)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_deep_obj(e) for e in x)
    return False


def _strip(x):
    """SymArray -> ndarray inside arguments; nested lists with symbols -> object arrays."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, SymSparse):
        return x.arr.view(np.ndarray)
    if isinstance(x, list):
        return [_strip(e) for e in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(_strip(e) for e in x)
    return x


# ----------------------------------------------------------------- the facade
def _norm_dtype(dtype):
    return dtype


def _create(shape, fill, dtype):
    if isinstance(shape, SymBase):
        shape = operator.index(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(s) for s in shape)
    r = np.empty(shape, dtype=object)
    k = dkind(dtype)
    if k == "O":
        r[...] = fill
    else:
        r[...] = {"i": int, "u": int, "f": float, "b": bool}.get(k, lambda v: v)(fill) if fill is not None else {"i": 0, "u": 0, "f": 0.0, "b": False}.get(k, 0)
    r = r.view(SymArray)
    r.ldt = int_dtype(dtype)
    return r


class Facade(types.ModuleType):
    """Module look-alike delegating to a real module with overrides."""

    def __init__(self, real, overrides):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_ov"] = overrides
        self.__dict__["__path__"] = getattr(real, "__path__", [])

    def __getattr__(self, name):
        ov = self.__dict__["_ov"]
        if name in ov:
            return ov[name]
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, (type, np.ufunc, types.ModuleType)) or not callable(v):
            return v
        if self.__dict__["_real"] is np or self.__dict__["_real"] is np.linalg:
            return _np_wrapped(v)
        return v


_WR = {}


def _np_wrapped(v):
    w = _WR.get(id(v))
    if w is None:

        @functools.wraps(v)
        def w(*a, **k):
            return call_np(v, a, k)

        _WR[id(v)] = w
        w.__wrapped_np__ = v
    return w


def f_zeros(shape, dtype=float, *a, **k):
    return _create(shape, 0, dtype)


def f_ones(shape, dtype=float, *a, **k):
    return _create(shape, 1, dtype)


def f_empty(shape, dtype=float, *a, **k):
    return _create(shape, None, dtype)


def f_full(shape, fill_value, dtype=None, *a, **k):
    if isinstance(shape, SymBase):
        shape = operator.index(shape)
    r = np.empty(shape, dtype=object)
    r[...] = raw(fill_value) if isinstance(fill_value, (list, tuple, np.ndarray)) else pyval(fill_value)
    r = r.view(SymArray)
    return cast(r, dtype) if dtype is not None else r


def f_like(v):
    def g(a, dtype=None, **k):
        kind = dtype
        if kind is None:
            b = raw(a)
            first = next((e for e in b.flat), 0.0)
            isint = (isinstance(first, SymNum) and first.isint) or isinstance(first, (int, bool))
            kind = int if isint else float
        return _create(np.shape(a), v, kind)

    return g


def f_full_like(a, fill_value, dtype=None, **k):
    return f_full(np.shape(a), fill_value, dtype)


def f_eye(N, M=None, k=0, dtype=float, **kw):
    r = np.eye(N, M, k).astype(int).astype(object).view(SymArray) if dkind(dtype) in "iu" else np.eye(N, M, k).astype(object).view(SymArray)
    r.ldt = int_dtype(dtype)
    return r


def f_array(obj, dtype=None, copy=True, **k):
    if isinstance(obj, SymSparse):
        obj = obj.arr
    if isinstance(obj, (types.GeneratorType, map, filter)):
        a = np.empty((), dtype=object)
        a[()] = obj
        return a
    if isinstance(obj, SymBase):
        r = raw(obj)
        return r.view(SymArray) if dtype is None else raw(cast_elem(obj, dkind(dtype))).view(SymArray)
    if _deep_obj(obj):
        r = raw(obj).copy().view(SymArray)
        return cast(r, dtype) if dtype is not None and dkind(dtype) != "O" else r
    r = np.array(_strip(obj), dtype=dtype, **{q: w for q, w in k.items()})
    if r.dtype.kind == "f":
        return r.astype(object).view(SymArray) if r.ndim else r
    return r.view(SymArray)


def f_asarray(obj, dtype=None, **k):
    if isinstance(obj, SymArray) and dtype is None:
        return obj
    return f_array(obj, dtype)


def f_vectorize(pyfunc, **k):
    def g(*args):
        pf = np.frompyfunc(pyfunc, len(args), 1)
        return wrap(pf(*[raw(a) for a in args]))

    return g


def f_fromiter(it_, dtype, count=-1):
    return f_array(list(it_), dtype)


def f_isscalar(x):
    return np_isscalar(x)


def f_shape(a):
    if isinstance(a, (SymBase,)):
        return ()
    if isinstance(a, SymSparse):
        return a.shape
    if isinstance(a, (list, tuple)) and has_sym(a):
        return raw(a).shape
    return np.shape(a)


def f_size(a, axis=None):
    if isinstance(a, SymBase):
        return 1
    if isinstance(a, (list, tuple)) and has_sym(a):
        return raw(a).size
    return np.size(a, axis)


def f_ndim(a):
    return len(f_shape(a))


def np_block(arrays):
    dt = _narrow_result([x for row in arrays for x in (row if isinstance(row, (list, tuple)) else [row])])
    r = wrap(np.block(_strip(arrays)))
    return cast(r, dt) if dt is not None else r


def f_issubdtype(a, b):
    if a is SymNum:
        raise Unsupported("dtype of a symbolic value")
    return np.issubdtype(a, b)


def elementwise(name):
    def g(x, *a, **k):
        u = getattr(np, name)
        if isinstance(x, SymBase) or _deep_obj(x):
            return dispatch_ufunc(u, "__call__", (x if isinstance(x, (SymBase, np.ndarray)) else raw(x),) + tuple(
                y if isinstance(y, (SymBase, np.ndarray)) or np.isscalar(y) else raw(y) for y in a), dict(k))
        return wrap(u(x, *[_strip(y) for y in a], **k))

    return g


class UfuncFacade:
    """Callable standing for a ufunc on lists / scalars / arrays."""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        b = []
        sym = False
        for x in a:
            if isinstance(x, (list, tuple)) and _deep_obj(x):
                x = wrap(raw(x))
            sym = sym or _deep_obj(x)
            b.append(x)
        if sym:
            return dispatch_ufunc(self.u, "__call__", b, dict(k))
        return wrap(self.u(*[_strip(x) for x in b], **{q: _strip(w) for q, w in k.items()}))

    def outer(self, a, b, **k):
        if _deep_obj(a) or _deep_obj(b):
            return dispatch_ufunc(self.u, "outer", [wrap(raw(a)), wrap(raw(b))], dict(k))
        return wrap(self.u.outer(_strip(a), _strip(b), **k))

    def reduce(self, a, axis=0, **k):
        if _deep_obj(a):
            return dispatch_ufunc(self.u, "reduce", [wrap(raw(a))], dict(k, axis=axis))
        return wrap(self.u.reduce(_strip(a), axis=axis, **k))

    def __getattr__(self, n):
        return getattr(self.u, n)


def make_overrides():
    ov = dict(
        zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full, zeros_like=f_like(0), ones_like=f_like(1),
        empty_like=f_like(0), full_like=f_full_like, eye=f_eye, identity=f_eye, array=f_array, asarray=f_asarray,
        asanyarray=f_asarray, vectorize=f_vectorize, fromiter=f_fromiter, isscalar=f_isscalar, shape=f_shape,
        size=f_size, ndim=f_ndim, issubdtype=f_issubdtype, block=np_block,
    )
    for n in UFUNCS:
        if hasattr(np, n):
            ov[n] = UfuncFacade(getattr(np, n))
    ov["abs"] = ov["absolute"]
    usqrt = ov["sqrt"]
    ov["sqrt"] = lambda x, *a, **k: core.irrational("sqrt", x) if isinstance(x, (int, float)) and x >= 0 and not a and not k else usqrt(x, *a, **k)

    def lift(name):
        f = OVERRIDE[name]
        real = getattr(np, name)

        def g(*a, **k):
            if any(_deep_obj(x) for x in a) or any(isinstance(x, types.GeneratorType) for x in a):
                return f(*a, **k)
            return call_np(real, a, k)

        g.__name__ = name
        return g

    for n in OVERRIDE:
        ov[n] = lift(n)
    ov["linalg"] = Facade(np.linalg, {"norm": lambda *a, **k: np_linalg_norm(*a, **k) if _deep_obj(a) else np.linalg.norm(*[_strip(x) for x in a], **k)})
    return ov


# ------------------------------------------------------------- sparse matrices
class SymSparse:
    """Dense model of a scipy sparse matrix/array."""

    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, arr, kind="array"):
        self.kind = kind
        self.arr = arr if isinstance(arr, SymArray) else wrap(raw(arr))
        if self.arr.dtype != object:
            self.arr = self.arr.view(np.ndarray).astype(object).view(SymArray)

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.arr.ldt if self.arr.ldt is not None else self.arr.dtype

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return SymSparse(self.arr.T, self.kind)

    def transpose(self):
        return self.T

    def dot(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(narrowed(wrap(matmul(self.arr, o.arr)), self, o), self.both(o))
        return narrowed(wrap(matmul(self.arr, o)), self, o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return narrowed(wrap(matmul(o, self.arr)), o, self)

    def both(self, o):
        return "array" if "array" in (self.kind, getattr(o, "kind", "matrix")) else "matrix"

    def __mul__(self, o):
        if self.kind == "matrix" and np.ndim(getattr(o, "arr", o)):
            return self.dot(o)
        return SymSparse(self.arr * getattr(o, "arr", o), self.kind)

    __rmul__ = __mul__

    def __add__(self, o):
        r = self.arr + (o.arr if isinstance(o, SymSparse) else o)
        return SymSparse(r, self.both(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymSparse(self.arr - (o.arr if isinstance(o, SymSparse) else o), self.both(o))

    def __neg__(self):
        return SymSparse(-self.arr, self.kind)

    def toarray(self, *a, **k):
        return self.arr.copy().view(SymArray)

    todense = toarray

    def tocsr(self, *a, **k):
        return self

    tocsc = tocoo = tolil = tocsr

    def copy(self):
        return SymSparse(self.arr.copy(), self.kind)

    def astype(self, dtype, **k):
        return SymSparse(cast(self.arr, dtype), self.kind)

    def __getitem__(self, i):
        r = self.arr[i]
        if self.kind == "matrix" and isinstance(r, np.ndarray) and r.ndim == 1:
            # spmatrix indexing keeps two dimensions
            r = r.reshape((-1, 1) if isinstance(i, tuple) and len(i) == 2 and np.ndim(index_of(i[1])) == 0 and not isinstance(i[1], slice) else (1, -1))
        if isinstance(r, np.ndarray) and r.ndim == 2:
            return SymSparse(r, self.kind)
        return r

    def sum(self, axis=None, **k):
        r = self.arr.sum(axis)
        if axis is not None and self.kind == "matrix":
            r = np.reshape(r.view(np.ndarray), (1, -1) if axis in (0, -2) else (-1, 1)).view(SymArray)
        return r

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    def __setitem__(self, i, v):
        self.arr[i] = v.arr if isinstance(v, SymSparse) else v

    def __rsub__(self, o):
        return SymSparse((o.arr if isinstance(o, SymSparse) else o) - self.arr, self.both(o))

    def __truediv__(self, o):
        return SymSparse(self.arr / (o.arr if isinstance(o, SymSparse) else o), self.kind)

    def __pow__(self, n):
        if self.kind == "array":
            return SymSparse(self.arr**n, self.kind)
        r = SymSparse(f_eye(self.shape[0], dtype=int), self.kind)
        for _ in range(int(n)):
            r = r.dot(self)
        return r

    def multiply(self, o):
        return SymSparse(self.arr * getattr(o, "arr", o), self.kind)

    def __abs__(self):
        return SymSparse(np.absolute(self.arr), self.kind)

    def __ne__(self, o):
        return SymSparse(self.arr != getattr(o, "arr", o), self.kind)

    def __eq__(self, o):
        return SymSparse(self.arr == getattr(o, "arr", o), self.kind)

    __hash__ = None

    def nonzero(self):
        return nonzero(self.arr)

    def _coo(self):
        r, c = (np.asarray(x).view(np.ndarray) for x in nonzero(self.arr))
        return r, c, raw(self.arr)[r, c].view(SymArray)

    @property
    def row(self):
        return self._coo()[0]

    @property
    def col(self):
        return self._coo()[1]

    @property
    def data(self):
        return self._coo()[2]

    @property
    def coords(self):
        return self._coo()[:2]

    @property
    def indices(self):
        return self._coo()[1]

    @property
    def indptr(self):
        r = self._coo()[0]
        return np.concatenate(([0], np.cumsum(np.bincount(r, minlength=self.shape[0])))).astype(np.int64)

    @property
    def nnz(self):
        return len(self._coo()[0])

    def count_nonzero(self, axis=None):
        return np_count_nonzero(self.arr, axis)

    getnnz = count_nonzero

    def diagonal(self, k=0):
        return wrap(np.diagonal(raw(self.arr), k).copy())

    def setdiag(self, v, k=0):
        n, m = self.shape
        for t, i in enumerate(range(max(0, -k), min(n, m - k))):
            self.arr[i, i + k] = v[t] if np.ndim(v) else v

    def eliminate_zeros(self):
        pass

    sum_duplicates = sort_indices = eliminate_zeros

    def getrow(self, i):
        return SymSparse(self.arr[i:i + 1], self.kind)

    def getcol(self, i):
        return SymSparse(self.arr[:, i:i + 1], self.kind)

    def max(self, axis=None):
        return self.arr.max(axis)

    def min(self, axis=None):
        return self.arr.min(axis)

    def trace(self):
        return self.diagonal().sum()

    def __iter__(self):
        return (self[i:i + 1] if self.kind == "matrix" else self.arr[i] for i in range(self.shape[0]))

    def __getattr__(self, name):
        import scipy.sparse as sps

        if not name.startswith("__") and hasattr(sps.csr_matrix, name):
            raise Unsupported("sparse attribute " + name)
        raise AttributeError(name)


def sp_overrides():
    def identity(n, dtype="d", format=None):
        return SymSparse(f_eye(n, dtype=dtype if dkind(dtype) in "iu" else float), "matrix")

    def eye_array(n, m=None, k=0, dtype=float, format=None):
        r = identity(n, dtype)
        r.kind = "array"
        return r

    def mat(a, shape=None, dtype=None, copy=False):
        if isinstance(a, SymSparse):
            return a.copy()
        if isinstance(a, tuple) and len(a) == 2 and all(isinstance(x, int) for x in a):
            return SymSparse(f_zeros(a, dtype if dtype is not None else float))
        if isinstance(a, tuple):
            return coords(a, shape, dtype)
        if np.ndim(a) == 1 and not isinstance(a, np.ndarray):
            a = [a]
        return SymSparse(f_array(a, dtype))

    def coords(a, shape, dtype, csc=False):
        if len(a) == 2:
            data, (row, col) = a
        else:
            data, ind, ptr = a
            ptr = [operator.index(e) for e in ptr]
            major = [i for i in range(len(ptr) - 1) for _ in range(ptr[i], ptr[i + 1])]
            row, col = (ind, major) if csc else (major, ind)
            if shape is None:
                n, m = (max([operator.index(e) for e in ind], default=-1) + 1), len(ptr) - 1
                shape = (n, m) if csc else (m, n)
        row, col = [operator.index(e) for e in row], [operator.index(e) for e in col]
        data = list(raw(data).flat)
        if not (len(row) == len(col) == len(data)):
            raise ValueError("row, column, and data array must all be the same length")
        if shape is None:
            shape = (max(row) + 1, max(col) + 1)
        isint = all(isinstance(e, (int, SymBool)) or (isinstance(e, SymNum) and e.isint) for e in data)
        r = f_zeros(shape, dtype if dtype is not None else (int if isint else float))
        for i, j, v in zip(row, col, data):
            r[i, j] = r[i, j] + v
        return SymSparse(r)

    def bmat(blocks, format=None, dtype=None):
        blocks = [list(row) for row in (blocks.tolist() if isinstance(blocks, np.ndarray) else blocks)]
        hs = [next((f_shape(b)[0] for b in row if b is not None), None) for row in blocks]
        ws = [next((f_shape(row[j])[1] for row in blocks if row[j] is not None), None) for j in range(len(blocks[0]))]
        if None in hs or None in ws:
            raise ValueError("blocks with a row or column of None")
        flat = [b for row in blocks for b in row if b is not None]
        for row, h in zip(blocks, hs):
            for b, w in zip(row, ws):
                if b is not None and tuple(f_shape(b)) != (h, w):
                    raise ValueError("incompatible block dimensions")
        rows = [np.concatenate([raw(b) if b is not None else np.zeros((h, w), dtype=object) for b, w in zip(row, ws)], axis=1) for row, h in zip(blocks, hs)]
        kinds = [b.kind for b in flat if isinstance(b, SymSparse)]
        r = np.concatenate(rows, axis=0).view(SymArray)
        if dtype is None:
            dtype = _narrow_result([b.arr if isinstance(b, SymSparse) else b for b in flat])
        if dtype is not None:
            r = cast(r, dtype)
        return SymSparse(r, "array" if "array" in kinds or not kinds else "matrix")

    def kron(A, B, format=None):
        kinds = [x.kind for x in (A, B) if isinstance(x, SymSparse)]
        return SymSparse(wrap(np.kron(raw(A), raw(B))), "array" if "array" in kinds else "matrix")

    def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
        if np.ndim(offsets) == 0:
            diagonals, offsets = ([diagonals] if np.ndim(diagonals) < 2 else diagonals), [offsets]
        if shape is None:
            n = len(diagonals[0]) + abs(offsets[0])
            shape = (n, n)
        r = f_zeros(shape, float if dtype is None else dtype)
        for d, k in zip(diagonals, offsets):
            for t, i in enumerate(range(max(0, -k), min(shape[0], shape[1] - k))):
                r[i, i + k] = d[t] if np.ndim(d) and len(d) > 1 else (d[0] if np.ndim(d) else d)
        return SymSparse(r, "matrix")

    def diags_array(diagonals, *, offsets=0, **k):
        r = diags(diagonals, offsets, **k)
        r.kind = "array"
        return r

    def block_array(blocks, format=None, dtype=None, **k):
        r = bmat(blocks, None, dtype)
        r.kind = "array"
        return r

    def block_diag(mats, format=None, dtype=None):
        return SymSparse(block_diag_dense(*mats))

    cls = SymSparse

    def _kind(k):
        class Meta(type):
            def __instancecheck__(c, x):
                return isinstance(x, SymSparse) and x.kind == k

        return Meta("sp" + k, (), {})

    ov = dict(identity=identity, eye=lambda n, m=None, k=0, dtype=float, format=None: identity(n, dtype),
              bmat=bmat, block_array=block_array, block_diag=block_diag, sparray=_kind("array"), spmatrix=_kind("matrix"),
              issparse=lambda x: isinstance(x, cls), isspmatrix=lambda x: isinstance(x, cls) and x.kind == "matrix",
              hstack=lambda b, format=None, dtype=None: bmat([b], None, dtype), vstack=lambda b, format=None, dtype=None: bmat([[x] for x in b], None, dtype),
              eye_array=eye_array, kron=kron, diags=diags, diags_array=diags_array,
              find=lambda A: (lambda t: (t[0], t[1], t[2]))(SymSparse(A)._coo()),
              triu=lambda A, k=0, format=None: SymSparse(wrap(np.triu(raw(A), k)), A.kind), tril=lambda A, k=0, format=None: SymSparse(wrap(np.tril(raw(A), k)), A.kind))

    def ctor(name):
        k = name.split("_")[1]

        class Meta(type):
            def __instancecheck__(c, x):
                return isinstance(x, SymSparse) and x.kind == k

        def new(c, a, shape=None, dtype=None, copy=False):
            if isinstance(a, tuple) and len(a) == 3:
                r = coords(a, shape, dtype, name.startswith("csc"))
            else:
                r = mat(a, shape, dtype, copy)
            r.kind = k
            return r

        return Meta(name, (), {"__new__": staticmethod(new)})

    for n in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array", "coo_array", "lil_array", "dok_matrix", "dok_array"):
        ov[n] = ctor(n)
    return ov


def block_diag_dense(*mats):
    mats = [np.atleast_2d(raw(m)) for m in mats]
    n = sum(m.shape[0] for m in mats)
    k = sum(m.shape[1] for m in mats)
    r = np.zeros((n, k), dtype=object)
    i = j = 0
    for m in mats:
        r[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return r.view(SymArray)
