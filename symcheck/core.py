"""Symbolic values and path exploration.

Values
------
SymNum   polynomial with rational coefficients over atoms (bits, integers,
         reals, floors, indicators, uninterpreted function applications)
SymBool  canonical boolean: XOR of bits, polynomial relation, and/or

Exploration
-----------
Explorer re-executes a harness; each undecided branch condition is checked for
feasibility in both directions (GF(2) elimination for purely linear bit
constraints, z3 otherwise) and the alternative is queued.  Obligations are
decided as "path condition and not condition" by z3.
"""
import math
import time
import numbers
from fractions import Fraction

import z3


class EngineControl(BaseException):
    """Base of the exceptions that must not be swallowed by code under test."""


class AbortPath(EngineControl):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(EngineControl):
    """The engine cannot represent an operation."""


class Inconclusive(EngineControl):
    """The solver gave up on an obligation, or a budget ran out."""


class Violation(EngineControl):
    """An obligation failed; carries the model."""

    def __init__(self, msg, models, kind="check"):
        super().__init__(msg)
        self.msg, self.models, self.kind = msg, models, kind


# --------------------------------------------------------------------- atoms
ATOMS = []
_ATOM_IDX = {}


class Atom:
    __slots__ = ("id", "kind", "key", "isint", "isbit", "data", "name", "inv", "_z3", "axioms", "bits")

    def __init__(self, kind, key, isint, isbit, data=None, name=None):
        self.kind, self.key, self.isint, self.isbit = kind, key, isint, isbit
        self.data, self.name = data, name
        self.inv = None
        self._z3 = None
        self.axioms = None
        self.id = len(ATOMS)
        self.bits = frozenset((self.id,)) if isbit and kind != "bf" else (data if kind == "bf" else None)
        ATOMS.append(self)


def atom(kind, data, isint, isbit, name=None, key=None):
    k = (kind, key if key is not None else data)
    a = _ATOM_IDX.get(k)
    if a is None:
        a = Atom(kind, k, isint, isbit, data, name)
        _ATOM_IDX[k] = a
    return a


def _frac(x):
    """Exact rational of a concrete number; ints stay ints."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        x = x.item()
        return _frac(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("arithmetic with %r" % x)
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else f
    raise TypeError(type(x))


def is_concrete_num(x):
    return isinstance(x, (int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "biuf"
    )


def _is_inf(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


# --------------------------------------------------------------------- SymNum
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = list(m1)
    for i in m2:
        a = ATOMS[i]
        if a.isbit:
            if i not in out:
                out.append(i)
            continue
        if a.inv is not None and a.inv in out:
            out.remove(a.inv)
            continue
        out.append(i)
    out.sort()
    return tuple(out)


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v.numerator if isinstance(v, Fraction) and v.denominator == 1 else v
    return r


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return {m: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in r.items()}


def _pscale(p, c):
    if c == 0:
        return {}
    out = {}
    for m, v in p.items():
        w = v * c
        out[m] = w.numerator if isinstance(w, Fraction) and w.denominator == 1 else w
    return out


def pkey(p):
    return frozenset(p.items())


def _exact_float(c):
    c = Fraction(c)
    # only short mantissas: later native operations on them stay exact
    if abs(c.numerator) >= 1 << 24 or c.denominator > 1 << 12:
        return None
    f = float(c)
    return f if Fraction(f) == c else None


def irrational(name, x):
    """Value of a concrete irrational constant, kept exact in later arithmetic."""
    v = getattr(math, name)(float(x))
    f = _exact_float(v)
    return f if f is not None else SymNum({(): Fraction(v)}, False)


def mk(p, isint):
    """Number from polynomial; constants become Python numbers when exact."""
    if not p:
        return 0 if isint else 0.0
    if len(p) == 1 and () in p:
        c = p[()]
        if isint:
            return int(c)
        f = _exact_float(c)
        if f is not None:
            return f
    return SymNum(p, isint)


def poly_of(x):
    """(poly, isint) of any number."""
    if isinstance(x, SymNum):
        return x.p, x.isint
    if isinstance(x, SymBool):
        n = x.as_num()
        return poly_of(n)
    if isinstance(x, (bool, int)):
        return ({(): int(x)} if x else {}), True
    c = _frac(x)
    isint = not isinstance(x, (float, Fraction))
    if hasattr(x, "dtype"):
        isint = x.dtype.kind in "biu"
    return ({(): c} if c else {}), isint


def _coercible(x):
    return isinstance(x, (SymNum, SymBool)) or is_concrete_num(x)


class SymBase:
    """Things shared by SymNum and SymBool: numpy scalar look-alike."""

    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 1000

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(object)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symcheck import npf

        return npf.dispatch_ufunc(ufunc, method, inputs, kw)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return self

    def flatten(self):
        import numpy
        from symcheck import npf

        a = numpy.empty(1, dtype=object)
        a[0] = self
        return a.view(npf.SymArray)

    def astype(self, dtype, *a, **k):
        from symcheck import npf

        return npf.cast(self, dtype)


class SymNum(SymBase):
    __slots__ = ("p", "isint", "_key")

    def __init__(self, p, isint):
        self.p, self.isint = p, isint
        self._key = None

    # -- structure
    @property
    def key(self):
        if self._key is None:
            self._key = pkey(self.p)
        return self._key

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def bitform(self):
        """(frozenset of base bit atom ids, const) if structurally a bit."""
        p = self.p
        if len(p) == 0:
            return frozenset(), 0
        if len(p) == 1:
            (m, c), = p.items()
            if m == () and c == 1:
                return frozenset(), 1
            if c == 1 and len(m) == 1 and ATOMS[m[0]].isbit:
                return ATOMS[m[0]].bits, 0
            if c == 1 and m and all(ATOMS[i].isbit for i in m):
                return and_atom(m).bits, 0
            return None
        if len(p) == 2 and p.get(()) == 1:
            for m, c in p.items():
                if m and c == -1 and all(ATOMS[i].isbit for i in m):
                    a = ATOMS[m[0]] if len(m) == 1 else and_atom(m)
                    return a.bits, 1
        return None

    # -- arithmetic
    def _bin(self, o, s):
        if not _coercible(o):
            return NotImplemented
        if _is_inf(o):
            return s * o
        q, qi = poly_of(o)
        return mk(_padd(self.p, q, s), self.isint and qi)

    def __add__(self, o):
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        if not _coercible(o):
            return NotImplemented
        if _is_inf(o):
            return o
        q, qi = poly_of(o)
        return mk(_padd(q, self.p, -1), self.isint and qi)

    def __neg__(self):
        return mk(_pscale(self.p, -1), self.isint)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if not _coercible(o):
            return NotImplemented
        q, qi = poly_of(o)
        return mk(_pmul(subst(self.p), subst(q)), self.isint and qi)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _coercible(o):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if not _coercible(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        if not _coercible(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not _coercible(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if not _coercible(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if not _coercible(o):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        if not _coercible(o):
            return NotImplemented
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, e):
        if isinstance(e, SymNum):
            e2 = e.const()
            if e2 is None:
                return powsym(self, e)
            e = e2
        e = _frac(e)
        if isinstance(e, int):
            if e >= 0:
                r = 1
                for _ in range(e):
                    r = r * self
                return r
            return divide(1, self ** (-e))
        if e == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported("power %r" % (e,))

    def __rpow__(self, base):
        return powsym(base, self)

    def __abs__(self):
        return ite(self >= 0, self, -self)

    absolute = __abs__

    # -- bit operations
    def __xor__(self, o):
        if not _coercible(o):
            return NotImplemented
        return bitop(self, o, "xor")

    __rxor__ = __xor__

    def __and__(self, o):
        if not _coercible(o):
            return NotImplemented
        return bitop(self, o, "and")

    __rand__ = __and__

    def __or__(self, o):
        if not _coercible(o):
            return NotImplemented
        return bitop(self, o, "or")

    __ror__ = __or__

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def _cmp(self, o, op):
        if not _coercible(o):
            return NotImplemented
        if _is_inf(o):
            if math.isnan(o):
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        q, qi = poly_of(o)
        d = _padd(self.p, q, -1)
        return rel(d, op, self.isint and qi)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # -- conversions
    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return CTX.concretize(trunc(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize(self)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if self.isint:
            return hash(CTX.concretize(self))
        if CTX.opts.get("hash_reals"):
            # all symbolic reals share one hash, so the dictionary asks the solver;
            # never found under the hash of a concrete number (harnesses compare such keys themselves)
            return 0x5EED
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if self.isint:
            return float(CTX.concretize(self))
        raise Unsupported("float() of a symbolic real in native code")

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, nd=None):
        if nd is not None:
            scale = 10 ** int(nd) if nd >= 0 else Fraction(1, 10 ** -int(nd))
            return self if self.isint and nd >= 0 else rint(self * scale) / scale
        return rint(self)

    # -- functions numpy looks for on objects
    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def sqrt(self):
        return fn("sqrt", self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        if self.isint:
            return True
        return self == floor(self)

    def __repr__(self):
        return show_poly(self.p)

    def __str__(self):
        return format(self, "")

    def __format__(self, spec):
        if self.isint and CTX.opts.get("concrete_str"):
            return format(CTX.concretize(self), spec)
        return repr(self)


numbers.Number.register(SymNum)


def show_poly(p, depth=3):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:12]:
        s = "*".join(show_atom(ATOMS[i], depth - 1) for i in m)
        out.append(("%s*%s" % (float(c) if isinstance(c, Fraction) else c, s)) if s else str(float(c)))
    if len(p) > 12:
        out.append("...")
    return " + ".join(out)


def show_atom(a, depth=2):
    if a.name:
        return a.name
    if a.kind == "bf":
        return "xor(%s)" % ",".join(sorted(ATOMS[i].name or "?" for i in a.data))
    return a.kind + str(a.id)


# ------------------------------------------------------------------- helpers
def subst(p):
    """Replace bit atoms whose value is fixed on the current path."""
    ctx = CTX.cur
    gf2 = getattr(ctx, "gf2", None)
    if gf2 is None or not gf2.rows:
        return p
    out = None
    for m, c in p.items():
        for i in m:
            v = ctx.fixed(i)
            if v is not None:
                break
        else:
            continue
        out = {}
        break
    if out is None:
        return p
    for m, c in p.items():
        keep = []
        for i in m:
            v = ctx.fixed(i)
            if v is None:
                keep.append(i)
            elif v == 0:
                keep = None
                break
        if keep is not None:
            k = tuple(keep)
            w = out.get(k, 0) + c
            if w == 0:
                out.pop(k, None)
            else:
                out[k] = w
    return out


def from_bitform(s, c):
    if not s:
        return c
    if len(s) == 1:
        (i,) = s
        a = ATOMS[i]
    else:
        a = atom("bf", s, True, True)
    return SymNum({(a.id,): 1}, True) if c == 0 else SymNum({(): 1, (a.id,): -1}, True)


def and_atom(ids):
    """Bit atom for the product of bit atoms."""
    b = bool_and([bit_bool(ATOMS[i].bits, 0) for i in ids])
    n = b.as_num()
    (m,) = n.p
    return ATOMS[m[0]]


def as_bits(x):
    if isinstance(x, SymBool):
        x = x.as_num()
    if isinstance(x, SymNum):
        return x.bitform()
    if isinstance(x, (bool, int)) and x in (0, 1):
        return frozenset(), int(x)
    if hasattr(x, "dtype") and x.dtype.kind in "biu" and x in (0, 1):
        return frozenset(), int(x)
    return None


def bitop(a, b, op):
    fa, fb = as_bits(a), as_bits(b)
    if fa is None or fb is None:
        if op == "and" and isinstance(b, int) and b == 1:
            return mod(a, 2)
        if op == "and" and isinstance(a, int) and a == 1:
            return mod(b, 2)
        # fall back to concrete values
        ia, ib = int(a), int(b)
        return {"xor": ia ^ ib, "and": ia & ib, "or": ia | ib}[op]
    if op == "xor":
        return from_bitform(fa[0] ^ fb[0], fa[1] ^ fb[1])
    x, y = from_bitform(*fa), from_bitform(*fb)
    if op == "and":
        return x * y
    return x + y - x * y


def parity(x):
    """x mod 2 for an integer valued SymNum with integer coefficients."""
    s, c = frozenset(), 0
    for m, k in x.p.items():
        if isinstance(k, Fraction):
            return None
        if k % 2 == 0:
            continue
        if not m:
            c ^= 1
            continue
        if len(m) == 1:
            a = ATOMS[m[0]]
            if a.isbit:
                s = s ^ a.bits
            else:
                s = s ^ par_atom(a).bits
            continue
        ids = []
        for i in m:
            a = ATOMS[i]
            if not a.isint:
                return None
            ids.append(i if a.isbit else par_atom(a).id)
        s = s ^ and_atom(tuple(ids)).bits
    return from_bitform(s, c)


def par_atom(a):
    return atom("par", a.id, True, True)


def poly_isint(p):
    return all(
        not isinstance(c, Fraction) and all(ATOMS[i].isint for i in m) for m, c in p.items()
    )


def small(x, lo, hi):
    """Every monomial a product of bits: interval of the polynomial within [lo, hi]."""
    a = b = 0
    for m, c in x.p.items():
        if any(not ATOMS[e[0] if isinstance(e, tuple) else e].isbit for e in m):
            return False
        if not m:
            a, b = a + c, b + c
        elif c < 0:
            a += c
        else:
            b += c
    return lo <= a and b <= hi


def floor(x):
    if not isinstance(x, (SymNum, SymBool)):
        return math.floor(x)
    p, isint = poly_of(x)
    if isint and poly_isint(p):
        return mk(p, True)
    ip, rest = {}, {}
    for m, c in p.items():
        if m == ():
            fl = math.floor(c)
            if fl:
                ip[m] = fl
            if c - fl:
                rest[m] = c - fl
        elif all(ATOMS[i].isint for i in m):
            fl = math.floor(c)
            if fl:
                ip[m] = fl
            if c - fl:
                rest[m] = c - fl
        else:
            rest[m] = c
    if not rest or set(rest) == {()}:
        return mk(ip, True)
    if () in rest:
        # floor(r + c) = floor(r) + [r - floor(r) >= 1 - c], 0 < c < 1
        c = rest.pop(())
        fl = floor(SymNum(rest, False))
        up = rel(_padd(_padd(rest, poly_of(fl)[0], -1), {(): 1 - c}, -1), ">=", False)
        up = up.as_num() if isinstance(up, SymBool) else int(up)
        return mk(_padd(_padd(ip, poly_of(fl)[0]), poly_of(up)[0]), True)
    a = atom("floor", rest, True, False, key=pkey(rest))
    return mk(_padd(ip, {(a.id,): 1}), True)


def trunc(x):
    if isinstance(x, SymNum) and not x.isint:
        c = x.const()
        if c is not None:
            return math.trunc(c)
        return ite(x >= 0, floor(x), -floor(-x))
    return x


def rint(x):
    """Round half to even."""
    if isinstance(x, SymNum) and x.isint:
        return x
    f = floor(x + Fraction(1, 2))
    tie = (x + Fraction(1, 2)) == f
    odd = mod(f, 2)
    return ite(tie, f - odd, f)


def floordiv(a, b):
    pb, bi = poly_of(b)
    pa, ai = poly_of(a)
    cb = SymNum(pb, bi).const()
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if ai and bi and cb == 2 and poly_isint(pa):
            # keep the parity canonical: (a - a mod 2) / 2
            par = parity(SymNum(pa, True))
            if par is not None and not isinstance(par, SymNum):
                return mk(_pscale(_padd(pa, poly_of(par)[0], -1), Fraction(1, 2)), True)
        q = floor(SymNum(_pscale(pa, Fraction(1) / cb), False))
        return q if (ai and bi) else to_real(q)
    # symbolic divisor
    if bool(SymNum(pb, bi) == 0):
        raise ZeroDivisionError("division by zero")
    q = floor(divide(SymNum(pa, ai), SymNum(pb, bi)))
    return q if (ai and bi) else to_real(q)


def to_real(x):
    """Value with floating type."""
    if isinstance(x, SymNum):
        return SymNum(x.p, False) if x.isint else x
    if isinstance(x, SymBool):
        return to_real(x.as_num())
    if isinstance(x, int):
        return float(x)
    return x


def mod(a, b):
    pb, bi = poly_of(b)
    pa, ai = poly_of(a)
    cb = SymNum(pb, bi).const()
    if cb is not None and cb == 2 and poly_isint(pa):
        r = parity(SymNum(pa, True))
        if r is not None:
            return r if (ai and bi) else to_real(r)
    q = floordiv(a, b)
    qp, _ = poly_of(q)
    return mk(_padd(pa, _pmul(pb, qp), -1), ai and bi)


def divide(a, b):
    pb, bi = poly_of(b)
    pa, ai = poly_of(a)
    cb = SymNum(pb, bi).const()
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("division by zero")
        return mk(_pscale(pa, Fraction(1) / cb), False)
    if bool(SymNum(pb, bi) == 0):
        raise ZeroDivisionError("division by zero")
    if SymNum(pb, bi).bitform() is not None:
        return mk(pa, False)  # a non-zero bit is 1
    return mk(_pmul(pa, inv_poly(pb)), False)


def inv_poly(pb):
    if len(pb) == 1:
        (m, c), = pb.items()
        ids = []
        for i in m:
            a = ATOMS[i]
            if a.isbit:
                continue  # known nonzero: value 1
            if a.inv is None:
                v = atom("inv", {(i,): 1}, False, False, key=pkey({(i,): 1}))
                a.inv, v.inv = v.id, a.id
            ids.append(a.inv)
        return {tuple(sorted(ids)): Fraction(1) / c}
    lead = min(pb, key=lambda m: m)
    c = pb[lead]
    q = _pscale(pb, Fraction(1) / c)
    v = atom("inv", q, False, False, key=pkey(q))
    return {(v.id,): Fraction(1) / c}


def fn(name, x):
    p, _ = poly_of(x)
    c = SymNum(p, False).const()
    if c is not None:
        return getattr(math, name)(float(c))
    if name == "exp" and CTX.opts.get("exp_underflow"):
        # double precision: exp(x) is exactly 0 below about -745.13
        if bool(SymNum(p, False) < Fraction(-74513, 100)):
            return 0.0
    if name == "sqrt":
        # exact square of a single atom
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 2 and m[0] == m[1]:
                r = math.isqrt(k) if isinstance(k, int) and k >= 0 else None
                if r is not None and r * r == k:
                    return abs(SymNum({(m[0],): r}, False))
        if bool(SymNum(p, False) < 0):
            return float("nan")
    if name == "erf" and min(p.items())[1] < 0:  # odd
        return -fn("erf", SymNum(_pscale(p, -1), False))
    if name == "log" and bool(SymNum(p, False) <= 0):
        raise Unsupported("log of a non-positive value")
    a = atom("fn", (name, p), False, False, key=(name, pkey(p)))
    return SymNum({(a.id,): 1}, False)


def powsym(base, e):
    if is_concrete_num(base) and base == -1 and e.isint:
        b = parity(e)
        return 1 - 2 * b
    if is_concrete_num(base) and not isinstance(base, SymNum):
        v = CTX.concretize(e)
        return base**v
    v = CTX.concretize(e)
    return base**v


def ite(c, a, b):
    if isinstance(c, SymBool):
        i = c.as_num()
        pi = poly_of(i)[0]
        pa, ai = poly_of(a)
        pb, bi = poly_of(b)
        return mk(_padd(pb, _pmul(pi, _padd(pa, pb, -1))), ai and bi)
    return a if c else b


# -------------------------------------------------------------------- SymBool
class SymBool(SymBase):
    __slots__ = ("key", "data", "_z3", "_hash")

    def __init__(self, key, data=None):
        self.key, self.data = key, data
        self._z3 = None

    def neg(self):
        return negate(self)

    def as_num(self):
        k = self.key
        if k[0] == "xor":
            return from_bitform(k[1], k[2])
        # indicator of the canonical polarity
        base, pol = canon(self)
        a = atom("ind", base, True, True, key=base.key)
        return SymNum({(a.id,): 1}, True) if pol else SymNum({(): 1, (a.id,): -1}, True)

    def __bool__(self):
        return CTX.decide(self)

    def __int__(self):
        return int(CTX.decide(self))

    def __index__(self):
        return int(CTX.decide(self))

    def __float__(self):
        return float(CTX.decide(self))

    def __hash__(self):
        return hash(CTX.decide(self))

    def __and__(self, o):
        return self._logic(o, bool_and2)

    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, bool_or2)

    __ror__ = __or__

    def _logic(self, o, f):
        if isinstance(o, (bool, SymBool)) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0 and o.dtype.kind == "b"):
            return f(self, o if isinstance(o, SymBool) else bool(o))
        if _coercible(o):
            return bitop(self.as_num(), o, "and" if f is bool_and2 else "or")
        return NotImplemented

    def __xor__(self, o):
        if isinstance(o, SymBool) or isinstance(o, bool):
            n = bitop(self.as_num(), o.as_num() if isinstance(o, SymBool) else int(o), "xor")
            return n != 0 if isinstance(n, SymNum) else bool(n)
        if _coercible(o):
            return bitop(self.as_num(), o, "xor")
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return self.neg()

    def logical_not(self):
        return self.neg()

    def _num(self):
        return self.as_num()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return bool_iff(self, o)
        if isinstance(o, bool):
            return self if o else self.neg()
        if _coercible(o):
            return self.as_num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.neg() if isinstance(r, SymBool) else not r

    def __repr__(self):
        return "<%s>" % show_bool(self)

    __str__ = __repr__


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod",
           "lt", "le", "gt", "ge", "pow", "rpow", "divmod", "rdivmod"):
    def _mkm(nm):
        def f(self, o):
            n = self.as_num()
            if not isinstance(n, SymNum):
                n = SymNum(poly_of(n)[0], True)
            return getattr(n, nm)(o)
        f.__name__ = nm
        return f
    setattr(SymBool, "__%s__" % _n, _mkm("__%s__" % _n))
SymBool.__neg__ = lambda self: -self.as_num()
SymBool.__pos__ = lambda self: self.as_num()
SymBool.__abs__ = lambda self: self.as_num()
numbers.Number.register(SymBool)


def show_bool(b):
    k = b.key
    if k[0] == "xor":
        return "xor(%s)%s" % (",".join(sorted(show_atom(ATOMS[i]) for i in k[1])), "'" if k[2] else "")
    if k[0] == "rel":
        return "%s %s 0" % (show_poly(b.data), k[1])
    return "%s(%s)" % (k[0], ", ".join(show_bool(c) for c in b.data))


def bit_bool(s, c):
    """Truth of XOR(s)^c."""
    if not s:
        return bool(c)
    return SymBool(("xor", s, c))


def _lead(p):
    return min((m for m in p if m), key=lambda m: (len(m), m))


def rel(d, op, isint):
    """d op 0 in canonical form."""
    c = SymNum(d, isint).const()
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    # single bit atom: evaluate
    ms = [m for m in d if m]
    if len(ms) == 1 and all(ATOMS[i].isbit for i in ms[0]):
        k0 = d.get((), 0)
        k1 = k0 + d[ms[0]]
        f = {"<": lambda v: v < 0, "<=": lambda v: v <= 0, ">": lambda v: v > 0,
             ">=": lambda v: v >= 0, "==": lambda v: v == 0, "!=": lambda v: v != 0}[op]
        v0, v1 = f(k0), f(k1)
        if v0 == v1:
            return v0
        a = ATOMS[ms[0][0]] if len(ms[0]) == 1 else and_atom(ms[0])
        return bit_bool(a.bits, 0 if v1 else 1)
    if op in ("==", "!="):
        # equality of two bits / parity style equalities
        bf = _bit_equality(d)
        if bf is not None:
            s, k = bf
            r = bit_bool(s, k)
            if op == "==":
                return r
            return r.neg() if isinstance(r, SymBool) else not r
    if op in ("<", "<="):
        d = _pscale(d, -1)
        op = ">" if op == "<" else ">="
    intp = isint and poly_isint(d) or _poly_int_scaled(d)
    if intp:
        d = intp if isinstance(intp, dict) else d
        if op == ">":
            d = _padd(d, {(): 1}, -1)
            op = ">="
        # gcd of non-constant coefficients
        g = 0
        for m, v in d.items():
            if m:
                g = math.gcd(g, abs(v))
        if g > 1:
            k = d.get((), 0)
            if op == ">=":
                nd = {m: v // g for m, v in d.items() if m}
                kk = math.floor(Fraction(k, g))
                if kk:
                    nd[()] = kk
                d = nd
            else:
                if k % g:
                    return op == "!="
                d = {m: v // g for m, v in d.items()}
    else:
        c = d[_lead(d)]
        d = _pscale(d, Fraction(1) / abs(c))
    if op in ("==", "!=") and d[_lead(d)] < 0:
        d = _pscale(d, -1)
    return SymBool(("rel", op, pkey(d)), d)


def _poly_int_scaled(d):
    """Integer multiple of d if all atoms are integers, else False."""
    l = 1
    for m, c in d.items():
        if not all(ATOMS[i].isint for i in m):
            return False
        if isinstance(c, Fraction):
            l = l * c.denominator // math.gcd(l, c.denominator)
    return _pscale(d, l)


def _bit_equality(d):
    """d == 0 where d = ±(bit1) ∓ (bit2) [+ const] : an XOR equation."""
    ms = [m for m in d if m]
    if len(ms) != 2 or not all(len(m) == 1 and ATOMS[m[0]].isbit for m in ms):
        return None
    a, b = (ATOMS[m[0]] for m in ms)
    ca, cb, k = d[ms[0]], d[ms[1]], d.get((), 0)
    sols = [(x, y) for x in (0, 1) for y in (0, 1) if ca * x + cb * y + k == 0]
    if sols == [(0, 0), (1, 1)]:
        return a.bits ^ b.bits, 1
    if sols == [(0, 1), (1, 0)]:
        return a.bits ^ b.bits, 0
    return None


def negate(b):
    if isinstance(b, bool):
        return not b
    k = b.key
    if k[0] == "xor":
        return SymBool(("xor", k[1], 1 - k[2]))
    if k[0] == "rel":
        op = k[1]
        if op in ("==", "!="):
            return SymBool(("rel", "!=" if op == "==" else "==", k[2]), b.data)
        d = _pscale(b.data, -1)
        return rel(d, ">" if op == ">=" else ">=", poly_isint(d))
    return SymBool_make("or" if k[0] == "and" else "and", [negate(c) for c in b.data])


def SymBool_make(op, bs):
    flat, seen = [], set()
    for b in bs:
        if isinstance(b, bool):
            if b == (op == "or"):
                return b
            continue
        items = b.data if b.key[0] == op else [b]
        for c in items:
            if c.key in seen:
                continue
            n = negate(c)
            if isinstance(n, SymBool) and n.key in seen:
                return op == "or"
            seen.add(c.key)
            flat.append(c)
    if not flat:
        return op == "and"
    if len(flat) == 1:
        return flat[0]
    return SymBool((op, frozenset(c.key for c in flat)), flat)


def _tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def bool_and(bs):
    return SymBool_make("and", [_tobool(b) for b in bs])


def bool_or(bs):
    return SymBool_make("or", [_tobool(b) for b in bs])


def bool_and2(a, b):
    return bool_and([a, b])


def bool_or2(a, b):
    return bool_or([a, b])


def bool_not(a):
    return negate(_tobool(a))


def bool_iff(a, b):
    a, b = _tobool(a), _tobool(b)
    if isinstance(a, bool):
        return b if a else negate(b)
    if isinstance(b, bool):
        return a if b else negate(a)
    n = bitop(a.as_num(), b.as_num(), "xor")
    return (n == 0) if isinstance(n, SymNum) else n == 0


def canon(b):
    """(base, polarity)."""
    k = b.key
    if k[0] == "xor":
        if k[2]:
            return SymBool(("xor", k[1], 0)), False
        return b, True
    if k[0] == "rel":
        if k[1] == "!=":
            return SymBool(("rel", "==", k[2]), b.data), False
        if k[1] == "==":
            return b, True
        if b.data[_lead(b.data)] < 0:
            n = negate(b)
            if isinstance(n, SymBool):
                return n, False
        return b, True
    if k[0] == "or":
        return negate(b), False
    return b, True


# ------------------------------------------------------------------- z3 layer
def z3_atom(a):
    if a._z3 is not None:
        return a._z3
    k = a.kind
    if k == "b":
        v = z3.Bool(a.name)
    elif k == "i":
        v = z3.Int(a.name)
    elif k == "r":
        v = z3.Real(a.name)
    elif k == "bf":
        v = z3_xor(a.data)
    elif k == "ind":
        v = z3_bool(a.data)
    elif k == "par":
        v = z3.Int("par!%d" % a.id) == 1
        base = z3_atom(ATOMS[a.data])
        w = z3.Int("par!%d" % a.id)
        h = z3.Int("half!%d" % a.id)
        a.axioms = [base == 2 * h + w, w >= 0, w <= 1]
    elif k == "floor":
        v = z3.Int("floor!%d" % a.id)
        x = z3_poly(a.data, real=True)
        r = z3.ToReal(v)
        a.axioms = [r <= x, x < r + 1]
    elif k == "inv":
        v = z3.Real("inv!%d" % a.id)
        a.axioms = [v * z3_poly(a.data, real=True) == 1]
    elif k == "fn":
        name, p = a.data
        v = z3.Real("%s!%d" % (name, a.id))
        x = z3_poly(p, real=True)
        if name == "exp":
            a.axioms = [v > 0, z3.Implies(x <= 0, v <= 1), z3.Implies(x >= 0, v >= 1), v >= 1 + x]
        elif name == "sqrt":
            a.axioms = [v >= 0, v * v == x]
        elif name == "log":
            a.axioms = [z3.Implies(x <= 1, v <= 0), z3.Implies(x >= 1, v >= 0), v <= x - 1,
                        z3.Implies(x < 1, v < 0), z3.Implies(x > 1, v > 0)]
        elif name == "erf":
            a.axioms = [v > -1, v < 1, z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)]
        else:
            a.axioms = []
    else:
        raise Unsupported("atom kind " + k)
    a._z3 = v
    return v


def z3_xor(s):
    out = None
    for i in sorted(s):
        v = z3_atom(ATOMS[i])
        out = v if out is None else z3.Xor(out, v)
    return out


def z3_num(c):
    if isinstance(c, Fraction):
        return z3.RealVal(str(c))
    return z3.IntVal(c)


def z3_mono(m, real):
    bits = [ATOMS[i] for i in m if ATOMS[i].isbit]
    rest = [ATOMS[i] for i in m if not ATOMS[i].isbit]
    t = None
    for a in rest:
        v = z3_atom(a)
        if real and a.isint:
            v = z3.ToReal(v)
        t = v if t is None else t * v
    one = z3.RealVal(1) if real else z3.IntVal(1)
    zero = z3.RealVal(0) if real else z3.IntVal(0)
    if t is None:
        t = one
    if bits:
        conds = [z3_atom(b) for b in bits]
        t = z3.If(z3.And(conds) if len(conds) > 1 else conds[0], t, zero)
    return t


def z3_poly(p, real=None):
    if real is None:
        real = not poly_isint(p)
    terms = []
    for m, c in p.items():
        k = z3.RealVal(str(Fraction(c))) if real else z3.IntVal(c)
        if m == ():
            terms.append(k)
        elif c == 1:
            terms.append(z3_mono(m, real))
        else:
            terms.append(k * z3_mono(m, real))
    if not terms:
        return z3.RealVal(0) if real else z3.IntVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


_Z3B = {}


def z3_bool(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    r = _Z3B.get(b.key)
    if r is not None:
        return r
    k = b.key
    if k[0] == "xor":
        r = z3_xor(k[1])
        if k[2]:
            r = z3.Not(r)
    elif k[0] == "rel":
        r = z3_rel(b.data, k[1])
    elif k[0] == "and":
        r = z3.And([z3_bool(c) for c in b.data])
    else:
        r = z3.Or([z3_bool(c) for c in b.data])
    _Z3B[b.key] = r
    return r


def z3_rel(d, op):
    ms = [m for m in d if m]
    if len(ms) > 2 and all(all(ATOMS[i].isbit for i in m) for m in ms) and not any(isinstance(c, Fraction) for c in d.values()) and sum(abs(c) for c in d.values()) < 2**31 - 2:
        args = [(z3.And([z3_atom(ATOMS[i]) for i in m]) if len(m) > 1 else z3_atom(ATOMS[m[0]]), d[m]) for m in ms]
        k = -d.get((), 0)
        # PbGe needs non-negative weights: flip negative ones
        pos = []
        for v, c in args:
            if c < 0:
                pos.append((z3.Not(v), -c))
                k += -c
            else:
                pos.append((v, c))
        tot = sum(c for _, c in pos)
        if op in (">=", ">"):
            if op == ">":
                k += 1
            if k <= 0:
                return z3.BoolVal(True)
            if k > tot:
                return z3.BoolVal(False)
            return z3.PbGe(pos, k)
        if k < 0 or k > tot:
            return z3.BoolVal(op == "!=")
        r = z3.PbEq(pos, k)
        return r if op == "==" else z3.Not(r)
    t = z3_poly(d)
    return {">=": t >= 0, ">": t > 0, "==": t == 0, "!=": t != 0}[op]


_SUPPORT = {}


def support_poly(p, out, seen):
    for m in p:
        for i in m:
            support_atom(i, out, seen)


def support_atom(i, out, seen):
    if i in seen:
        return
    seen.add(i)
    a = ATOMS[i]
    out.append(a)
    k = a.kind
    if k == "bf":
        for j in a.data:
            support_atom(j, out, seen)
    elif k == "ind":
        support_bool(a.data, out, seen)
    elif k == "par":
        support_atom(a.data, out, seen)
    elif k in ("floor", "inv"):
        support_poly(a.data, out, seen)
    elif k == "fn":
        support_poly(a.data[1], out, seen)


def support_bool(b, out, seen):
    if isinstance(b, bool):
        return
    k = b.key
    if k[0] == "xor":
        for i in k[1]:
            support_atom(i, out, seen)
    elif k[0] == "rel":
        support_poly(b.data, out, seen)
    else:
        for c in b.data:
            support_bool(c, out, seen)


# ---------------------------------------------------------------------- GF(2)
class GF2:
    """Incremental elimination; rows: pivot -> (set, const) meaning XOR(set)=const."""

    def __init__(self):
        self.rows = {}
        self.n = 0
        self.special = False

    def reduce(self, s, c):
        s = set(s)
        for i in list(s):
            if i in s and i in self.rows:
                r, k = self.rows[i]
                s ^= r
                c ^= k
        # rows are kept fully reduced, one pass suffices
        return frozenset(s), c

    def add(self, s, c):
        s, c = self.reduce(s, c)
        if not s:
            return c == 0
        piv = min(s)
        self.n += 1
        if not self.special and any(ATOMS[i].kind != "b" for i in s):
            self.special = True
        for q, (r, k) in list(self.rows.items()):
            if piv in r:
                self.rows[q] = (frozenset(r ^ s), k ^ c)
        self.rows[piv] = (s, c)
        return True


class _Impure(Exception):
    pass


class LinModel:
    """Model given by free bits; pivots follow from the linear constraints."""

    def __init__(self, gf, free):
        self.rows = dict(gf.rows)
        self.free = free if callable(free) else (lambda i: free.get(i, 0))

    def value(self, i):
        r = self.rows.get(i)
        if r is None:
            return self.free(i)
        v = r[1]
        for j in r[0]:
            if j != i:
                v ^= self.free(j)
        return v


# -------------------------------------------------------------------- context
class Stats:
    FIELDS = ("paths", "aborted", "decisions", "forks", "feas_queries", "obligations", "obl_const", "obl_gf2",
              "obl_z3", "z3_queries", "z3_time", "assumes", "reached", "crosscheck")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.z3_time = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Context:
    """State of one path."""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.stats = stats
        self.opts = opts
        self.lits = {}
        self.order = []  # decisions [(SymBool, bool)]
        self.gf2 = GF2()
        self.nonlin = False
        self.impure = False
        self.nl_support = set()  # atoms tied by anything but linear bit equations
        self.solver = None
        self.asserted = []  # all SymBools asserted
        self._sent = 0
        self._axed = set()
        self.alts = []
        self._fixed = {}
        self.inputs = {}
        self.model = None
        self.model_n = -1
        for b, v in prefix:
            self._assert(b, v)
            self.order.append((b, v))

    # -- inputs
    def new_bit(self, name):
        a = atom("b", name, True, True, name)
        self.inputs[name] = a
        return SymNum({(a.id,): 1}, True)

    def new_int(self, name):
        a = atom("i", name, True, False, name)
        self.inputs[name] = a
        return SymNum({(a.id,): 1}, True)

    def new_real(self, name):
        a = atom("r", name, False, False, name)
        self.inputs[name] = a
        return SymNum({(a.id,): 1}, False)

    def fixed(self, i):
        """Value of a bit atom if linear constraints determine it."""
        a = ATOMS[i]
        if not a.isbit:
            return None
        n, v = self._fixed.get(i, (-1, None))
        if v is not None or n == self.gf2.n:
            return v
        s, c = self.gf2.reduce(a.bits, 0)
        v = c if not s else None
        self._fixed[i] = (self.gf2.n, v)
        return v

    # -- constraint store
    def _assert(self, b, v=True):
        if not v:
            b = negate(b)
        if isinstance(b, bool):
            if not b:
                raise AbortPath()
            return
        base, pol = canon(b)
        self.lits[base.key] = pol
        self.asserted.append(b)
        if b.key[0] != "xor" or any(ATOMS[i].kind != "b" for i in b.key[1]):
            sup = []
            support_bool(b, sup, set())
            self.nl_support.update(a.id for a in sup)
        if b.key[0] == "xor":
            if not self.gf2.add(b.key[1], 1 - b.key[2]):
                raise AbortPath()
            if not self.nonlin:
                for i in b.key[1]:
                    if ATOMS[i].kind != "b":
                        self.nonlin = True
        elif b.key[0] == "and":
            self.nonlin = True
            for c in b.data:
                bb, pp = canon(c)
                self.lits.setdefault(bb.key, pp)
                if c.key[0] == "xor" and not self.gf2.add(c.key[1], 1 - c.key[2]):
                    raise AbortPath()
        else:
            self.nonlin = True

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("random_seed", self.opts.get("seed", 1))
        while self._sent < len(self.asserted):
            b = self.asserted[self._sent]
            self._sent += 1
            self._send(self.solver, b)

    def _send(self, solver, b, axed=None):
        axed = self._axed if axed is None else axed
        sup = []
        support_bool(b, sup, set())
        f = z3_bool(b)
        todo = sup
        for a in todo:
            if a.id in axed:
                continue
            z3_atom(a)
            axed.add(a.id)
            if a.axioms:
                for ax in a.axioms:
                    solver.add(ax)
        solver.add(f)

    def _check(self, solver, timeout):
        solver.set("timeout", int(timeout * 1000))
        t = time.time()
        r = solver.check()
        self.stats.z3_queries += 1
        self.stats.z3_time += time.time() - t
        return r

    def _sat(self, b, timeout=None):
        """Is PC and b satisfiable?  Returns z3 result, remembers model."""
        timeout = timeout or self.opts.get("feas_timeout", 10)
        r = self._pure_sat(b, timeout)
        if r is not None:
            return r
        self._sync()
        self.stats.feas_queries += 1
        self.solver.push()
        ax = set(self._axed)
        self._send(self.solver, b, ax)
        r = self._check(self.solver, timeout)
        if r == z3.sat:
            self.model = self.solver.model()
        self.solver.pop()
        return r

    # -- bits only: linear part by elimination, the rest by z3 over the free bits
    def _pure_sat(self, b, timeout):
        """Decide PC and b when only bits occur; None if other values do."""
        if self.impure:
            return None
        work = [c for c in self.asserted if c.key[0] != "xor"]
        if isinstance(b, SymBool):
            work.append(b)
        elif not b:
            return z3.unsat
        gf = self.gf2
        if isinstance(b, SymBool) and b.key[0] == "xor" and len(work) == 1 and not gf.special:
            s, c = gf.reduce(b.key[1], b.key[2])
            if all(ATOMS[i].kind == "b" for i in s):
                # linear everywhere: feasible unless contradictory
                if not s:
                    if not c:
                        return z3.unsat
                    self.model = LinModel(gf, {})
                else:
                    self.model = LinModel(gf, {min(s): 1 - c})
                return z3.sat
        defs, seen, cons = [], set(), []
        todo = [i for r, _ in gf.rows.values() for i in r if ATOMS[i].kind != "b"] if gf.special else []

        def tr(x):
            if isinstance(x, bool):
                return z3.BoolVal(x)
            k = x.key
            if k[0] == "xor":
                st, c = gf.reduce(k[1], k[2])
                out = None
                for i in sorted(st):
                    if ATOMS[i].kind != "b":
                        todo.append(i)
                    v = z3.Bool("pure!%d" % i)
                    out = v if out is None else z3.Xor(out, v)
                if out is None:
                    return z3.BoolVal(bool(c))
                return z3.Not(out) if c else out
            if k[0] == "rel":
                raise _Impure()
            return (z3.And if k[0] == "and" else z3.Or)([tr(y) for y in x.data])

        try:
            cons = [tr(x) for x in work]
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                a = ATOMS[i]
                if a.kind != "ind":
                    raise _Impure()
                defs.append(tr(bit_bool(frozenset((i,)), 0)) == tr(a.data))
        except _Impure:
            self.impure = True
            return None
        self.stats.feas_queries += 1
        s = z3.Solver()
        s.set("random_seed", self.opts.get("seed", 1))
        s.add(cons + defs)
        r = self._check(s, timeout)
        if r == z3.sat:
            m = s.model()
            self.model = LinModel(gf, lambda i: 1 if z3.is_true(m.eval(z3.Bool("pure!%d" % i), model_completion=True)) else 0)
        return r if r != z3.unknown else None

    def some_model(self, timeout=10):
        """Inputs satisfying the path condition, or None."""
        r = self._pure_sat(True, timeout)
        if r is None:
            self._sync()
            r = self._check(self.solver, timeout)
            if r == z3.sat:
                rob = self._robust(True)
                if rob is not None:
                    return rob
                self.model = self.solver.model()
        return self.extract(self.model) if r == z3.sat else None

    def reduce(self, b):
        if b.key[0] == "xor":
            s, c = self.gf2.reduce(b.key[1], b.key[2])
            if not s:
                return bool(c)
            if s != b.key[1]:
                return SymBool(("xor", s, c))
        return b

    def known(self, b):
        """True/False if already decided on this path, else None."""
        if isinstance(b, bool):
            return b
        base, pol = canon(b)
        v = self.lits.get(base.key)
        if v is not None:
            return v == pol
        r = self.reduce(b)
        if isinstance(r, bool):
            return r
        k = b.key[0]
        if k in ("and", "or"):
            vals = [self.known(c) for c in b.data]
            if k == "and":
                if any(x is False for x in vals):
                    return False
                if all(x is True for x in vals):
                    return True
            else:
                if any(x is True for x in vals):
                    return True
                if all(x is False for x in vals):
                    return False
        return None

    def decide(self, b):
        self.stats.decisions += 1
        v = self.known(b)
        if v is not None:
            return v
        b = self.reduce(b)
        if b.key[0] == "xor" and (all(ATOMS[i].kind == "b" for i in b.key[1]) if not self.nonlin else self.unconstrained(b)):
            both, first = True, False
        else:
            rt = self._sat(b)
            if rt == z3.unsat:
                self._assert(b, False)
                return False
            rf = self._sat(negate(b))
            if rf == z3.unsat:
                self._assert(b, True)
                return True
            both, first = True, False
        if len(self.order) - len(self.prefix) > self.opts.get("max_depth", 4000):
            raise Inconclusive("path too deep")
        self.stats.forks += 1
        self.alts.append(list(self.order) + [(b, not first)])
        self.order.append((b, first))
        self._assert(b, first)
        return first

    def settle(self, b):
        """The condition, or its value where the path implies one."""
        if not isinstance(b, SymBool):
            return b
        v = self.known(b)
        if v is not None:
            return v
        if b.key[0] != "xor":
            if self._sat(b) == z3.unsat:
                return False
            if self._sat(negate(b)) == z3.unsat:
                return True
        return b

    def unconstrained(self, b):
        """A reduced XOR with a bit that can be flipped without touching anything else."""
        nl = self.nl_support
        if any(ATOMS[i].kind != "b" for i in b.key[1]):
            return False
        for x in b.key[1]:
            if x not in nl and all(p not in nl for p, (r, _) in self.gf2.rows.items() if x in r):
                return True
        return False

    def concretize(self, n):
        if not isinstance(n, SymNum):
            return int(n)
        for _ in range(100000):
            c = n.const()
            if c is not None:
                return int(c)
            bf = n.bitform()
            if bf is not None:
                return 1 if self.decide(bit_bool(*bf)) else 0
            v = self._value(n)
            if self.decide_eq(n, v):
                return v
        raise Inconclusive("concretisation does not end")

    def decide_eq(self, n, v):
        e = n == v
        if isinstance(e, bool):
            return e
        k = self.known(e)
        if k is not None:
            return k
        # v is feasible by construction; prefer it
        rf = self._sat(negate(e))
        if rf == z3.unsat:
            self._assert(e, True)
            return True
        self.stats.forks += 1
        self.alts.append(list(self.order) + [(e, False)])
        self.order.append((e, True))
        self._assert(e, True)
        return True

    def _value(self, n):
        self._sync()
        self.solver.push()
        ax = set(self._axed)
        t = z3.Int("conc!")
        sup = []
        support_poly(n.p, sup, set())
        for a in sup:
            z3_atom(a)
            if a.id not in ax and a.axioms:
                for x in a.axioms:
                    self.solver.add(x)
            ax.add(a.id)
        self.solver.add(t == z3_poly(n.p, real=False) if poly_isint(n.p) else z3.ToReal(t) == z3_poly(n.p, real=True))
        self.stats.feas_queries += 1
        r = self._check(self.solver, self.opts.get("feas_timeout", 10))
        if r != z3.sat:
            self.solver.pop()
            if r == z3.unsat:
                raise AbortPath()
            raise Inconclusive("no value for concretisation")
        v = self.solver.model().eval(t, model_completion=True).as_long()
        self.solver.pop()
        return v

    # -- harness operations
    def assume(self, cond):
        self.stats.assumes += 1
        cond = _tobool(cond)
        k = self.known(cond)
        if k is True:
            return
        if k is False:
            raise AbortPath()
        cond = self.reduce(cond)
        if not (not self.nonlin and cond.key[0] == "xor" and all(ATOMS[i].kind == "b" for i in cond.key[1])):
            if self._sat(cond) == z3.unsat:
                raise AbortPath()
        self._assert(cond)

    def check(self, cond, msg):
        st = self.stats
        st.obligations += 1
        cond = _tobool(cond)
        if cond is True:
            st.obl_const += 1
            return
        if isinstance(cond, SymBool):
            if self.known(cond) is True:
                st.obl_gf2 += 1
                if st.crosscheck < self.opts.get("crosscheck", 25):
                    st.crosscheck += 1
                    if self._sat(negate(cond)) == z3.sat:
                        raise Unsupported("GF(2)/z3 disagreement")
                return
            neg = negate(cond)
        else:
            neg = True
        st.obl_z3 += 1
        models = self.find_models(neg)
        if models is None:
            # holds: remember it as a lemma
            if isinstance(cond, SymBool):
                self._assert(cond)
            return
        raise Violation(msg, models)

    def find_models(self, neg):
        """None if PC and neg is unsat, else list of candidate models."""
        timeout = self.opts.get("obl_timeout", 60)
        r = self._sat(neg, timeout) if isinstance(neg, SymBool) else self._sat(True, timeout)
        if r == z3.unsat:
            return None
        if r != z3.sat:
            r2 = self._sat_fresh(neg, timeout)
            if r2 == z3.unsat:
                return None
            if r2 != z3.sat:
                raise Inconclusive("solver returned unknown")
        models = []
        base = self.extract(self.model)
        # robust model first: margins on real-valued relations
        rob = self._robust(neg)
        if rob is not None:
            models.append(rob)
        models.append(base)
        return models

    def _sat_fresh(self, b, timeout):
        """Second opinion from a fresh solver on the whole query."""
        s = z3.SolverFor("QF_NRA")
        ax = set()
        for c in self.asserted + ([b] if isinstance(b, SymBool) else []):
            self._send(s, c, ax)
        r = self._check(s, timeout)
        if r == z3.sat:
            self.model = s.model()
        return r

    def _robust(self, neg):
        real = [a for a in self.inputs.values() if a.kind == "r"]
        if not real:
            return None
        s = z3.Solver()
        s.set("random_seed", self.opts.get("seed", 1))
        ax = set()
        for eps in (Fraction(1, 50), Fraction(1, 10**4)):
            s.push()
            for b in self.asserted + ([neg] if isinstance(neg, SymBool) else []):
                self._send(s, margin(b, eps), set())
            for a in real:
                s.add(z3_atom(a) <= 20, z3_atom(a) >= -20)
            r = self._check(s, 10)
            if r == z3.sat:
                m = self.extract(s.model())
                s.pop()
                return m
            s.pop()
        return None

    def extract(self, model):
        out = {}
        if isinstance(model, LinModel):
            return {name: model.value(a.id) if a.kind == "b" else 0 for name, a in self.inputs.items()}
        for name, a in self.inputs.items():
            v = model.eval(z3_atom(a), model_completion=True)
            if a.kind == "b":
                out[name] = 1 if z3.is_true(v) else 0
            elif a.kind == "i":
                out[name] = v.as_long()
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = [v.numerator_as_long(), v.denominator_as_long()] if v.denominator_as_long() != 1 else v.numerator_as_long()
        return out

    def any_model(self):
        r = self._pure_sat(True, self.opts.get("obl_timeout", 60))
        if r is not None:
            return [self.extract(self.model)] if r == z3.sat else None
        self._sync()
        r = self._check(self.solver, self.opts.get("obl_timeout", 60))
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Inconclusive("solver returned unknown")
        self.model = self.solver.model()
        ms = []
        rob = self._robust(True)
        if rob is not None:
            ms.append(rob)
        return ms + [self.extract(self.model)]


def margin(b, eps):
    """Strengthen real-valued relations by eps so that floats reproduce them."""
    if isinstance(b, bool):
        return b
    k = b.key
    if k[0] == "rel" and k[1] in (">=", ">") and not poly_isint(b.data):
        return SymBool(("rel", ">=", pkey(_padd(b.data, {(): eps}, -1))), _padd(b.data, {(): eps}, -1))
    if k[0] == "rel" and k[1] == "!=" and not poly_isint(b.data):
        hi = _padd(b.data, {(): eps}, -1)
        lo = _padd(_pscale(b.data, -1), {(): eps}, -1)
        return SymBool_make("or", [SymBool(("rel", ">=", pkey(hi)), hi), SymBool(("rel", ">=", pkey(lo)), lo)])
    if k[0] in ("and", "or"):
        return SymBool_make(k[0], [margin(c, eps) for c in b.data])
    return b


class _NoCtx:
    def __getattr__(self, n):
        raise Unsupported("symbolic value used outside of a path")


class _CtxProxy:
    """Indirection so that modules can hold a reference to the current path."""

    def __init__(self):
        object.__setattr__(self, "cur", _NoCtx())

    def __getattr__(self, n):
        return getattr(self.cur, n)


CTX = _CtxProxy()


def set_ctx(c):
    object.__setattr__(CTX, "cur", c if c is not None else _NoCtx())
