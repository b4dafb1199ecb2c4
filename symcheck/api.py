"""Harness interface: one body, two interpretations (symbolic and concrete)."""
import importlib
import importlib.util
import itertools
import json
import math
import os
import random
import sys
import time
from fractions import Fraction


class Reproduced(BaseException):
    """Concrete run violates a check."""


class NotApplicableInput(BaseException):
    """Concrete run fails an assumption."""


class Task:
    def __init__(self, name, func, split=1, opts=None, **params):
        self.name, self.func, self.split, self.params = name, func, split, params
        self.opts = opts or {}


def iround(x):
    return int(math.floor(x + 0.5))


_ABSENT = object()


class BaseH:
    """Operations available to harnesses in both modes."""

    symbolic = False

    def mod(self, name):
        return importlib.import_module("flamingpy" + ("." + name if name else ""))

    # logical combinators that never fork
    def all(self, conds):
        conds = list(conds)
        if self.symbolic:
            from symcheck import core

            return core.bool_and(conds)
        return all(bool(c) for c in conds)

    def any(self, conds):
        conds = list(conds)
        if self.symbolic:
            from symcheck import core

            return core.bool_or(conds)
        return any(bool(c) for c in conds)

    def not_(self, c):
        if self.symbolic:
            from symcheck import core

            return core.bool_not(c)
        return not c

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def iff(self, a, b):
        if self.symbolic:
            from symcheck import core

            return core.bool_iff(a, b)
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        if self.symbolic:
            from symcheck import core

            return core.ite(core._tobool(c) if not isinstance(c, bool) else c, a, b)
        return a if c else b

    def xor(self, bits):
        """Parity of integer bits."""
        r = 0
        for b in bits:
            r = r ^ b
        return r

    def total(self, xs):
        xs = list(xs)
        if self.symbolic:
            from symcheck import npf

            return npf.sum_list([0] + xs)
        return sum(xs)

    def exp(self, x):
        if self.symbolic:
            from symcheck import core

            return core.fn("exp", x)
        return math.exp(x)

    def erf(self, x):
        if self.symbolic:
            from symcheck import core

            return core.fn("erf", x)
        return math.erf(x)

    def log(self, x):
        if self.symbolic:
            from symcheck import core

            return core.fn("log", x)
        return math.log(x)

    def floor(self, x):
        if self.symbolic:
            from symcheck import core

            return core.floor(x)
        return math.floor(x)

    def choose(self, name, options):
        """Nondeterministic choice; the result is concrete on each path."""
        options = list(options)
        if not options:
            self.assume(False)
        if len(options) == 1:
            return options[0]
        # one fresh bit per node of a balanced decision tree
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.concrete(self.bit("%s[%d-%d]" % (name, lo, hi))):
                lo = mid + 1
            else:
                hi = mid
        return options[lo]

    def bits(self, names):
        return {n: self.bit(n) for n in names}

    def subset(self, name, items):
        """Nondeterministic subset, concrete on each path."""
        return [x for i, x in enumerate(items) if self.concrete(self.bit("%s%d" % (name, i)))]

    def permutation(self, name, items):
        items = list(items)
        out = []
        for i in range(len(items)):
            x = self.choose("%s%d" % (name, i), items)
            items.remove(x)
            out.append(x)
        return out

    def close(self, a, b, tol=1e-6):
        """Equality of reals: exact symbolically, tolerant on floats."""
        if self.symbolic:
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def leq(self, a, b, tol=1e-9):
        if self.symbolic:
            return a <= b
        return float(a) <= float(b) + tol * (1 + abs(float(b)))

    def silence(self):
        return _Silence()

    def patch(self, module, attr, value, create=False):
        """Replace a module attribute until the end of the path."""
        if create or hasattr(module, attr):
            self.patched.append((module, attr, getattr(module, attr, _ABSENT)))
            setattr(module, attr, value)

    def script(self, name, argv):
        """Run a module of the package as the main program with the given arguments."""
        import sys
        import types

        full = "flamingpy." + name
        spec = importlib.util.find_spec(full)
        m = types.ModuleType("__main__")
        m.__file__ = spec.origin
        saved, main = sys.argv, sys.modules.get("__main__")
        sys.argv, sys.modules["__main__"] = [spec.origin, *argv], m
        try:
            if self.symbolic:
                spec.loader.exec_module(m)
            else:
                exec(spec.loader.get_code(full), m.__dict__)
        finally:
            sys.argv = saved
            sys.modules["__main__"] = main

    def rewind(self):
        """Number objects from the start again, so that a repeated construction hashes alike."""
        if self.symbolic:
            from symcheck import loader

            loader.reset_hash(loader._salt[0])

    def unpatch(self):
        while self.patched:
            m, a, v = self.patched.pop()
            if v is _ABSENT:
                delattr(m, a)
            else:
                setattr(m, a, v)

    def array(self, vals, dtype=None):
        """Array of (possibly symbolic) numbers."""
        if self.symbolic:
            from symcheck import npf

            return npf.f_array(vals, dtype)
        import numpy as np

        return np.array(vals, dtype=dtype)

    def sparse(self, rows, form="csr_array"):
        """scipy sparse matrix or array."""
        import scipy.sparse as sp

        if self.symbolic:
            from symcheck import npf

            return npf.SymSparse(self.array(rows), form.split("_")[1])
        import numpy as np

        return getattr(sp, form)(np.array(rows))

    def scalar(self, x):
        """numpy scalar, as produced by indexing a numpy array."""
        if self.symbolic:
            return x
        import numpy as np

        return np.float64(x)

    def as_int(self, x):
        """Exact integer value of an entry (floats with integer value allowed)."""
        if self.symbolic:
            from symcheck import core, npf

            if isinstance(x, core.SymBase):
                return npf.cast_elem(x, "i")
        i = int(x)
        if i != x:
            self.fail("entry %r is not an integer" % (x,))
        return i


class _Silence:
    def __enter__(self):
        import io
        import contextlib

        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()
        return self

    def __exit__(self, *a):
        return self.c.__exit__(*a)


class SymH(BaseH):
    symbolic = True

    def __init__(self, ctx, stats):
        self.ctx, self.stats = ctx, stats
        self.patched = []

    def bit(self, name):
        return self.ctx.new_bit(name)

    def int(self, name, lo=None, hi=None):
        v = self.ctx.new_int(name)
        if lo is not None:
            self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, hints=()):
        v = self.ctx.new_real(name)
        if lo is not None:
            self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        if gt is not None:
            self.ctx.assume(v > gt)
        if lt is not None:
            self.ctx.assume(v < lt)
        return v

    def concrete(self, v):
        import operator

        return operator.index(v)

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        self.ctx.assume(c)

    def check(self, c, msg):
        self.stats.reached += 1
        self.ctx.check(c, msg)

    def fail(self, msg):
        self.check(False, msg)


class ConcH(BaseH):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.checks = 0
        self.patched = []

    def _get(self, name, default=0):
        v = self.values.get(name, default)
        if isinstance(v, list):
            return Fraction(v[0], v[1])
        return v

    def bit(self, name):
        return int(self._get(name))

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else (min(0, hi) if hi is not None else 0)))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise NotApplicableInput("%s out of range" % name)
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, hints=()):
        d = 0
        if lo is not None:
            d = lo
        elif gt is not None:
            d = gt + 1 if lt is None else (gt + lt) / 2
        v = float(self._get(name, d))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt):
            raise NotApplicableInput("%s out of range" % name)
        return v

    def concrete(self, v):
        return int(v)

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise NotApplicableInput("assumption")

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise Reproduced(msg)

    def fail(self, msg):
        self.check(False, msg)


class RandH(ConcH):
    """Concrete run on inputs drawn at random (only used for tasks that could not be encoded)."""

    def __init__(self, rnd, bias, generic=False):
        super().__init__({})
        self.rnd, self.bias, self.has_real, self.generic = rnd, bias, False, generic

    def bit(self, name):
        if name not in self.values:
            self.values[name] = int(self.rnd.random() < self.bias)
        return self.values[name]

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            a = lo if lo is not None else (hi - 6 if hi is not None else -3)
            b = hi if hi is not None else a + 6
            self.values[name] = self.rnd.randint(a, b)
        return super().int(name, lo, hi)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, hints=()):
        self.has_real = True
        if name not in self.values:
            a = lo if lo is not None else gt
            b = hi if hi is not None else lt
            if a is None:
                a = (b - 8) if b is not None else -4
            if b is None:
                b = a + 8
            # generic values stay away from ties and boundaries
            den = 1009 if self.generic else 16
            x = Fraction(a) + (Fraction(b) - Fraction(a)) * Fraction(self.rnd.randint(1, den - 1), den)
            if lo is not None and not self.generic and self.rnd.random() < 0.1:
                x = Fraction(lo)
            if hints and self.rnd.random() < 0.7:
                x = Fraction(self.rnd.choice(hints))
            self.values[name] = [x.numerator, x.denominator]
        return super().real(name, lo, hi, gt, lt)


class Rng:
    """Stand-in for numpy.random.Generator: every draw is an input of the harness."""

    def __init__(self, H, tag="rng"):
        self.H, self.tag, self.n = H, tag, 0
        self.log = []
        self.normal_hook = None
        self.max_binomial = None

    def _name(self, kind):
        self.n += 1
        return "%s.%s%d" % (self.tag, kind, self.n)

    def _arr(self, vals):
        if self.H.symbolic:
            from symcheck import npf

            return npf.f_array(vals) if vals else npf.f_zeros(0)
        import numpy as np

        return np.array(vals)

    def _size(self, size):
        if size is None:
            return None
        if isinstance(size, tuple):
            if len(size) != 1:
                raise NotImplementedError("size")
            size = size[0]
        return self.H.concrete(size)

    def random(self, size=None, *a, **k):
        n = self._size(size)
        if n is None:
            return self.H.real(self._name("u"), lo=0, lt=1)
        return self._arr([self.H.real(self._name("u"), lo=0, lt=1) for _ in range(n)])

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size)
        return low + r * (high - low)

    def integers(self, low, high=None, size=None, endpoint=False, dtype=None):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        n = self._size(size)

        def one():
            if low == 0 and hi == 1:
                return self.H.bit(self._name("b"))
            return self.H.int(self._name("n"), low, hi)

        if n is None:
            return one()
        return self._arr([one() for _ in range(n)])

    def binomial(self, n, p, size=None):
        if size is not None:
            raise NotImplementedError("binomial size")
        hi = n if self.max_binomial is None else min(n, self.max_binomial)
        k = self.H.choose(self._name("k"), list(range(hi + 1)))
        self.log.append(("binomial", n, p, k))
        return k

    def choice(self, a, size=None, replace=True, p=None, **k):
        items = list(range(a)) if isinstance(a, int) else list(a)
        n = self._size(size)
        if p is not None:
            raise NotImplementedError("choice p")
        if n is None:
            return self.H.choose(self._name("c"), items)
        if not replace and n > len(items):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        out = []
        pool = list(items)
        for _ in range(n):
            x = self.H.choose(self._name("c"), pool)
            if not replace:
                pool.remove(x)
            out.append(x)
        self.log.append(("choice", items, list(out), replace))
        if self.H.symbolic:
            import numpy as np
            from symcheck import npf

            return np.array(out, dtype=int).view(npf.SymArray)
        import numpy as np

        return np.array(out, dtype=int if all(isinstance(x, int) for x in out) else None)

    def permutation(self, x):
        items = list(range(x)) if isinstance(x, int) else list(x)
        return self.choice(items, size=len(items), replace=False)

    def normal(self, loc=0.0, scale=1.0, size=None):
        """loc + scale * z with z arbitrary; scale 0 gives loc."""
        import numpy as np

        def one(m, s):
            self.log.append(("normal", m, s))
            if self.normal_hook is not None:
                return self.normal_hook(m, s)
            if not self.H.symbolic and s < 0:
                raise ValueError("scale < 0")
            zero = s == 0
            if isinstance(zero, bool) or not self.H.symbolic:
                if zero:
                    return m
            return m + s * self.H.real(self._name("z"))

        if size is None and np.ndim(loc) == 0 and np.ndim(scale) == 0:
            return one(loc, scale)
        if size is not None:
            n = self._size(size)
            locs = [loc] * n if np.ndim(loc) == 0 else list(loc)
            scs = [scale] * n if np.ndim(scale) == 0 else list(scale)
        else:
            n = len(loc) if np.ndim(loc) else len(scale)
            locs = list(loc) if np.ndim(loc) else [loc] * n
            scs = list(scale) if np.ndim(scale) else [scale] * n
            if len(locs) == 1 and len(scs) > 1:
                locs = locs * len(scs)
            if len(scs) == 1 and len(locs) > 1:
                scs = scs * len(locs)
        if len(locs) != len(scs):
            raise ValueError("shape mismatch: objects cannot be broadcast to a single shape")
        return self._arr([one(m, s) for m, s in zip(locs, scs)])

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)
