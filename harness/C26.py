"""The compiled LEMON wrapper."""
from harness._lemon import large, wrapper
from symcheck.api import Task

BOUNDS = ("2 and 4 rows with every entry symbolic in [-64, 64] or [-65536, 65536], 6 rows with every (thorough; quick every third) entry symbolic, every optimal matching the library may return; matrices in row-major order, and single-precision ones (2 and 4 rows) in column-major order and as strided views; "
          "8 to 132 (thorough 260) rows in groups of four, the entries of two groups symbolic, and every matching the library may return on them")
ASSUMPTIONS = ["the wrapper is compiled to LLVM IR against stand-ins for LEMON and pybind11, and its IR is executed symbolically; LEMON's MaxWeightedPerfectMatching is replaced by its contract (any perfect matching of largest weight) and pybind11 by conversion of the matrix to rows of numbers and back",
               "exact real arithmetic in place of single precision", "counterexamples are replayed on the extension built from the present source with the real LEMON and pybind11"]


def tasks(tier):
    q = tier == "quick"
    T = [Task("pairs-0", wrapper, n=0), Task("pairs-2", wrapper, n=2), Task("pairs-4", wrapper, n=4), Task("pairs-4-positive", wrapper, n=4, lo=0)]
    for lay in ("F", "strided"):
        T += [Task("pairs-%d-%s" % (n, lay), wrapper, n=n, layout=lay) for n in (2, 4)]
    for r in range(3):
        T.append(Task("pairs-6-%d" % r, wrapper, n=6, sym=(r, 3)))
    if not q:
        T.append(Task("pairs-6", wrapper, n=6, split=2))
    T += [Task("pairs-4-wide", wrapper, n=4, lo=-(2**16), hi=2**16), Task("pairs-6-wide", wrapper, n=6, sym=(1, 4), lo=-(2**16), hi=2**16)]
    for n, mode, top, scale in [(8, "apart", 0, 1), (16, "mirror", 40, 1), (24, "next", 8, 1000), (28, "mirror", -8, 1), (132, "apart", 0, 1)] + (
            [] if q else [(64, "mirror", 0, 100), (64, "next", 64, 1), (100, "apart", 80, 1000), (132, "mirror", 30, 1), (260, "mirror", 0, 1)]):
        T.append(Task("many-%d-%s-%d" % (n, mode, top), large, n=n, mode=mode, top=top, scale=scale))
    return T
