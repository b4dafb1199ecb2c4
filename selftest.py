"""Quick sanity run of the engine: a true claim passes, a false one is refuted."""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symcheck import api, core, loader  # noqa: E402

loader.install()


def explore(f):
    st = core.Stats()
    work, bad = [[]], 0
    while work:
        ctx = core.Context(work.pop(), st, {})
        core.set_ctx(ctx)
        try:
            f(api.SymH(ctx, st))
        except core.Violation:
            bad += 1
        except core.AbortPath:
            pass
        work.extend(ctx.alts)
    core.set_ctx(None)
    return bad, st


def good(H):
    a, b = H.bit("a"), H.bit("b")
    H.check((a + b) % 2 == a ^ b, "xor")
    x = H.real("x")
    H.check(H.floor(x) <= x, "floor")
    if H.decide(a == 1):
        H.check(a * b == b, "and")


def wrong(H):
    x = H.real("x", lo=0, hi=1)
    H.check(x * x < 1, "square below one")


assert explore(good)[0] == 0
assert explore(wrong)[0] == 1
print("engine ok")
