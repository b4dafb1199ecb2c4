"""IID noise: every qubit's bit is its own fresh draw compared with p."""
import math

from symcheck.api import Rng, Task

BOUNDS = "codes (2,2,2)/(3,2,2) open, (2,2,2) toric; every draw u_i in [0,1) and every probability p in R symbolic; two applications"
ASSUMPTIONS = ["numpy Generator.random returns a fresh real in [0,1) per call"]


class Code:
    def __init__(self, g):
        self.graph = g


class CountingRng(Rng):
    """Records the draws in order."""

    def __init__(self, H, tag):
        super().__init__(H, tag)
        self.draws = []

    def random(self, size=None, *a, **k):
        r = super().random(size, *a, **k)
        self.draws.extend([r] if size is None else list(r))
        return r


def make_code(H, spec):
    sc = H.mod("codes.surface_code")
    if spec == "path":
        eg = H.mod("codes.graphs.egraph")
        g = eg.EGraph()
        for i in range(5):
            g.add_edge((i, 0, 0), (i + 1, 0, 0))
        return Code(g)
    d, ec, b = spec
    return sc.SurfaceCode(distance=list(d), ec=ec, boundaries=b)


def apply(H, spec, rounds):
    code = make_code(H, spec)
    iid = H.mod("noise.iid")
    p = H.real("p", lo=0, hi=1)
    noise = iid.IidNoise(code, p)
    G = code.graph
    nodes = list(G.nodes)
    for v in nodes[::2]:
        G.nodes[v]["bit_val"] = 1
    for r in range(rounds):
        rng = CountingRng(H, "r%d" % r)
        noise.apply_noise(rng)
        H.check(len(rng.draws) == len(nodes), "one draw per qubit")
        used = []
        for k, v in enumerate(nodes):
            b = G.nodes[v].get("bit_val")
            H.check(b is not None, "every qubit has a bit")
            u = rng.draws[k]
            H.check(H.any([b == 0, b == 1]), "bit is 0 or 1")
            H.check(H.iff(b == 1, u < p), "bit is 1 iff the qubit's own draw is below p")
            H.check(H.implies(p == 0, b == 0), "p=0 never flips")
            H.check(H.implies(p == 1, b == 1), "p=1 always flips")
    H.check(list(G.nodes) == nodes, "nodes unchanged")


def types(H, spec):
    """Bits are plain integers for concrete draws."""
    code = make_code(H, spec)
    iid = H.mod("noise.iid")
    which = H.choose("p", [0, 0.0, 0.3, 1, 1.0])
    noise = iid.IidNoise(code, which)
    import numpy as np

    noise.apply_noise(np.random.default_rng(7))
    for v in code.graph.nodes:
        b = code.graph.nodes[v]["bit_val"]
        H.check(type(b) is int and b in (0, 1), "bit is the integer 0 or 1")
    noise.apply_noise()
    for v in code.graph.nodes:
        b = code.graph.nodes[v]["bit_val"]
        H.check(type(b) is int and b in (0, 1), "bit is the integer 0 or 1 (default generator)")


def ctor(H):
    iid = H.mod("noise.iid")
    code = make_code(H, "path")
    p = H.real("p")
    try:
        n = iid.IidNoise(code, p)
        ok = True
    except ValueError:
        ok = False
    inside = H.all([p >= 0, p <= 1])
    H.check(H.iff(ok, inside), "probability accepted iff in [0,1]")
    if ok:
        H.check(H.close(n.error_probability, p), "probability stored")


def ctor_special(H):
    iid = H.mod("noise.iid")
    code = make_code(H, "path")
    v = H.choose("v", [math.nan, math.inf, -math.inf, -0.0, 1])
    try:
        iid.IidNoise(code, v)
        ok = True
    except ValueError:
        ok = False
    H.check(ok == (v == 0 or v == 1), "not-a-number and infinities are rejected (%r)" % v)


def tasks(tier):
    specs = ["path", ((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "toric")]
    if tier == "thorough":
        specs += [((3, 2, 2), "primal", "open"), ((3, 3, 3), "primal", "periodic")]
    out = [Task("apply-%s" % (s if s == "path" else "%s-%s" % ("".join(map(str, s[0])), s[2])), apply, spec=s, rounds=2) for s in specs]
    out += [Task("ctor", ctor), Task("ctor-special", ctor_special), Task("types", types, spec=((2, 2, 2), "primal", "open"))]
    return out
