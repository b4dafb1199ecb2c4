"""Homodyne outcomes and bits."""
import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Rng, Task

BOUNDS = ("graphs with 2 to 4 modes (path, triangle, star, square), every integer edge weight in [-3,3] or absent weights, every ordered subset of measured modes, both quadratures, both "
          "sampling orders, every state assignment, one or two consecutive measurements, every sample value symbolic; bits: the open and periodic codes with sides 2 and 3, every "
          "outcome symbolic, arbitrary and default translators")
ASSUMPTIONS = ["exact real arithmetic", "edge weights are integers (the adjacency matrix is documented as int8)"]

SHAPES = {"path": lambda n: [(i, i + 1) for i in range(n - 1)], "star": lambda n: [(0, i) for i in range(1, n)],
          "cycle": lambda n: [(i, (i + 1) % n) for i in range(n)]}
ROOT = float(np.sqrt(np.pi))


def build(H, n, shape, weights):
    g = H.mod("codes.graphs.egraph").EGraph()
    # coordinates whose sorted order differs from the order of insertion
    pts = [(i % 2, i // 2, 3 - i) for i in range(n)]
    for p in pts:
        g.add_node(p)
    w = {}
    for k, (a, b) in enumerate(SHAPES[shape](n)):
        if weights == "unit":
            g.add_edge(pts[a], pts[b])
            x = 1
        else:
            x = H.int("w%d" % k, -3, 3)
            g.add_edge(pts[a], pts[b], weight=x)
        w[frozenset((pts[a], pts[b]))] = x
    return g, sorted(pts), w


def nbsum(H, w, order, i, vals):
    return H.total([x * vals[next(k for k in range(len(order)) if order[k] in e and k != i)] for e, x in w.items() if order[i] in e])


def stale(H, g, order, inds, tag):
    for k, p in enumerate(order):
        for quad in "pq":
            g.nodes[p]["hom_val_" + quad] = "%s%s%d" % (tag, quad, k)


def untouched(H, g, order, inds, quad, tag):
    for k, p in enumerate(order):
        for qd in "pq":
            if qd != quad or k not in inds:
                H.check(g.nodes[p]["hom_val_" + qd] == "%s%s%d" % (tag, qd, k), "no other outcome is touched")


def pick(H, n, ordered, kind, tag="i"):
    inds = H.subset(tag, range(n))
    if ordered:
        inds = H.permutation(tag + "o", inds)
    return {"list": list, "array": lambda x: np.array(x, dtype=int), "none": lambda x: None}[kind](inds), inds


def initial(H, n, shape, weights, rounds, kind="list", ordered=True):
    g, order, w = build(H, n, shape, weights)
    layer = H.mod("noise.cv").CVLayer(g, delta=0.1)
    layer.populate_states(rng=Rng(H, "s"))
    for r in range(rounds):
        quad = "pq"[H.concrete(H.bit("quad%d" % r))]
        stale(H, g, order, None, "old%d" % r)
        if kind == "none":
            arg, inds = None, list(range(n))
        else:
            arg, inds = pick(H, n, ordered, kind, "i%d" % r)
        rng = Rng(H, "m%d" % r)
        x = []
        rng.normal_hook = lambda m, s: x.append(H.real("x%d_%d" % (r, len(x)), lo=-9, hi=9)) or x[-1]
        layer.measure_hom(quad=quad, inds=arg, rng=rng)
        H.check(len(x) == 2 * n, "every quadrature is sampled once")
        for i in inds:
            want = x[i] if quad == "q" else x[n + i] + nbsum(H, w, order, i, x[:n])
            H.check(H.close(g.nodes[order[i]]["hom_val_" + quad], want), "outcome of mode %d" % i)
        untouched(H, g, order, inds, quad, "old%d" % r)
        got = layer.hom_outcomes(inds=inds, quad=quad)
        H.check(len(got) == len(inds) and all(got[k] is g.nodes[order[i]]["hom_val_" + quad] for k, i in enumerate(inds)), "outcome getter")


def twostep(H, n, shape, weights, propagate=True, ordered=True):
    g, order, w = build(H, n, shape, weights)
    ps = H.subset("p", range(n))
    layer = H.mod("noise.cv").CVLayer(g, delta=H.choose("d", [0.1, 0.5]), states={"p": np.array(ps, dtype=int)}, sampling_order="two-step")
    layer.populate_states(rng=Rng(H, "s"))
    quad = "pq"[H.concrete(H.bit("quad"))]
    stale(H, g, order, None, "old")
    arg, inds = pick(H, n, ordered, "list")
    rng = Rng(H, "m")
    sampled, noise = [], []

    def unif(size=None):
        v = [H.real("u%d" % (len(sampled) + k), lo=0, lt=1) for k in range(size)]
        sampled.append(("p", v))
        return H.array(v) if v else np.zeros(0)

    def ints(low, high=None, size=None):
        H.check((low, high) in ((0, 2), (2, None)), "GKP positions are bits")
        v = [H.bit("b%d" % k) for k in range(size)]
        sampled.append(("GKP", v))
        return H.array(v)

    rng.random, rng.integers = unif, ints
    rng.normal_hook = lambda m, s: noise.append((m, s)) or m + H.real("z%d" % (len(noise) - 1), lo=-9, hi=9)
    layer.measure_hom(quad=quad, inds=arg, rng=rng, propagate=propagate)
    H.check(len(noise) == len(inds), "one sample per measured mode")
    pos = {}
    lists = {"p": [int(v) for v in layer.p_inds], "GKP": [int(v) for v in layer.gkp_inds]}
    for kind, v in sampled:
        H.check(len(v) == len(lists[kind]), "one position per mode of the state")
        for i, y in zip(lists[kind], v):
            pos[i] = y * (2 * ROOT if kind == "p" else ROOT) if not H.symbolic else y * (2 if kind == "p" else 1) * H.mod("cv.ops").np.sqrt(np.pi)
    H.check(set(pos) == set(range(n)), "every position is sampled")
    for k, i in enumerate(inds):
        z = H.real("z%d" % k, lo=-9, hi=9)
        want = pos[i] if quad == "q" else (nbsum(H, w, order, i, [pos[j] for j in range(n)]) if propagate else 0)
        H.check(H.close(g.nodes[order[i]]["hom_val_" + quad], want + z, 1e-4), "outcome of mode %d" % i)
    untouched(H, g, order, inds, quad, "old")


def supplied(H, n, shape, order_kind, what):
    """updated_means / updated_covs take the place of the sampler's."""
    g, order, w = build(H, n, shape, "int")
    layer = H.mod("noise.cv").CVLayer(g, delta=0.1, sampling_order=order_kind)
    layer.populate_states(rng=Rng(H, "s"))
    quad = "pq"[H.concrete(H.bit("quad"))]
    stale(H, g, order, None, "old")
    arg, inds = pick(H, n, True, "list")
    mu = [H.real("mu%d" % k, lo=-9, hi=9) for k in range(2 * n)]
    sg = [H.real("sg%d" % k, lo=0, hi=9) for k in range(2 * n)]
    kw = {}
    if "means" in what:
        kw["updated_means"] = H.array(mu)
    if "covs" in what:
        kw["updated_covs"] = H.array(sg)
    rng = Rng(H, "m")
    seen = []
    rng.normal_hook = lambda m, s: seen.append((m, s)) or m + H.real("z%d" % (len(seen) - 1), lo=-9, hi=9)
    layer.measure_hom(quad=quad, inds=arg, rng=rng, **kw)
    off = n if quad == "p" else 0
    slots = [i + off for i in inds] if order_kind == "two-step" else list(range(2 * n))
    H.check(len(seen) == len(slots), "samples")
    for k, (m, s) in enumerate(seen):
        if "means" in what:
            H.check(H.close(m, mu[slots[k]]), "supplied means are used")
        if "covs" in what:
            H.check(H.close(s, sg[slots[k]]), "supplied noise is used")
    z = [H.real("z%d" % k, lo=-9, hi=9) for k in range(len(seen))]
    for k, i in enumerate(inds):
        if "means" not in what:
            continue
        if order_kind == "two-step":
            want = mu[i + off] + z[k]
        else:
            x = [a + b for a, b in zip(mu, z)]
            want = x[i] if quad == "q" else x[n + i] + nbsum(H, w, order, i, x[:n])
        H.check(H.close(g.nodes[order[i]]["hom_val_" + quad], want), "outcome of mode %d" % i)
    untouched(H, g, order, inds, quad, "old")


def bits(H, dims, ec, bound, translator, rounds=2, symbolics=None):
    """Syndrome measurement and translation on a code."""
    code = make(H, dims, ec, bound)
    lat = Lattice(dims, ec, bound)
    g = code.graph
    calls = {}

    def custom(vals):
        out = []
        for v in vals:
            k = v.key if hasattr(v, "key") else float(v)
            if k not in calls:
                calls[k] = H.bit("bit%d" % len(calls))
            out.append(calls[k])
        return out

    kw = {"translator": custom} if translator == "custom" else {}
    layer = H.mod("noise.cv").CVLayer(code, delta=0.1, **kw)
    n = len(g)
    for r in range(rounds):
        rng = Rng(H, "m%d" % r)
        x = []

        def hook(m, s):
            k = len(x)
            # thousands of real draws are pointless: the ones that matter are the momenta
            live = k >= n if symbolics is None else (k in symbolics)
            x.append(H.real("x%d_%d" % (r, k), lo=-4, hi=4) if live else ((k * 7 + r) % 5) * 0.25)
            return x[-1]

        rng.normal_hook = hook
        layer.apply_noise(rng=rng)
        idx = {p: i for i, p in enumerate(sorted(g.nodes))}
        for q in sorted(lat.qubits):
            want = x[n + idx[q]] + H.total([x[idx[v]] for v in lat.neighbours(q)])
            H.check(H.close(g.nodes[q]["hom_val_p"], want), "outcome of qubit %s" % (q,))
            b = g.nodes[q]["bit_val"]
            if translator == "custom":
                H.check(b == custom([g.nodes[q]["hom_val_p"]])[0], "bit of %s is the translation of its current outcome" % (q,))
            else:
                H.check(b == H.mod("cv.gkp").GKP_binner([g.nodes[q]["hom_val_p"]])[0], "bit of %s is the binned outcome" % (q,))
        for v in lat.others:
            H.check("bit_val" not in g.nodes[v] and "hom_val_p" not in g.nodes[v], "qubits that are not measured are left alone")
        got = layer.bit_values(inds=[idx[q] for q in sorted(lat.qubits)])
        H.check(all(a is g.nodes[q]["bit_val"] for a, q in zip(got, sorted(lat.qubits))), "bit getter")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n, s in ((2, "path"), (3, "path"), (3, "cycle"), (3, "star")) + (() if q else ((4, "star"), (4, "cycle"), (4, "path"))):
        for w in ("unit", "int"):
            for kind in ("list", "array", "none"):
                out.append(Task("initial-%d%s-%s-%s" % (n, s, w, kind), initial, n=n, shape=s, weights=w, rounds=2 if n == 2 or kind == "none" else 1, kind=kind))
        for pr in (True, False):
            out.append(Task("twostep-%d%s-%d" % (n, s, pr), twostep, n=n, shape=s, weights="int", propagate=pr, ordered=n < 4, split=1 if n < 4 else 4))
        for o in ("initial", "two-step"):
            for what in (("means",), ("covs",), ("means", "covs")):
                out.append(Task("supplied-%d%s-%s-%s" % (n, s, o, "".join(what)), supplied, n=n, shape=s, order_kind=o, what=what))
    if q:
        out.append(Task("initial-4cycle", initial, n=4, shape="cycle", weights="int", rounds=1))
    for d, e, b in [((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open"), ((3, 3, 2), "primal", "toric"), ((3, 3, 3), "primal", "periodic"),
                    ((3, 3, 3), "dual", "periodic"), ((3, 3, 3), "primal", "open")]:
        out.append(Task("bits-custom-%s" % name(d, e, b), bits, dims=d, ec=e, bound=b, translator="custom"))
        if d == (2, 2, 2):
            out.append(Task("bits-default-%s" % name(d, e, b), bits, dims=d, ec=e, bound=b, translator="default", rounds=1,
                            symbolics=(1, 22, 25, 30) if q else (1, 2, 22, 23, 24, 25, 30, 35)))
    return out
