"""Macronode reduction without noise."""
import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Rng, Task

BOUNDS = ("macronized 2x2x2, 3x2x2 open, 2x2x2 / 3x3x2 toric and 3x3x3 periodic lattices (thorough), both complexes, with and without alternating edge weights; five background swap-out patterns with every "
          "swap-out pattern of one macronode symbolic (quick: a sample of the macronodes and of the patterns), every codeword bit and every p-squeezed position symbolic; one or two applications; "
          "error probabilities: every conditional probability in [0,1] symbolic, as a function of variance and outcome (outcomes fixed), delta = 1/4")
ASSUMPTIONS = ["noise parameter 0, exact four-splitter matrix (entries +-1/2; the accuracy of the shipped matrix is the subject of C14)", "exact real arithmetic",
               "for the error probabilities Z_err_cond is replaced by an arbitrary value in [0,1] (its range is the subject of C13)"]

BACK = {"gkp": lambda i: False, "p": lambda i: True, "alt": lambda i: i % 2 == 0, "hash": lambda i: (i * 2654435761 >> 7) % 3 == 0,
        "dense": lambda i: (i * 40503 >> 3) % 8 != 0}


def exact_bs(H):
    """The four-splitter with entries exactly +-1/2."""
    b = H.mod("cv.ops").splitter_symp()
    return np.where(np.abs(b) < 0.25, 0.0, np.sign(b) * 0.5)


def setup(H, dims, ec, bound, polarity, delta, exact=True, **kw):
    sc = H.mod("codes.surface_code")
    pol = sc.alternating_polarity if polarity else None
    code = make(H, dims, ec, bound, polarity=pol)
    layer = H.mod("noise.cv").CVMacroLayer(code, delta=delta, bs_network=exact_bs(H) if exact else None, **kw)
    return code, layer


def draw(H, tag, log):
    rng = Rng(H, tag)

    def unif(size=None):
        v = [H.real("%s.u%d" % (tag, k), lo=0, lt=1) for k in range(size)]
        log["u"] = v
        return H.array(v) if v else np.zeros(0)

    def ints(low, high=None, size=None):
        v = [H.bit("%s.b%d" % (tag, k)) for k in range(size)]
        log["b"] = v
        return H.array(v) if v else np.zeros(0, dtype=int)

    rng.random, rng.integers = unif, ints
    return rng


def macro_points(g, centre):
    return sorted(p for p in g.nodes if tuple(round(c) for c in p) == centre)


def labels(H, code, layer, centres, order):
    """Stars, body indices and reduced labels."""
    mg = layer.egraph
    n = 0
    for c in centres:
        pts = order[c]  # by index
        H.check(len(pts) == 4, "four modes per macronode")
        n += len(pts)
        body = {p: mg.nodes[p]["body_index"] for p in pts}
        H.check(sorted(body.values()) == [1, 2, 3, 4], "body indices of a macronode are 1 to 4")
        gkp = [p for p in pts if mg.nodes[p]["state"] == "GKP"]
        star = next(p for p in pts if body[p] == 1)
        H.check(star == (gkp[0] if gkp else star) and (not gkp or mg.nodes[star]["state"] == "GKP"), "the star is the first GKP mode of the macronode")
        H.check(code.graph.nodes[c]["state"] == ("GKP" if gkp else "p"), "a reduced mode is p-squeezed iff its whole macronode is")
    H.check(n == len(mg), "every mode belongs to a macronode")


def trivial(H, dims, ec, bound, polarity, back, where, rounds=1):
    code, layer = setup(H, dims, ec, bound, polarity, 0)
    mg = layer.egraph
    to = mg.to_points
    n = len(to)
    order = {}
    for i in range(n):
        order.setdefault(tuple(round(c) for c in to[i]), []).append(to[i])
    centres = sorted(code.graph.nodes)
    H.check(sorted(order) == centres, "one macronode per qubit")
    pool = centres if where is None else centres[where[0]::where[1]]
    for r in range(rounds):
        c = H.choose("c%d" % r, pool)
        inds = []
        for i in range(n):
            if to[i] in order[c]:
                if H.concrete(H.bit("s%d_%d" % (r, order[c].index(to[i]) if r == rounds - 1 else 0))):
                    inds.append(i)
            elif BACK[back](i + r):
                inds.append(i)
        layer.states["p"] = np.array(inds, dtype=int)
        log = {}
        layer.apply_noise(rng=draw(H, "r%d" % r, log))
        p = {int(i) for i in layer.p_inds}
        H.check(p == set(inds), "swap-outs as given")
        for i in range(n):
            H.check(mg.nodes[to[i]]["state"] == ("p" if i in p else "GKP"), "labels")
        labels(H, code, layer, centres, order)
        lat = Lattice(dims, ec, bound)
        squeezed = {v for v in centres if code.graph.nodes[v]["state"] == "p"}
        for s in getattr(code, ec + "_stabilizers"):
            if not any(w in squeezed for q in s.coords() for w in lat.neighbours(q)):
                H.check(s.parity == 0, "the syndrome is trivial")
        for v in centres:
            b = code.graph.nodes[v]["bit_val"]
            H.check(H.any([b == 0, b == 1]), "bits")


def probabilities(H, dims, ec, bound, back, toggle):
    """Range of the effective error probabilities."""
    code, layer = setup(H, dims, ec, bound, False, 0.25, exact=False)
    n = len(layer.egraph)
    layer.states["p"] = np.array([i for i in range(n) if BACK[back](i)], dtype=int)
    known = {}

    def prob(var, hom):
        # the phase error is symmetric and depends on the outcome only
        k = (round(float(var), 6), abs(round(float(hom), 5)))
        if k not in known:
            known[k] = H.real("z%d" % len(known), lo=0, hi=1)
        return known[k]

    def stub(var, hom_val, *a, **k):
        H.check(H.all(list(np.ravel(np.asarray(var) > 0))), "positive variance")
        if np.ndim(hom_val) or np.ndim(var):
            n = max(np.size(hom_val), np.size(var))
            vs, hs = [list(np.ravel(x)) * (n if np.size(x) == 1 else 1) for x in (var, hom_val)]
            return H.array([prob(v, h) for v, h in zip(vs, hs)]) if n else np.zeros(0)
        return prob(var, hom_val)

    if toggle:
        for m in ("cv.gkp", "noise.cv"):
            H.patch(H.mod(m), "Z_err_cond", stub)
    rng = Rng(H, "r")
    rng.random = lambda size=None: H.array([(k * 37 % 100) / 100 for k in range(size)])
    rng.integers = lambda low, high=None, size=None: H.array([(k * 5 >> 1) % 2 for k in range(size)])
    rng.normal_hook = lambda m, s: m + s * ((len(rng.log) * 13) % 7 - 3) / 2
    layer.apply_noise(rng=rng)
    for v in code.graph.nodes:
        p = code.graph.nodes[v]["p_phase_cond"]
        H.check(H.all([p >= 0, p <= 0.5]), "effective error probability of %s lies in [0, 1/2]" % (v,))
    if not toggle:
        return
    mg = layer.egraph
    macro = {}
    for w in mg.nodes:
        macro.setdefault(tuple(round(c) for c in w), {})[mg.nodes[w]["body_index"]] = w
    delta = 0.25
    for v, body in macro.items():
        terms = []
        out = 2 * float(mg.nodes[body[1]]["hom_val_p"])
        num = 0
        for i in (1, 2, 3, 4):
            for w in mg[body[i]]:
                far = macro[tuple(round(c) for c in w)]
                q = {k: float(mg.nodes[far[k]]["hom_val_q"]) for k in (2, 3, 4)}
                z = {1: 0, 2: q[2] - q[4], 3: q[3] - q[4], 4: q[2] + q[3]}[mg.nodes[w]["body_index"]]
                if mg.nodes[w]["state"] == "p":
                    num += 1
                    out -= mg.edges[body[i], w].get("weight", 1) * z
                else:
                    terms.append((2 * delta, z))
        terms.append((2 * (2 + num) * delta, out))
        tot = H.total([prob(*t) for t in terms])
        p = code.graph.nodes[v]["p_phase_cond"]
        H.check(H.close(p, H.ite(tot > 0.5, 0.5, tot)), "effective error probability of %s: GKP neighbours and the p outcome, capped at 1/2" % (v,))


def tasks(tier):
    q = tier == "quick"
    out = []
    # (code, stride of the inspected macronodes in the quick tier)
    codes = [((2, 2, 2), "primal", "open", 8), ((2, 2, 2), "dual", "open", 8), ((2, 2, 2), "primal", "toric", 40), ((3, 2, 2), "primal", "open", 0),
             ((3, 3, 2), "dual", "toric", 0), ((3, 3, 2), "primal", "open", 0), ((3, 3, 3), "primal", "periodic", 0), ((3, 3, 3), "dual", "periodic", 0)]
    k = 0
    for d, e, b, stride in codes:
        if q and not stride:
            continue
        for pol in (False, True):
            for back in BACK:
                k += 1
                if q and b == "toric" and (back in ("gkp", "dense") or pol != (back == "alt")):
                    continue
                big = d in ((3, 3, 3), (3, 3, 2))
                if big and back in ("gkp", "alt"):
                    continue
                where = (k % stride, stride) if q else ((k % 30, 30) if big else None)
                out.append(Task("trivial-%s-%d-%s" % (name(d, e, b), pol, back), trivial, dims=d, ec=e, bound=b, polarity=pol, back=back, where=where,
                                split=1 if q else 4, opts={"cost": 3 if b == "toric" else 1}))
        if d == (2, 2, 2):
            out.append(Task("twice-%s" % name(d, e, b), trivial, dims=d, ec=e, bound=b, polarity=True, back="hash", where=(3, 60 if b == "toric" else 30), rounds=2,
                            split=1 if q else 4, opts={"cost": 4}))
        for back in BACK:
            out.append(Task("prob-%s-%s" % (name(d, e, b), back), probabilities, dims=d, ec=e, bound=b, back=back, toggle=True))
    return out
