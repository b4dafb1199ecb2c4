"""Partition of the modes into states at every application of CV noise."""
import copy

import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Rng, Task

BOUNDS = ("graphs with 2 to 4 modes (thorough 5) and the 2x2x2 / 3x2x2 / 3x3x3 codes with at most one (thorough two) swap-outs drawn; two perfect qubits of these codes and a toric one in either sampling order, one to three applications of the noise, every binomial draw, "
          "every choice of positions, every user-supplied subset (list or array), every perfect subset and every delta > 0 and swap probability in (0,1) symbolic")
ASSUMPTIONS = ["random draws arbitrary within the support of their distribution", "exact real arithmetic, square roots exact"]


def graph(H, n, shape):
    EGraph = H.mod("codes.graphs.egraph").EGraph
    g = EGraph()
    pts = [(i // 2, i % 2, 0) for i in range(n)]
    for p in pts:
        g.add_node(p)
    edges = {"path": [(i, i + 1) for i in range(n - 1)], "star": [(0, i) for i in range(1, n)], "empty": []}[shape]
    for a, b in edges:
        g.add_edge(pts[a], pts[b])
    return g, pts


def container(kind, idx):
    return {"list": list, "array": lambda x: np.array(x, dtype=int)}[kind](idx)


def plain(x):
    return [int(v) for v in x]


def partition(H, layer, n, expected, g):
    states = layer.states
    lists = {k: plain(v) for k, v in states.items()}
    H.check(set(lists) <= {"p", "GKP"}, "only p-squeezed and GKP states")
    allinds = sorted(i for v in lists.values() for i in v)
    H.check(allinds == list(range(n)), "every mode belongs to exactly one state")
    if expected is not None:
        H.check(set(lists.get("p", [])) == set(expected), "the swapped-out modes are p-squeezed")
    H.check(plain(layer.gkp_inds) == lists["GKP"] and plain(layer.p_inds) == lists["p"], "index getters")
    to = g.to_points
    for k, v in lists.items():
        for i in v:
            H.check(g.nodes[to[i]].get("state") == k, "labels agree with the index lists")
    return lists


def scales(H, log, n, lists, perfect, delta):
    """Standard deviations of the draws of an initial-order measurement."""
    draws = [e for e in log if e[0] == "normal"]
    H.check(len(draws) == 2 * n, "one draw per quadrature")
    p = set(lists["p"])
    for i in range(n):
        for quad in (0, 1):
            m, s = draws[i + quad * n][1:]
            H.check(H.close(m, 0), "centred")
            if i in perfect:
                H.check(H.close(s, 0), "perfect modes have no noise")
            elif quad == 0 and i in p:
                H.check(H.close(s * s * 2 * delta, 1, 1e-5), "anti-squeezed position of a p-squeezed mode")
            else:
                H.check(H.close(s * s, delta / 2, 1e-5), "variance delta/2")
            H.check(s >= 0, "standard deviations are not negative")


def history(H, n, shape, mode, rounds, order="initial", perfects=False, kind="list", full=False):
    g, pts = graph(H, n, shape)
    delta = H.real("delta", gt=0)
    if not H.symbolic and not 1e-6 < delta < 1e6:
        return
    perfect = set()
    if perfects:
        perfect = set(H.subset("perfect", range(n)))
        to = sorted(pts)
        g.graph["perfect_points"] = [to[i] for i in sorted(perfect)]
    kw = {"sampling_order": order} if order != "initial" else {}
    given = None
    if mode == "user":
        idx = H.subset("u", range(n))
        given = {"p": container(kind, idx)}
        kw["states"] = given
    elif mode == "zero":
        kw["p_swap"] = 0
    elif mode == "one":
        kw["p_swap"] = 1
    elif mode == "swap":
        kw["p_swap"] = H.real("p_swap", gt=0, lt=1)
    keep = copy.deepcopy(given)
    layer = H.mod("noise.cv").CVLayer(g, delta=delta, **kw)
    for r in range(rounds):
        rng = Rng(H, "r%d" % r)
        layer.populate_states(rng=rng)
        expected = {"user": None if mode != "user" else idx, "zero": [], "one": range(n), "swap": None, "none": []}[mode]
        if mode == "swap":
            b = [e for e in rng.log if e[0] == "binomial"]
            H.check(len(b) == 1 and b[0][1] == n and H.decide(b[0][2] == kw["p_swap"]), "the number of swap-outs is binomial")
            ch = [e for e in rng.log if e[0] == "choice"]
            H.check(len(ch) == 1 and sorted(ch[0][1]) == list(range(n)) and len(ch[0][2]) == b[0][3] and not ch[0][3], "positions drawn among all the modes")
            expected = ch[0][2]
        lists = partition(H, layer, n, expected, g)
        mrng = Rng(H, "m%d" % r)
        layer.measure_hom(rng=mrng)
        if order == "initial":
            scales(H, mrng.log, n, lists, perfect, delta)
        else:
            draws = [e for e in mrng.log if e[0] == "normal"]
            H.check(len(draws) == n, "one draw per measured mode")
            for i, e in enumerate(draws):
                if i in perfect:
                    H.check(H.close(e[2], 0), "perfect modes have no noise")
                else:
                    H.check(H.close(e[2] * e[2], delta / 2, 1e-5), "variance delta/2")
        if given is not None:
            H.check(set(given) == {"p"} and type(given["p"]) is type(keep["p"]) and plain(given["p"]) == plain(keep["p"]), "the user's input is not modified")


def partial(H, n, order, quads=("p", "q")):
    """Any ordered subset of the modes measured on its own."""
    g, pts = graph(H, n, "path")
    delta = H.real("delta", gt=0)
    if not H.symbolic and not 1e-6 < delta < 1e6:
        return
    perfect = set(H.subset("perfect", range(n)))
    to = sorted(pts)
    g.graph["perfect_points"] = [to[i] for i in sorted(perfect)]
    kw = {"sampling_order": order} if order != "initial" else {}
    layer = H.mod("noise.cv").CVLayer(g, delta=delta, states={"p": np.array([1])}, **kw)
    layer.populate_states(rng=Rng(H, "r"))
    inds = []
    for k in range(n):
        c = H.choose("m%d" % k, [None] + [i for i in range(n) if i not in inds])
        if c is None:
            break
        inds.append(c)
    H.assume(len(inds) > 0)
    kind = H.choose("kind", ["list", "array"])
    quad = H.choose("quad", list(quads))
    rng = Rng(H, "m")
    layer.measure_hom(quad, container(kind, inds), rng=rng)
    draws = [e for e in rng.log if e[0] == "normal"]
    if order == "initial":
        scales(H, rng.log, n, {"p": [1]}, perfect, delta)
    else:
        # (means of the other quadrature are sampled as well)
        mine = draws[-len(inds):]
        for i, e in zip(inds, mine):
            if i in perfect:
                H.check(H.close(e[2], 0), "perfect modes have no noise")
            else:
                H.check(H.close(e[2] * e[2], delta / 2, 1e-5), "variance delta/2")
    for i in range(n):
        H.check(("hom_val_" + quad in g.nodes[to[i]]) == (i in inds), "exactly the modes asked for are measured")


def code_history(H, dims, ec, bound, mode, rounds, swaps=1):
    """apply_noise on a code, twice."""
    code = make(H, dims, ec, bound)
    n = len(code.graph)
    kw = {}
    if mode == "swap":
        kw["p_swap"] = H.real("p_swap", gt=0, lt=1)
    else:
        base = [H.choose("u%d" % k, list(range(n))) for k in range(swaps)]
        H.assume(len(set(base)) == swaps)
        given = {"p": np.array(base)}
        kw["states"] = given
    layer = H.mod("noise.cv").CVLayer(code, delta=H.real("delta", gt=0), translator=lambda xs: [0 for _ in xs], **kw)
    g = code.graph
    perfect = {g.to_indices[p] for p in g.graph.get("perfect_points") or ()}
    for r in range(rounds):
        rng = Rng(H, "r%d" % r)
        rng.max_binomial = swaps
        rng.normal_hook = lambda m, s: 0
        layer.apply_noise(rng=rng)
        expected = base if mode != "swap" else [e for e in rng.log if e[0] == "choice"][0][2]
        lists = partition(H, layer, n, expected, g)
        draws = [e for e in rng.log if e[0] == "normal"]
        p = set(lists["p"])
        for i in range(n):
            for quad in (0, 1):
                s = draws[i + quad * n][2]
                if i in perfect:
                    H.check(H.close(s, 0), "perfect modes have no noise")
                elif quad == 0 and i in p:
                    H.check(H.close(s * s * 2 * layer.delta, 1, 1e-5), "anti-squeezed position")
                else:
                    H.check(H.close(s * s, layer.delta / 2, 1e-5), "variance delta/2")
        if mode != "swap":
            H.check(set(given) == {"p"} and plain(given["p"]) == base, "the user's input is not modified")


def code_perfect(H, dims, ec, bound, order, rounds):
    """Every perfect qubit of a code, in every round: the outcome it ends up with came from noiseless draws."""
    code = make(H, dims, ec, bound)
    g = code.graph
    lat = Lattice(dims, ec, bound)
    qs = sorted(lat.qubits)
    at = H.choose("perfect", list(range(len(qs))))
    perfect = {qs[at], qs[(at + 5) % len(qs)]}
    g.graph["perfect_points"] = sorted(perfect)
    n = len(g)
    delta = H.real("delta", gt=0)
    if not H.symbolic and not 1e-6 < delta < 1e6:
        return
    layer = H.mod("noise.cv").CVLayer(code, delta=delta, states={"p": np.array([0, n - 1])}, sampling_order=order, translator=lambda xs: [0 for _ in xs])
    for r in range(rounds):
        rng = Rng(H, "r%d" % r)
        draws = []
        # draw k gives the value k: the outcome stored on a qubit tells which draw it came from
        rng.normal_hook = lambda m, s: draws.append(s) or len(draws)
        if order == "initial":
            layer.apply_noise(rng=rng)
            scales(H, rng.log, n, {"p": [0, n - 1]}, {g.to_indices[q] for q in perfect}, delta)
            continue
        layer.apply_noise(rng=rng)
        for q in qs:
            k = int(H.concrete(g.nodes[q]["hom_val_p"]))
            H.check(1 <= k <= len(draws), "outcome of %s is a draw of this round" % (q,))
            s = draws[k - 1]
            if q in perfect:
                H.check(H.close(s, 0), "perfect modes have no noise")
            else:
                H.check(H.close(s * s, delta / 2, 1e-5), "variance delta/2")


def clash(H, n):
    g, _ = graph(H, n, "path")
    idx = H.subset("u", range(n))
    ps = H.real("p_swap", lo=0, hi=1)
    try:
        H.mod("noise.cv").CVLayer(g, delta=0.1, states={"p": np.array(idx, dtype=int)}, p_swap=ps)
        ok = True
    except Exception:
        ok = False
    H.check(ok == (not idx), "indices together with a swap-out probability are refused")


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(n, shape, mode, rounds, **k):
        out.append(Task("history-%d-%s-%s-%d%s" % (n, shape, mode, rounds, "".join("-%s" % v for v in k.values())), history, n=n, shape=shape,
                        mode=mode, rounds=rounds, split=1 if n < 4 or q else 4, **k))

    for shape in ("path", "empty", "star"):
        for kind in ("list", "array"):
            add(4 if shape == "star" else 3, shape, "user", 2, kind=kind)
    add(3, "path", "user", 2, perfects=True, kind="array")
    add(3, "path", "user", 2, order="two-step", perfects=True, kind="list")
    add(3, "path", "swap", 2, perfects=False)
    add(2, "path", "swap", 3)
    add(2, "path", "swap", 2, perfects=True)
    add(2, "path", "swap", 2, order="two-step", perfects=True)
    for m in ("zero", "one", "none"):
        add(3, "path", m, 2, perfects=True)
        add(3, "path", m, 2, order="two-step", perfects=True)
    out.append(Task("clash", clash, n=3))
    for order in ("initial", "two-step"):
        out.append(Task("partial-%s" % order, partial, n=3 if q else 4, order=order, split=1 if q else 4))
    codes = [((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open"), ((3, 2, 2), "primal", "open"), ((3, 3, 3), "primal", "periodic")]
    for d, e, b in codes if not q else codes[:2]:
        out.append(Task("code-user-%s" % name(d, e, b), code_history, dims=d, ec=e, bound=b, mode="user", rounds=2, swaps=1 if q else 2))
        if d == (2, 2, 2):
            out.append(Task("code-swap-%s" % name(d, e, b), code_history, dims=d, ec=e, bound=b, mode="swap", rounds=2, split=4, opts={"cost": 3}))
    for d, e, b in codes + [((3, 3, 2), "dual", "toric")]:
        for order in ("initial", "two-step"):
            if not q or d == (2, 2, 2) or (order == "two-step" and b != "periodic"):
                out.append(Task("code-perfect-%s-%s" % (name(d, e, b), order), code_perfect, dims=d, ec=e, bound=b, order=order, rounds=2))
    if not q:
        add(4, "path", "swap", 2)
        add(3, "path", "swap", 2, perfects=True)
        add(3, "path", "swap", 3)
        add(5, "path", "swap", 1)
        add(5, "star", "user", 3, perfects=True, kind="array")
        add(4, "path", "swap", 1, order="two-step", perfects=True)
    return out
