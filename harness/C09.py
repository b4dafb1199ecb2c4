"""Qubit weights reflect exactly the swap-out neighbourhood and the error probability."""
import inspect
import math
import sys
from fractions import Fraction

import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Task

BOUNDS = ("open and periodic lattices of both complexes with sides 2 and 3, one inspected qubit at a time (every position class; thorough every qubit) "
          "with every labelling of its up to four neighbours, every homodyne outcome in [-5,5], every noise parameter in [1/50,1] or every precomputed "
          "probability in [0,1] symbolic; other qubits concrete; multipliers 1 to 1000; arbitrary stale weights")
ASSUMPTIONS = ["exact real arithmetic, log and exp uninterpreted (terms compared by their exact arguments)",
               "Z_err_cond itself is the subject of C13; here it is an arbitrary function of its arguments with values in (0,1/2]"]

SMALL = sys.float_info.min


def neglog(H, p):
    """-log of a probability, floats for concrete ones."""
    if isinstance(p, (float, int, Fraction)):
        return -math.log(p)
    return -H.log(p)


def same(H, a, b):
    if all(isinstance(x, (int, float, Fraction)) or type(x).__module__ == "numpy" for x in (a, b)):
        return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))
    return H.close(a, b)


def uniform(H, dims, ec, bound, stabg, decoder, where, unlabelled, stale):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    target = H.choose("t", where_list(lat, where))
    label = label_others(H, code, lat, target, unlabelled)
    old = stale_weights(H, code, lat, stale)
    H.mod("decoders.decoder").assign_weights(code, decoder, **({} if not stale else {"method": "uniform"}))
    for q in lat.qubits:
        n = sum(label.get(v) == "p" for v in lat.neighbours(q))
        want = 1 if decoder == "MWPM" else (-1 if n >= 2 else 2)
        H.check(code.graph.nodes[q]["weight"] == want, "uniform weight of %s" % (q,))
    edges_follow(H, code, lat, ec)
    for v in lat.others:
        H.check(code.graph.nodes[v].get("state") == label.get(v), "labels are not touched")


def where_list(lat, where):
    qs = sorted(lat.qubits)
    if where == "all":
        return qs
    # one qubit for each number and direction pattern of neighbours
    out, seen = [], set()
    for q in qs:
        k = (len(lat.neighbours(q)), lat.normal(q), len([1 for f in lat.checks.values() if q in f]))
        if k not in seen:
            seen.add(k)
            out.append(q)
    return out if where is None else out[:where]


def label_others(H, code, lat, target, unlabelled=False):
    label = {}
    near = lat.neighbours(target)
    # a fixed pattern away from the inspected qubit
    for i, v in enumerate(sorted(lat.others)):
        label[v] = "p" if i % 3 == 0 else "GKP"
    for v in near:
        opts = ["GKP", "p"] + ([None] if unlabelled else [])
        label[v] = H.choose("s%s" % (v,), opts)
    for v in list(label):
        if label[v] is None:
            del label[v]
        else:
            code.graph.nodes[v]["state"] = label[v]
    return label


def stale_weights(H, code, lat, stale):
    if stale:
        for q in sorted(lat.vertices):
            code.graph.nodes[q]["weight"] = -7
        g = getattr(code, code.ec[0] + "_stab_graph")
        for u, v in g.edges():
            g.edge_data(u, v)["weight"] = 99


def edges_follow(H, code, lat, ec):
    g = getattr(code, ec + "_stab_graph")
    for h in (g, g.to_nx()):
        for u, v in h.edges():
            d = h.edge_data(u, v)
            if d["common_vertex"] is None:
                H.check(d["weight"] == 0, "connector edges weigh nothing")
            else:
                H.check(same(H, d["weight"], code.graph.nodes[d["common_vertex"]]["weight"]), "edge weight is the weight of its qubit")


def blueprint(H, dims, ec, bound, stabg, where, pre, integer, mult, stale=False):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    target = H.choose("t", where_list(lat, where))
    label = label_others(H, code, lat, target)
    stale_weights(H, code, lat, stale)
    for q in lat.qubits:
        code.graph.nodes[q]["state"] = "GKP" if q != target else "p"
    opts = {"method": "blueprint"}
    if integer:
        opts["integer"] = True
        if mult is not None:
            opts["multiplier"] = mult
    if pre:
        opts["prob_precomputed"] = True
        prob = {q: (0.05, 0.0, 0.75, 0.3)[i % 4] for i, q in enumerate(sorted(lat.qubits))}
        prob[target] = H.real("prob", lo=0, hi=1)
        for q in lat.qubits:
            code.graph.nodes[q]["p_phase_cond"] = prob[q]
            if stale:
                code.graph.nodes[q]["hom_val_p"] = 0.2
    else:
        delta = H.real("delta", lo=Fraction(1, 50), hi=1)
        opts["delta"] = delta
        # the other qubits are concrete up to the noise
        hom = {q: 0.25 * (i % 5) for i, q in enumerate(sorted(lat.qubits))}
        hom[target] = H.real("hom", lo=-5, hi=5)
        for q in lat.qubits:
            code.graph.nodes[q]["hom_val_p"] = hom[q]
            if stale:
                code.graph.nodes[q]["p_phase_cond"] = 0.9
        zerr = opaque_probability(H)
    # case splits on probabilities come first, so that both sides simplify alike
    p = {}
    for q in sorted(lat.qubits):
        near = lat.neighbours(q)
        if sum(label.get(v) == "p" for v in near) < 2:
            p[q] = prob[q] if pre else zerr((len(near) + 1) * delta, hom[q])
            if H.decide(p[q] > 0.5):
                p[q] = 0.5
            elif H.decide(p[q] == 0):
                p[q] = SMALL
    H.mod("decoders.decoder").assign_weights(code, "MWPM", **opts)
    m = (1 if mult is None else mult) if integer else 1
    for q in sorted(lat.qubits):
        near = lat.neighbours(q)
        n = sum(label.get(v) == "p" for v in near)
        if n >= 2:
            w = m * -math.log({2: 1 / 4, 3: 1 / 3, 4: 2 / 5}[n])
            if integer:
                w = round(w)
        else:
            w = m * neglog(H, p[q])
            if integer:
                got = code.graph.nodes[q]["weight"]
                H.check(near_int(H, got, w), "integer weight of %s is the rounded one" % (q,))
                continue
        H.check(same(H, code.graph.nodes[q]["weight"], w), "blueprint weight of %s" % (q,))
    edges_follow(H, code, lat, ec)


def opaque_probability(H):
    """The conditional probability; symbolically an arbitrary function with values in (0, 1/2]."""
    real = H.mod("cv.gkp").Z_err_cond
    if not H.symbolic:
        return real
    sig = inspect.signature(real)
    memo = {}

    def stub(*args, **kw):
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        vals = list(b.arguments.values())
        if any(np.ndim(x) for x in vals[:2]):
            n = max(len(x) for x in vals[:2] if np.ndim(x))
            cols = [list(x) if np.ndim(x) else [x] * n for x in vals[:2]]
            out = [one(v, h, vals[2:]) for v, h in zip(*cols)]
            return out[0] if n == 1 else H.array(out)
        return one(vals[0], vals[1], vals[2:])

    def one(v, h, rest):
        k = tuple(x.key if hasattr(x, "key") else Fraction(float(x)) for x in (v, h)) + tuple(map(repr, rest))
        if k not in memo:
            memo[k] = H.real("zerr%d" % len(memo), gt=0, hi=Fraction(1, 2))
        return memo[k]

    for m in ("cv.gkp", "decoders.decoder", "noise"):
        H.patch(H.mod(m), "Z_err_cond", stub)
    return stub


def near_int(H, got, w):
    """got is an integer nearest to w."""
    if not H.symbolic or not hasattr(w, "key"):
        return got == int(got) and abs(float(got) - float(w)) <= 0.5 + 1e-9
    half = Fraction(1, 2)
    i = H.as_int(got)
    return H.all([i == got, w - half <= i, i <= w + half])


def refused(H, dims, ec):
    code = make(H, dims, ec, "open", "rustworkx")
    for v in code.graph.nodes:
        code.graph.nodes[v]["state"] = "GKP"
        code.graph.nodes[v]["weight"] = H.real("w%s" % (v,))
    before = {v: code.graph.nodes[v]["weight"] for v in code.graph.nodes}
    try:
        H.mod("decoders.decoder").assign_weights(code, "UF", method="blueprint", delta=0.1)
        H.fail("blueprint weights for Union-Find are refused")
    except Exception:
        pass
    for v in before:
        H.check(code.graph.nodes[v]["weight"] == before[v], "nothing assigned")


def tasks(tier):
    q = tier == "quick"
    out = []
    cases = [((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open"), ((3, 3, 2), "primal", "open"), ((3, 3, 3), "dual", "periodic"),
             ((3, 3, 3), "primal", "toric")]
    for d, e, b in cases:
        for s in ("rustworkx", "networkx"):
            w = None if q else "all"
            for dec in ("UF", "MWPM"):
                if q and s == "networkx" and (dec == "MWPM" or d == (3, 3, 3)):
                    continue
                out.append(Task("uniform-%s-%s-%s" % (name(d, e, b), s, dec), uniform, dims=d, ec=e, bound=b, stabg=s, decoder=dec,
                                where=w, unlabelled=dec == "UF", stale=s == "rustworkx", split=1 if q else 4))
            if q and s == "networkx" and d != (2, 2, 2):
                continue
            w2 = (2 if d != (2, 2, 2) else None) if q else "all"
            for integer, mult in ((False, None), (True, None), (True, 7)) + (() if q else ((True, 1000),)):
                out.append(Task("pre-%s-%s-%s%s" % (name(d, e, b), s, integer, mult), blueprint, dims=d, ec=e, bound=b, stabg=s,
                                where=w2, pre=True, integer=integer, mult=mult, stale=True, split=1 if q else 4))
            for integer, mult in ((False, None), (True, 100)):
                if q and (s == "networkx" or d not in ((2, 2, 2), (3, 3, 2))):
                    continue
                out.append(Task("analog-%s-%s-%s%s" % (name(d, e, b), s, integer, mult), blueprint, dims=d, ec=e, bound=b, stabg=s,
                                where=1 if q else "all", pre=False, integer=integer, mult=mult, stale=s == "rustworkx", split=1 if q else 4, opts={"cost": 4}))
    out.append(Task("refused", refused, dims=(2, 2, 2), ec="primal"))
    return out
