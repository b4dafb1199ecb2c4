"""Independence of a trial from everything that happened before."""
import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Rng, Task

BOUNDS = ("noise: IID (every draw and probability symbolic), CV (either sampling order; swap-outs drawn with at most one p-squeezed mode per application or given) and macronode noise (one macronode's swap-outs "
          "symbolic) on open codes with sides 2, after one or two earlier applications of the same or another layer and with symbolic leftovers on every node; decoding: every syndrome of 2x2x2 codes and up to 2 flips "
          "on larger ones, each decoder, backend and weight option, after earlier trials with other flips, decoder and options, or with the same and then others, and with symbolic leftover weights; decoding and checking twice")
ASSUMPTIONS = ["exact real arithmetic", "for macronode noise the conditional error probabilities are replaced by a fixed function of their arguments",
               "the state labels are part of the input of decoding (they are set by the noise)"]


# ------------------------------------------------------------------ snapshots
def structure(code):
    """Everything about a code that a trial must not change."""
    out = {"nodes": list(code.graph.nodes), "edges": sorted((tuple(sorted(e[:2])), sorted(e[2].items())) for e in code.graph.edges(data=True)),
           "ec": list(code.ec), "dims": tuple(code.dims), "bound": code.bound_str, "inds": list(code.all_syndrome_inds), "coords": list(code.all_syndrome_coords)}
    for ec in code.ec:
        out[ec + "s"] = [[sorted(s.coords()), s.midpoint()] for s in getattr(code, ec + "_stabilizers")]
        out[ec + "c"] = list(getattr(code, ec + "_syndrome_coords"))
        out[ec + "i"] = list(getattr(code, ec + "_syndrome_inds"))
        out[ec + "b"] = list(getattr(code, ec + "_bound_points"))
        g = getattr(code, ec + "_stab_graph")
        out[ec + "n"] = sorted(map(str, g.nodes()))
        out[ec + "e"] = sorted(("%s" % sorted(map(str, e)), str(g.edge_data(*e).get("common_vertex"))) for e in g.edges())
    return out


def same_structure(H, before, code):
    after = structure(code)
    for k in before:
        H.check(before[k] == after[k], "the structure of the code does not change (%s)" % k)


def bits(code):
    return {v: code.graph.nodes[v].get("bit_val") for v in code.graph.nodes}


def edge_weights(code, ec):
    g = getattr(code, ec + "_stab_graph")
    return {str(sorted(map(str, e))): g.edge_data(*e)["weight"] for e in g.edges()}


def pair(H, *args):
    """Two equal codes."""
    H.rewind()
    a = make(H, *args)
    H.rewind()
    return a, make(H, *args)


def equal(H, a, b, msg):
    H.check(list(a) == list(b), msg)
    conds = []
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            conds.append(x == y)
        else:
            conds.append(H.close(x, y))
    H.check(H.all(conds), msg)


# ------------------------------------------------------------------ decoding
OPTS = {
    "uniform": {"method": "uniform"},
    "none": None,
    "blueprint": {"method": "blueprint", "prob_precomputed": True},
    "integer": {"method": "blueprint", "integer": True, "multiplier": 10, "prob_precomputed": True},
    "delta": {"method": "blueprint", "integer": True, "multiplier": 5, "delta": 0.1},
}
MARK = {"none": lambda i: False, "alt": lambda i: i % 3 == 0, "dense": lambda i: i % 4 != 1, "few": lambda i: i in (2, 7)}


def prepare(code, mark, shift=0, attrs=("p_phase_cond", "hom_val_p")):
    """Labels, probabilities and outcomes as noise would leave them."""
    for i, v in enumerate(sorted(code.graph.nodes)):
        d = code.graph.nodes[v]
        d["state"] = "p" if MARK[mark](i + shift) else "GKP"
        if "p_phase_cond" in attrs:
            d["p_phase_cond"] = (0.01, 0.2, 0.05, 0.4, 0.0)[(i + shift) % 5]
        if "hom_val_p" in attrs:
            d["hom_val_p"] = (0.1, -0.7, 1.5, 3.0, -2.2, 0.8)[(i + 2 * shift) % 6]


def needed(opts):
    """What a trial with these options reads of its own noise; anything else is left over."""
    if not opts or opts["method"] == "uniform":
        return ()
    return ("p_phase_cond",) if opts.get("prob_precomputed") else ("hom_val_p",)


def correct(H, code, decoder, opts, backend):
    kw = {"code": code, "decoder": decoder}
    if opts is not None:
        kw["weight_options"] = dict(opts)
    if backend is not None:
        kw["decoder_opts"] = {"backend": backend}
    return H.mod("decoders.decoder").correct(**kw)


def decode(H, dims, ec, bound, decoder, backend, weights, earlier, stabg="rustworkx", mark="none", flips=None, junk=True, step=1):
    new, used = pair(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    qs = sorted(lat.qubits)
    shape = structure(new)
    vals = {}
    if flips is None:
        for v in sorted(new.graph.nodes):
            vals[v] = H.bit("b%s" % (v,)) if v in lat.qubits else 0
        for c in sorted(lat.checks):
            H.concrete(H.xor([vals[q] for q in lat.checks[c]]))
    else:
        vals = {v: 0 for v in new.graph.nodes}
        left = qs[::step]
        for k in range(flips):
            q = H.choose("f%d" % k, left)
            left = left[left.index(q):]
            vals[q] ^= 1
    # something happened on the used code
    for dec, bk, op, mk, pattern in earlier:
        prepare(used, mk, 3)
        for i, v in enumerate(sorted(used.graph.nodes)):
            used.graph.nodes[v]["bit_val"] = int((i * 2654435761 >> 5) % pattern == 0)
        with H.silence():
            correct(H, used, dec, OPTS[op], bk)
            H.mod("decoders.decoder").check_correction(used, sanity_check=True)
        if junk:
            for v in sorted(used.graph.nodes):
                used.graph.nodes[v]["weight"] = H.int("j%s" % (v,), -2, 9)
            getattr(used, ec + "_stab_graph").assign_weights(used)
    for code in (new, used):
        prepare(code, mark, attrs=needed(OPTS[weights]))
        for v in code.graph.nodes:
            code.graph.nodes[v]["bit_val"] = vals[v]
    if junk:  # bits of the other complex take no part
        for v in sorted(used.graph.nodes):
            if v not in lat.qubits:
                used.graph.nodes[v]["bit_val"] = H.bit("o%s" % (v,))
    H.rewind()
    ra = correct(H, new, decoder, OPTS[weights], backend)
    H.rewind()
    rb = correct(H, used, decoder, OPTS[weights], backend)
    H.check(H.iff(ra, rb), "the verdict does not depend on earlier trials")
    pick = lambda c, a: {q: c.graph.nodes[q].get(a) for q in qs}
    equal(H, pick(new, "bit_val"), pick(used, "bit_val"), "corrected bits do not depend on earlier trials")
    equal(H, pick(new, "weight"), pick(used, "weight"), "weights do not depend on earlier trials")
    equal(H, edge_weights(new, ec), edge_weights(used, ec), "weights of the stabilizer graph do not depend on earlier trials")
    same_structure(H, shape, new)
    same_structure(H, shape, used)
    # deciding again
    dec = H.mod("decoders.decoder")
    before = bits(new)
    with H.silence():
        for k in range(2):
            H.check(H.iff(H.all(dec.check_correction(new)), ra), "checking again gives the same verdict")
            H.check(H.iff(H.all(dec.check_correction(new, sanity_check=True)[0]), ra), "checking with the sanity check gives the same verdict")
    equal(H, before, bits(new), "checking changes no bits")
    again = correct(H, new, decoder, OPTS[weights], backend)
    H.check(H.iff(again, ra), "correcting again gives the same verdict")
    equal(H, before, bits(new), "correcting again changes no bits")
    same_structure(H, shape, new)


# ------------------------------------------------------------------ noise
LEFT = ("bit_val", "weight", "hom_val_p", "hom_val_q", "p_phase_cond")


def leftovers(H, graph, attrs=LEFT, words=("state",)):
    """Symbolic garbage on every node."""
    for k, v in enumerate(sorted(graph.nodes)):
        for a in attrs:
            graph.nodes[v][a] = H.bit("L%s%d" % (a, k)) if a == "bit_val" else H.real("L%s%d" % (a, k))
        for a in words:
            graph.nodes[v][a] = "left behind"


def iid(H, dims, ec, bound, rounds):
    new, used = pair(H, dims, ec, bound)
    p = H.real("p", lo=0, hi=1)
    cls = H.mod("noise.iid").IidNoise
    a, b = cls(new, p), cls(used, p)
    other = cls(used, 0.3)
    for r in range(rounds):
        (other if r % 2 else b).apply_noise(Rng(H, "old%d" % r))
    leftovers(H, used.graph)
    shape = structure(new)
    ra, rb = Rng(H, "new"), Rng(H, "new")
    a.apply_noise(ra)
    b.apply_noise(rb)
    H.check(ra.n == rb.n, "as many draws as in a first trial")
    equal(H, bits(new), bits(used), "bits do not depend on earlier trials")
    same_structure(H, shape, used)


def draws(H, tag, most):
    r = Rng(H, tag)
    r.max_binomial = most
    return r


def cvkw(mode, order):
    kw = {"delta": 0.2, "sampling_order": order}
    if mode == "swap":
        kw["p_swap"] = 0.25
    elif mode == "given":
        kw["states"] = {"p": np.array([1, 4, 6])}
    elif mode == "all":
        kw["p_swap"] = 1
    return kw


def translator(vals):
    """Stand-in for the binning function (its behaviour is the subject of C12)."""
    return [3 * v + 1 for v in vals]


def cv(H, dims, ec, bound, mode, order, earlier, mine=1):
    new, used = pair(H, dims, ec, bound)
    mod = H.mod("noise.cv")
    a, b = mod.CVLayer(new, translator=translator, **cvkw(mode, order)), mod.CVLayer(used, translator=translator, **cvkw(mode, order))
    shape = structure(new)
    for r, what in enumerate(earlier):
        if what == "same":
            b.apply_noise(rng=draws(H, "old%d" % r, 1))
        elif what == "other":
            o = mod.CVLayer(used, translator=translator, **cvkw("swap" if mode != "swap" else "given", "initial" if order == "two-step" else "two-step"))
            o.apply_noise(rng=draws(H, "old%d" % r, 1))
        elif what == "iid":
            H.mod("noise.iid").IidNoise(used, 0.5).apply_noise(Rng(H, "old%d" % r))
        elif what == "hom":
            b.populate_states(rng=draws(H, "old%d" % r, 1))
            b.measure_hom("q", [2, 0, 5], rng=Rng(H, "h%d" % r))
    leftovers(H, used.graph)
    ra, rb = draws(H, "new", mine), draws(H, "new", mine)
    a.apply_noise(rng=ra)
    b.apply_noise(rng=rb)
    H.check(ra.n == rb.n, "as many draws as in a first trial")
    H.check(sorted(int(i) for i in a.p_inds) == sorted(int(i) for i in b.p_inds) and sorted(int(i) for i in a.gkp_inds) == sorted(int(i) for i in b.gkp_inds), "the partition does not depend on earlier trials")
    for at in ("state",):
        equal(H, {v: new.graph.nodes[v][at] for v in new.graph.nodes}, {v: used.graph.nodes[v].get(at) for v in used.graph.nodes}, "labels do not depend on earlier trials")
    for at in ("bit_val", "hom_val_p"):
        equal(H, {v: new.graph.nodes[v].get(at) for v in new.all_syndrome_coords}, {v: used.graph.nodes[v].get(at) for v in new.all_syndrome_coords}, "%s does not depend on earlier trials" % at)
    same_structure(H, shape, used)


def fixed_draws(H, tag):
    """Concrete draws for the macronode layer, different for each tag."""
    k = sum(map(ord, tag))
    r = Rng(H, tag)
    r.random = lambda size=None: H.array([((i + k) * 37 % 100) / 100 for i in range(size)]) if size else np.zeros(0)
    r.integers = lambda low, high=None, size=None: H.array([((i + k) * 5 >> 1) % 2 for i in range(size)]) if size else np.zeros(0, dtype=int)
    r.normal_hook = lambda m, s: m + s * ((len(r.log) * 13 + k) % 7 - 3) / 2
    return r


def macro(H, dims, ec, bound, where, earlier):
    new, used = pair(H, dims, ec, bound)
    mod = H.mod("noise.cv")

    def stub(var, hom, *a, **k):
        one = lambda h: (abs(float(h)) * 7 % 1) / 8 + float(var) / 100
        return H.array([one(h) for h in hom]) if np.ndim(hom) else one(hom)

    for m in ("cv.gkp", "noise.cv"):
        H.patch(H.mod(m), "Z_err_cond", stub)
    shape = structure(new)
    a, b = mod.CVMacroLayer(new, delta=0.2), mod.CVMacroLayer(used, delta=0.2)
    n = len(a.egraph)
    for r, what in enumerate(earlier):
        if what == "same":
            b.states["p"] = np.array([i for i in range(n) if (i * 7 + r) % 5 < 2], dtype=int)
            b.apply_noise(rng=fixed_draws(H, "old%d" % r))
        elif what == "cv":
            mod.CVLayer(used, delta=0.1, states={"p": np.array([0, 3])}).apply_noise(rng=fixed_draws(H, "cv%d" % r))
        elif what == "other":
            o = mod.CVMacroLayer(used, delta=0.1, states={"p": np.arange(0, n, 3)})
            o.apply_noise(rng=fixed_draws(H, "o%d" % r))
    leftovers(H, used.graph)
    leftovers(H, b.egraph, words=("state", "body_index"))
    inds = [i for i in range(n) if (i * 40503 >> 3) % 3 == 0 and i // 4 != where]
    inds += [4 * where + k for k in range(4) if H.concrete(H.bit("s%d" % k))]
    a.states["p"] = np.array(inds, dtype=int)
    b.states["p"] = np.array(inds, dtype=int)
    a.apply_noise(rng=fixed_draws(H, "new"))
    b.apply_noise(rng=fixed_draws(H, "new"))
    for at in ("state", "bit_val", "p_phase_cond"):
        equal(H, {v: new.graph.nodes[v][at] for v in new.graph.nodes}, {v: used.graph.nodes[v][at] for v in used.graph.nodes}, "%s does not depend on earlier trials" % at)
    for at in ("state", "body_index"):
        equal(H, {v: a.egraph.nodes[v][at] for v in a.egraph.nodes}, {v: b.egraph.nodes[v][at] for v in b.egraph.nodes}, "%s does not depend on earlier trials" % at)
    same_structure(H, shape, used)


def tasks(tier):
    q = tier == "quick"
    T = []
    P, D = ((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open")
    for c in (P, D):
        for r in (1, 2):
            T.append(Task("iid-%s-%d" % (name(*c), r), iid, dims=c[0], ec=c[1], bound=c[2], rounds=r))
        for order in ("initial", "two-step"):
            for mode in ("swap", "given", "all", "plain"):
                for e in (("same",), ("other",), ("iid", "same"), ("hom", "same"), ("same", "same")):
                    if q and ((c is D) != (len(e) == 2) or (len(e) == 2 and mode == "swap" and e[0] != "iid")):
                        continue
                    T.append(Task("cv-%s-%s-%s-%s" % (name(*c), mode, order, "-".join(e)), cv, dims=c[0], ec=c[1], bound=c[2], mode=mode, order=order, earlier=e, mine=1 if q else 2,
                                  opts={"cost": 3 if mode == "swap" else 1}))
        n = 12
        for w in range(0, n, 5 if q else 1):
            for e in (("same",), ("other", "same"), ("cv",)):
                if q and e == ("cv",) and w:
                    continue
                T.append(Task("macro-%s-%d-%s" % (name(*c), w, "-".join(e)), macro, dims=c[0], ec=c[1], bound=c[2], where=w, earlier=e, opts={"cost": 2}))
    E1 = [("UF", None, "uniform", "alt", 3)]
    E2 = [("MWPM", "networkx", "integer", "few", 2)]
    E3 = [("MWPM", "rustworkx", "blueprint", "dense", 3), ("UF", None, "none", "dense", 2)]
    k = 0
    for c in (P, D):
        for decoder, backend, opts, mark in (("UF", None, "uniform", "none"), ("UF", None, "none", "few"), ("UF", None, "uniform", "alt"), ("UF", None, "uniform", "dense"),
                                             ("MWPM", None, "none", "alt"), ("MWPM", "networkx", "uniform", "none"), ("MWPM", "lemon", "uniform", "few"), ("MWPM", "rustworkx", "blueprint", "alt"),
                                             ("MWPM", "networkx", "integer", "few"), ("MWPM", "lemon", "integer", "dense"), ("MWPM", "rustworkx", "delta", "few"), ("MWPM", "rustworkx", "integer", "none")):
            for stabg in ("rustworkx", "networkx"):
                k += 1
                first = [(decoder, backend, opts, mark, 4)] if (k + (k - 1) // 2) % 2 else []  # the same kind of trial, then others
                T.append(Task("decode-%s-%s-%s-%s-%s-%s" % (name(*c), decoder, backend, opts, mark, stabg), decode, dims=c[0], ec=c[1], bound=c[2], decoder=decoder, backend=backend, weights=opts, mark=mark,
                              stabg=stabg, earlier=first + (E1, E2, E3)[k % 3]))
    big = [((3, 3, 3), "primal", "toric", 7), ((3, 3, 3), "dual", "periodic", 11), ((3, 3, 3), "primal", "open", 7), ((3, 2, 2), "dual", "open", 3)]
    for d, ec, b, step in big:
        for decoder, backend, opts, mark in (("UF", None, "uniform", "few"), ("UF", None, "none", "alt"), ("MWPM", "rustworkx", "integer", "alt"), ("MWPM", "lemon", "uniform", "none")):
            k += 1
            T.append(Task("decode-%s-%s-%s-%s" % (name(d, ec, b), decoder, opts, mark), decode, dims=d, ec=ec, bound=b, decoder=decoder, backend=backend, weights=opts, mark=mark, flips=2,
                          step=step if q else max(1, step // 3), junk=False, earlier=[(decoder, backend, opts, mark, 4)] + (E1, E2, E3)[k % 3], opts={"cost": 6}))
    return T
