"""Recovery always returns the lattice to the code space."""
import random

from harness._codes import Lattice, cur, make, name, put_bits
from harness._lemon import backend_tasks
from symcheck.api import Task

BOUNDS = ("every bit pattern on open 2x2x2, 3x2x2, 2x3x2, 2x2x3, toric 2x2x2 and periodic 2x2x2 lattices of both complexes (quick: a selection); "
          "every matching backend and stabilizer-graph backend, uniform weights and weights with zeros and ties; Union-Find with every set of p-squeezed qubits on 2x2x2 (quick: up to 2) "
          "and sets of up to 2 on larger lattices; 3x3x3 lattices with up to 1 (thorough 2) flips; "
          "lattices with sides 3 to 7 with 4 (thorough 6) free bits on top of fixed backgrounds of flips and p-squeezed qubits of several densities")
ASSUMPTIONS = ["the compiled LEMON wrapper (lemonpy-* tasks, 4 to 132 rows) runs as LLVM IR against stand-ins for LEMON, by its contract, and pybind11", "rustworkx, networkx and LEMON run natively on the concrete syndrome of each path",
               "identity-hashed objects are ordered by creation (one alternative order per salt)"]


def residual(H, code, ec, before):
    lat = Lattice(code.dims, ec, "periodic" if code.bound_str == "periodic" else "toric" if "periodic" in code.bound_str else "open")
    for c, qs in lat.checks.items():
        H.check(H.xor([cur(code, q) for q in qs]) == 0, "parity check at %s is even after recovery" % (c,))
    for s in getattr(code, ec + "_stabilizers"):
        H.check(s.parity == 0, "stabilizer reported even after recovery")
    for v in before:
        if v not in lat.qubits:
            H.check(cur(code, v) == before[v], "qubit outside the error complex untouched")
        else:
            H.check(H.any([cur(code, v) == 0, cur(code, v) == 1]), "bit stays a bit")


def assigned(H, qs, kind, salt):
    """Weights with many ties and zeros, a few of them chosen freely."""
    if kind == "zero":
        return {q: 0 for q in qs}
    if kind == "mixed":
        return {q: ((i + salt) * 40503 >> 4) % 3 // 2 for i, q in enumerate(qs)}
    free = qs[:: max(1, len(qs) // 4)][:4]
    return {q: H.choose("w%s" % (q,), [0, 1, 0.5]) if q in free else ((i + salt) * 7 % 4) / 2 for i, q in enumerate(qs)}


def recover(H, dims, ec, bound, decoder, matching="rustworkx", stabg="rustworkx", pmax=None, erase=None, reps=None, flips=None, salt=0, sanity=False, weights=None, free=None):
    code = make(H, dims, ec, bound, stabg)
    bits = put_bits(H, code)
    lat = Lattice(dims, ec, bound)
    if flips is not None:
        H.assume(H.total([bits[q] for q in sorted(lat.qubits)]) <= flips)
    if free:
        # a fixed dense background with a few free bits
        rnd = random.Random(1000 + salt)
        rate, loss = rnd.choice((0.05, 0.1, 0.3, 0.5)), rnd.choice((0, 0.2, 0.5)) if decoder == "UF" else 0
        pool = rnd.sample(sorted(lat.qubits), free)
        for q in sorted(lat.vertices):
            one = rnd.random() < rate
            if q not in pool:
                H.assume(bits[q] == int(one))
        for v in sorted(lat.others):
            code.graph.nodes[v]["state"] = "p" if rnd.random() < loss else "GKP"
    if pmax is not None:
        others = sorted(lat.others)
        left = pmax
        for v in others:
            code.graph.nodes[v]["state"] = "GKP"
            if left and H.concrete(H.bit("p%s" % (v,))):
                code.graph.nodes[v]["state"] = "p"
                left -= 1
    if erase:
        for v in lat.others:
            code.graph.nodes[v]["state"] = "GKP"
        # erase chosen qubits: all their neighbours are p-squeezed
        pool = sorted(lat.qubits)
        if reps:
            pool = pool[len(pool) // 2:][:reps]
        for k in range(erase):
            v = H.choose("e%d" % k, pool)
            pool = pool[pool.index(v):]
            for w in lat.neighbours(v):
                code.graph.nodes[w]["state"] = "p"
    dec = H.mod("decoders.decoder")
    if weights:
        # any non-negative weights may have been assigned before decoding
        w = assigned(H, sorted(lat.qubits), weights, salt)
        own = dec.assign_weights

        def assign(code_, decoder_, **kw):
            own(code_, decoder_, **kw)
            for q in w:
                code_.graph.nodes[q]["weight"] = w[q]
            getattr(code_, ec + "_stab_graph").assign_weights(code_)

        H.patch(dec, "assign_weights", assign)
    with H.silence():
        r = dec.correct(code, decoder=decoder, decoder_opts={"backend": matching} if matching else None, sanity_check=sanity)
    residual(H, code, ec, bits)
    H.check(H.any([r == True, r == False]), "verdict is a truth value")  # noqa: E712


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(dims, ec, bound, decoder, split=1, cost=1, **k):
        n = "%s-%s" % (decoder, name(dims, ec, bound)) + "".join("-%s" % v for v in (k.get("matching"), k.get("stabg")) if v)
        n += "".join("-%s%s" % (a, k[a]) for a in ("pmax", "erase", "reps", "flips", "free", "salt", "sanity", "weights") if k.get(a) is not None)
        out.append(Task(n, recover, dims=dims, ec=ec, bound=bound, decoder=decoder, split=split, opts={"cost": cost}, **k))

    small = [((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open"), ((3, 2, 2), "primal", "open"), ((2, 3, 2), "dual", "open")]
    for d, e, b in small:
        for m in ("networkx", "rustworkx", "lemon"):
            for s in ("networkx", "rustworkx"):
                if q and d != (2, 2, 2) and (m, s) not in (("rustworkx", "rustworkx"), ("lemon", "networkx")):
                    continue
                add(d, e, b, "MWPM", matching=m, stabg=s)
        if d == (2, 2, 2):
            add(d, e, b, "UF", pmax=2 if q else 9, split=1 if q else 8, cost=5)
        else:
            add(d, e, b, "UF", erase=1, reps=None if e == "primal" else 6, split=4, cost=5)
            if not q:
                add(d, e, b, "UF", pmax=3, split=8, cost=9)
                add(d, e, b, "UF", erase=2, stabg="networkx", split=8, cost=9)
    add((2, 2, 2), "primal", "open", "MWPM", sanity=True)
    add((2, 2, 2), "primal", "open", "UF", stabg="networkx", erase=1, sanity=True)
    for i, (m, g) in enumerate((("rustworkx", "rustworkx"), ("networkx", "networkx"), ("lemon", "rustworkx"))):
        for w in ("zero", "mixed", "free"):
            if q and w == "free" and m != "rustworkx":
                continue
            add((2, 2, 2), "dual" if i == 1 else "primal", "open", "MWPM", matching=m, stabg=g, weights=w, cost=3 if w == "free" else 1)
            add((3, 2, 2) if i != 1 else (2, 3, 2), "dual" if i == 1 else "primal", "open", "MWPM", matching=m, stabg=g, weights="mixed" if w == "free" else w, salt=i + (5 if w == "free" else 0), cost=2)
            add((3, 3, 3), "primal" if i == 1 else "dual", ("open", "toric", "periodic")[i], "MWPM", matching=m, stabg=g, weights=w if w != "free" else "mixed", flips=1 if q else 2, split=1 if q else 4, salt=7 if w == "free" else 0, cost=4)
    shapes = [((4, 4, 4), "open"), ((5, 3, 4), "toric"), ((4, 5, 4), "periodic"), ((3, 6, 5), "open"), ((6, 4, 3), "toric"), ((7, 4, 3), "open")]
    for i in range(36 if q else 120):
        d, b = shapes[i % 6]
        e = ("primal", "dual")[i // 6 % 2]
        for dec in ("MWPM", "UF"):
            add(d, e, b, dec, matching=("rustworkx", "lemon", "networkx")[(i + i // 3) % 3] if dec == "MWPM" else None, stabg=("rustworkx", "networkx")[i // 2 % 2],
                free=4 if q else 6, salt=i, cost=5)
    if not q:
        add((2, 2, 2), "primal", "open", "UF", stabg="networkx", erase=3, salt=2, split=8)
        add((3, 3, 2), "primal", "open", "UF", flips=2, erase=1, split=8)
        add((2, 2, 3), "dual", "open", "UF", erase=1, salt=3, split=8)
    for e in ("primal", "dual"):
        for b in ("toric", "periodic"):
            add((2, 2, 2), e, b, "MWPM", matching="lemon" if e == "primal" else "networkx")
            add((2, 2, 2), e, b, "MWPM")
            add((2, 2, 2), e, b, "UF", erase=1, reps=3, cost=4)
            if not q:
                add((2, 2, 2), e, b, "UF", erase=2, split=8, cost=4)
            add((3, 3, 3), e, b, "MWPM", flips=1 if q else 2, split=1 if q else 8, cost=6)
            add((3, 3, 3), e, b, "UF", flips=1 if q else 2, split=1 if q else 8, cost=6, salt=1)
        add((3, 3, 3), e, "open", "MWPM", flips=1 if q else 2, split=1 if q else 8, cost=6)
        add((3, 3, 3), e, "open", "UF", flips=1 if q else 2, split=1 if q else 8, cost=6, salt=1)
        add((3, 3, 3), e, "open", "UF", flips=1, erase=1, reps=3 if q else None, split=1 if q else 8, cost=6)
    out += backend_tasks(weight=False)
    return out
