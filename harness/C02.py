"""Fewer than d/2 errors are always corrected."""
from harness._codes import Lattice, make, name, put_bits
from symcheck.api import Task

BOUNDS = ("distance 3: open 3x2x2 (primal), 2x3x2 (dual), toric 3x3x2, periodic 3x3x3, open 3x3x3; distance 5: open 5x2x2 (2 flips), "
          "thorough also 7x2x2 (3 flips), 5x3x3 and larger erasures; open 9x2x2 and 7x2x3, toric 7x7x2, periodic 5x5x5 with all flips (up to (d-1)/2) on one (thorough two) straight chains; open 3x2x16 (1 flip); every placement of the flips symbolic, Union-Find with every set of up to 2 erased qubits "
          "and every flip pattern on them (d=3), 1 erased + 1 flip (d=5)")
ASSUMPTIONS = ["rustworkx, networkx and LEMON run natively on the concrete syndrome of each path",
               "identity-hashed objects are ordered by creation (one alternative order per salt)"]


def distance(dims, ec, bound):
    return {"open": dims[0] if ec == "primal" else dims[1], "toric": min(dims[:2]), "periodic": min(dims)}[bound]


def correctable(H, dims, ec, bound, decoder, matching="rustworkx", stabg="rustworkx", erase=0, reps=None, salt=0, flips=None, sanity=False, columns=None):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    d = distance(dims, ec, bound)
    bits = put_bits(H, code)
    qubits = sorted(lat.qubits)
    erased = set()
    if erase:
        for v in lat.others:
            code.graph.nodes[v]["state"] = "GKP"
        pool = qubits[len(qubits) // 3:][:reps] if reps else qubits
        for k in range(erase):
            v = H.choose("e%d" % k, pool)
            pool = pool[pool.index(v):]
            for w in sorted(lat.neighbours(v))[:2]:
                code.graph.nodes[w]["state"] = "p"
        for q in qubits:
            if sum(code.graph.nodes[w]["state"] == "p" for w in lat.neighbours(q)) >= 2:
                erased.add(q)
    s = len(erased)
    if s >= d:
        H.assume(False)
    t = (d - 1 - s) // 2
    if flips is not None:
        t = min(t, flips)
    if columns:
        # all flips on a few parallel chains, the densest patterns a logical error is made of
        axis = lat.directions()[0] if bound == "open" else dims.index(max(dims))
        chains = {}
        for q in qubits:
            if lat.normal(q) == axis:
                chains.setdefault(q[:axis] + q[axis + 1:], []).append(q)
        keep = {q for k in sorted(chains)[:columns] for q in chains[k]}
        for q in qubits:
            if q not in keep and q not in erased:
                H.assume(bits[q] == 0)
    H.assume(H.total([bits[q] for q in qubits if q not in erased]) <= t)
    dec = H.mod("decoders.decoder")
    with H.silence():
        r = dec.correct(code, decoder=decoder, decoder_opts={"backend": matching}, sanity_check=sanity)
    H.check(r == True, "correction succeeds with %d flips and %d erasures at distance %d" % (t, s, d))  # noqa: E712


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(dims, ec, bound, decoder, split=1, cost=1, **k):
        n = "%s-%s" % (decoder, name(dims, ec, bound)) + "".join("-%s" % v for v in (k.get("matching"), k.get("stabg")) if v)
        n += "".join("-%s%s" % (a, k[a]) for a in ("erase", "reps", "flips", "columns", "salt", "sanity") if k.get(a) is not None)
        out.append(Task(n, correctable, dims=dims, ec=ec, bound=bound, decoder=decoder, split=split, opts={"cost": cost}, **k))

    three = [((3, 2, 2), "primal", "open"), ((2, 3, 2), "dual", "open"), ((3, 3, 2), "primal", "toric"), ((3, 3, 2), "dual", "toric"),
             ((3, 3, 3), "primal", "periodic"), ((3, 3, 3), "dual", "periodic"), ((3, 3, 3), "primal", "open"), ((3, 3, 3), "dual", "open")]
    for d, e, b in three:
        combos = [(m, s) for m in ("networkx", "rustworkx", "lemon") for s in ("networkx", "rustworkx")]
        if q and d not in ((3, 2, 2), (2, 3, 2)):
            combos = [("rustworkx", "rustworkx"), ("lemon", "networkx")][: 2 if e == "primal" else 1]
        for m, s in combos:
            add(d, e, b, "MWPM", matching=m, stabg=s)
        for salt in (0, 1, 2) if b == "open" else (1,):
            add(d, e, b, "UF", salt=salt)
        add(d, e, b, "UF", erase=1, reps=6 if q else None, cost=2)
        if b == "open" and d != (3, 3, 3) or not q:
            add(d, e, b, "UF", erase=2, split=1 if q else 8, cost=4)
    add((3, 2, 2), "primal", "open", "MWPM", sanity=True)
    add((5, 2, 2), "primal", "open", "MWPM", split=2, cost=8)
    add((5, 2, 2), "primal", "open", "UF", split=2, cost=8)
    add((2, 5, 2), "dual", "open", "UF", split=2, cost=8, salt=1)
    add((5, 2, 2), "primal", "open", "UF", erase=1, reps=8 if q else None, split=2 if q else 8, cost=8)
    for k, (d, e, b) in enumerate((((9, 2, 2), "primal", "open"), ((2, 9, 2), "dual", "open"), ((7, 7, 2), "primal", "toric"), ((7, 7, 2), "dual", "toric"),
                                   ((7, 2, 3), "primal", "open"), ((5, 5, 5), "dual", "periodic"))):
        for m in ("rustworkx", "networkx", "lemon")[k % 3:][:1]:
            add(d, e, b, "MWPM", matching=m, columns=1, cost=6)
        add(d, e, b, "UF", columns=1, cost=6, salt=k % 2)
        if not q:
            add(d, e, b, "MWPM", columns=2, cost=9, split=8)
            add(d, e, b, "UF", columns=2, cost=9, split=8)
            add(d, e, b, "UF", columns=1, erase=1, cost=9, split=8)
    add((3, 2, 16), "primal", "open", "MWPM", matching="lemon", split=2, cost=4)
    add((2, 3, 16), "dual", "open", "UF", split=2, cost=4)
    add((7, 2, 2), "primal", "open", "UF", columns=2, split=2, cost=5)
    add((2, 7, 2), "dual", "open", "MWPM", columns=2, split=2, cost=5)
    add((7, 2, 2), "primal", "open", "UF", columns=1, erase=1, split=4, cost=5)
    if not q:
        for m in ("networkx", "lemon"):
            add((5, 2, 2), "primal", "open", "MWPM", matching=m, split=8)
            add((2, 5, 2), "dual", "open", "MWPM", matching=m, stabg="networkx", split=8)
        add((5, 2, 2), "primal", "open", "UF", erase=2, split=8)
        add((5, 2, 2), "primal", "open", "UF", erase=3, salt=1, split=8)
        add((5, 2, 2), "primal", "open", "UF", erase=4, flips=0, split=8)
        add((5, 3, 3), "primal", "open", "MWPM", split=8)
        add((5, 3, 3), "primal", "open", "UF", split=8)
        add((7, 2, 2), "primal", "open", "UF", split=8)
        add((7, 2, 2), "primal", "open", "MWPM", split=8)
    return out
