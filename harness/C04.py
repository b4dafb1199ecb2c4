"""The lattice has the requested code distance."""
from harness._codes import Lattice, make, name, put_bits
from harness.C02 import distance
from symcheck.api import Task

BOUNDS = ("every flip pattern of weight below the distance (undetected => success) and every straight chain of exactly that weight (undetected, failure), "
          "all boundary types and both complexes; quick: sides up to 4 and elongated open lattices up to 7; thorough: up to 5x5x5 and 9x2x2")
ASSUMPTIONS = []


def verdict(H, code):
    dec = H.mod("decoders.decoder")
    r = dec.check_correction(code)
    H.check(len(r) == 1, "one verdict")
    return r[0]


def below(H, dims, ec, bound):
    """No undetected failing pattern with fewer than d flips."""
    code = make(H, dims, ec, bound)
    lat = Lattice(dims, ec, bound)
    bits = put_bits(H, code)
    d = distance(dims, ec, bound)
    for s in getattr(code, ec + "_stabilizers"):
        H.assume(s.parity == 0)
    v = verdict(H, code)
    if H.symbolic:
        H.assume(H.not_(v))
        # a failing undetected pattern needs at least d flips
        H.check(H.total([bits[q] for q in sorted(lat.qubits)]) >= d, "undetected failure needs %d flips" % d)
    elif not v:
        H.check(sum(bits[q] for q in lat.qubits) >= d, "undetected failure needs %d flips" % d)


def chain(H, dims, ec, bound, axis):
    """A straight chain along the axis is undetected, has the requested length and fails."""
    code = make(H, dims, ec, bound)
    lat = Lattice(dims, ec, bound)
    base = put_bits(H, code)
    for s in getattr(code, ec + "_stabilizers"):
        H.assume(s.parity == 0)
    v = verdict(H, code)
    cols = {}
    for q in lat.qubits:
        if lat.normal(q) == axis:
            cols.setdefault(tuple(c for i, c in enumerate(q) if i != axis), []).append(q)
    col = H.choose("col", sorted(cols))
    H.check(len(cols[col]) == dims[axis], "the chain has the requested length")
    for q in cols[col]:
        code.graph.nodes[q]["bit_val"] = code.graph.nodes[q]["bit_val"] ^ 1
    for s in getattr(code, ec + "_stabilizers"):
        H.check(s.parity == 0, "the chain is undetected")
    w = verdict(H, code)
    if len(lat.directions()) == 1:
        H.check(H.iff(w, H.not_(v)), "the chain flips the verdict")
    else:
        H.check(H.implies(v, H.not_(w)), "the chain spoils a success")


def tasks(tier):
    q = tier == "quick"
    out = []
    sizes = {
        "open": [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3), (4, 2, 2), (2, 4, 3), (5, 2, 2), (2, 5, 2), (4, 3, 3), (3, 4, 3), (4, 4, 4), (7, 2, 2)],
        "toric": [(3, 3, 2), (3, 4, 2), (2, 3, 2), (4, 2, 2), (3, 3, 3), (4, 4, 2)],
        "periodic": [(3, 3, 3), (2, 3, 3), (3, 2, 4), (3, 4, 3), (4, 4, 4)],
    }
    if not q:
        sizes["open"] += [(5, 3, 3), (3, 5, 3), (5, 5, 5), (9, 2, 2), (2, 7, 2)]
        sizes["toric"] += [(4, 4, 3), (5, 4, 3), (5, 5, 5)]
        sizes["periodic"] += [(4, 3, 5), (5, 5, 5)]
    for ec in ("primal", "dual"):
        for b, ds in sizes.items():
            for d in ds:
                n = name(d, ec, b)
                vol = d[0] * d[1] * d[2]
                out.append(Task("below-" + n, below, dims=d, ec=ec, bound=b, opts={"cost": vol, "obl_timeout": 300 if q else 3000}))
                for axis in Lattice(d, ec, b).directions():
                    if b == "open" or min(d) > 2:
                        out.append(Task("chain%s-" % "xyz"[axis] + n, chain, dims=d, ec=ec, bound=b, axis=axis))
    return out
