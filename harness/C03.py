"""The verdict is the homology class of the residual flips."""
import random

from harness._codes import Lattice, cur, make, name, put_bits
from symcheck.api import Task

BOUNDS = ("every bit pattern with even stabilizers on lattices of all boundary types and both complexes with sides 2 to 4 (thorough: 5) and elongated ones with one side of 7 or 66 to 70; "
          "one or two trivial loops around any opposite-type qubits; "
          "the verdict of the whole correction for every error with the syndrome of 3 (thorough 6) fixed patterns, both decoders")
ASSUMPTIONS = []


def gf2_kernel(rows, n):
    """Basis of the vectors orthogonal to all rows (bit masks)."""
    piv = {}
    for r in rows:
        for c, v in piv.items():
            if r >> c & 1:
                r ^= v
        if r:
            c = r.bit_length() - 1
            for k in piv:
                if piv[k] >> c & 1:
                    piv[k] ^= r
            piv[c] = r
    free = [i for i in range(n) if i not in piv]
    out = []
    for f in free:
        x = 1 << f
        for c, r in piv.items():
            if r >> f & 1:
                x |= 1 << c
        out.append(x)
    return out


def verdict(H, code, sanity=False):
    dec = H.mod("decoders.decoder")
    with H.silence():
        r = dec.check_correction(code, sanity_check=sanity)
    if sanity:
        r, truth = r
        H.check(len(r) == 1 and len(truth) == 1, "one verdict per complex")
        return r[0], truth[0]
    H.check(len(r) == 1, "one verdict per complex")
    return r[0], None


def setup(H, dims, ec, bound):
    code = make(H, dims, ec, bound)
    lat = Lattice(dims, ec, bound)
    bits = put_bits(H, code)
    for s in getattr(code, ec + "_stabilizers"):
        H.assume(s.parity == 0)
    return code, lat, bits


def planes(H, dims, ec, bound):
    code, lat, bits = setup(H, dims, ec, bound)
    v, _ = verdict(H, code)
    v2, truth = verdict(H, code, sanity=True)
    H.check(H.iff(v, v2), "verdict independent of the sanity option")
    ok = []
    for axis, a in enumerate("xyz"):
        want = lat.planes(axis) if axis in lat.directions() else []
        H.check(len(truth[a]) == len(want), "number of inspected planes along %s" % a)
        for k, pl in enumerate(want):
            even = H.xor([bits[q] for q in sorted(pl)]) == 0
            H.check(H.iff(truth[a][k], even), "plane %d along %s reports its parity" % (k, a))
            H.check(H.iff(truth[a][k], truth[a][0]), "parallel planes along %s agree" % a)
            if k == 0:
                ok.append(even)
    H.check(H.iff(v, H.all(ok)), "verdict combines the checked directions")
    for q in bits:
        H.check(cur(code, q) == bits[q], "checking changes no bit")


def loops(H, dims, ec, bound, count):
    code, lat, bits = setup(H, dims, ec, bound)
    v, _ = verdict(H, code)
    others = sorted(lat.others)
    if count == 0:
        # any combination of loops at once
        for o in others:
            c = H.bit("loop%s" % (o,))
            for q in lat.trivial_loop(o):
                code.graph.nodes[q]["bit_val"] = cur(code, q) ^ c
    for k in range(count):
        o = H.choose("o%d" % k, others)
        for q in code.graph[o]:
            code.graph.nodes[q]["bit_val"] = cur(code, q) ^ 1
    for s in getattr(code, ec + "_stabilizers"):
        H.check(s.parity == 0, "trivial loops keep every stabilizer even")
    w, _ = verdict(H, code)
    H.check(H.iff(v, w), "verdict unchanged by trivial loops")


def complete(H, dims, ec, bound):
    """success => the residual is a product of trivial loops."""
    code, lat, bits = setup(H, dims, ec, bound)
    v, _ = verdict(H, code)
    qubits = sorted(lat.qubits)
    num = {q: i for i, q in enumerate(qubits)}
    rows = [sum(1 << num[q] for q in lat.trivial_loop(o)) for o in sorted(lat.others)]
    if not H.decide(v):
        # failure => some functional that vanishes on all loops is nonzero
        ker = gf2_kernel(rows, len(qubits))
        H.check(H.any([H.xor([bits[q] for q in qubits if h >> num[q] & 1]) == 1 for h in ker]), "failure means a nontrivial residual")
        return
    for h in gf2_kernel(rows, len(qubits)):
        H.check(H.xor([bits[q] for q in qubits if h >> num[q] & 1]) == 0, "success means a trivial residual")


def whole(H, dims, ec, bound, decoder, salt, matching="rustworkx"):
    """The verdict of the complete correction, for every error with a given syndrome."""
    code = make(H, dims, ec, bound)
    lat = Lattice(dims, ec, bound)
    bits = put_bits(H, code)
    rnd = random.Random(salt)
    rate = (0, 0.1, 0.4)[salt % 3]
    fixed = {q: int(rnd.random() < rate) for q in sorted(lat.qubits)}
    for v in sorted(lat.others):
        code.graph.nodes[v]["state"] = "p" if salt % 2 and rnd.random() < 0.3 else "GKP"
    for qs in lat.checks.values():
        H.assume(H.xor([bits[q] for q in qs]) == sum(fixed[q] for q in qs) % 2)
    dec = H.mod("decoders.decoder")
    sanity = bool(H.concrete(H.bit("sanity")))
    with H.silence():
        r = dec.correct(code, decoder=decoder, sanity_check=sanity, decoder_opts={"backend": matching} if decoder == "MWPM" else None)
    ok = []
    for axis in lat.directions():
        ok.append(H.xor([cur(code, q) for q in sorted(lat.planes(axis)[0])]) == 0)
    H.check(H.iff(r, H.all(ok)), "correct() reports the class of what is left after the recovery")
    if salt % 3 == 0:
        for q in bits:
            H.check(cur(code, q) == bits[q], "nothing is flipped on a trivial syndrome")


def tasks(tier):
    q = tier == "quick"
    out = []
    sizes = [(2, 2, 2), (3, 2, 2), (2, 3, 4), (3, 3, 3), (7, 2, 2), (2, 7, 2), (2, 2, 7), (2, 3, 70), (66, 2, 2), (2, 66, 2)]
    if not q:
        sizes += [(4, 3, 2), (4, 4, 4), (2, 2, 5), (5, 4, 3), (5, 5, 5)]
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for d in sizes:
                n = name(d, ec, b)
                big = d[0] * d[1] * d[2]
                if b != "open" and d == (2, 2, 2):
                    out.append(Task("planes-" + n, planes, dims=d, ec=ec, bound=b))
                    continue
                out.append(Task("planes-" + n, planes, dims=d, ec=ec, bound=b, opts={"cost": big}))
                out.append(Task("complete-" + n, complete, dims=d, ec=ec, bound=b, opts={"cost": 2 * big}))
                if big <= 27 or not q:
                    out.append(Task("loops-" + n, loops, dims=d, ec=ec, bound=b, count=0, opts={"cost": big}))
            for d in [(2, 2, 2), (3, 3, 3), (3, 2, 4)] if q else [(2, 2, 2), (3, 3, 3), (3, 2, 4), (4, 4, 4), (5, 4, 3), (2, 5, 2)]:
                for salt in range(3 if q else 6):
                    if b != "open" and d == (2, 2, 2):
                        continue
                    out.append(Task("whole-%s-%d" % (name(d, ec, b), salt), whole, dims=d, ec=ec, bound=b, decoder=("MWPM", "UF")[(salt + (ec == "dual")) % 2],
                                    salt=salt, matching=("rustworkx", "networkx", "lemon")[salt % 3], opts={"cost": d[0] * d[1] * d[2]}))
                    if salt == 0:
                        out.append(Task("whole-%s-%d-uf" % (name(d, ec, b), salt), whole, dims=d, ec=ec, bound=b, decoder=("UF", "MWPM")[ec == "dual"], salt=salt, opts={"cost": 9}))
            out.append(Task("twoloops-" + name((3, 2, 2), ec, b), loops, dims=(3, 2, 2), ec=ec, bound=b, count=1 if q else 2))
    return out
