"""The matching decoder's correction has minimum total weight."""
import itertools as it

from harness._codes import Lattice, cur, make, name, put_bits
from harness._lemon import backend_tasks
from symcheck.api import Task

BOUNDS = ("open lattices 2x2x1 and 2x2x2 (both complexes) with every syndrome and non-negative weights on all (2x2x1) or "
          "up to 4 (2x2x2, thorough 6) of the qubits symbolic, the others uniform; larger open, toric and periodic lattices (sides at least 3 "
          "in periodic directions) with up to 3 flips and 2 symbolic weights; networkx, rustworkx and LEMON matching, both stabilizer graphs")
ASSUMPTIONS = ["the compiled LEMON wrapper (lemonpy-* tasks, 4 to 132 rows) runs as LLVM IR against stand-ins for LEMON, by its contract, and pybind11", "on symbolic weights rustworkx's Dijkstra is executed as a Python Dijkstra, rustworkx's and LEMON's matching as their contract "
               "(any optimal perfect matching); networkx runs as it is", "non-integer weights are exact reals, for networkx and LEMON"]


def kernel(lat):
    """Basis of the flip sets with trivial syndrome (Gaussian elimination over GF(2))."""
    qs = sorted(lat.qubits)
    rows = []
    for f in lat.checks.values():
        v = 0
        for q in f:
            v ^= 1 << qs.index(q)
        rows.append(v)
    piv = {}
    for r in rows:
        for p, v in piv.items():
            if r >> p & 1:
                r ^= v
        if r:
            p = r.bit_length() - 1
            for k in piv:
                if piv[k] >> p & 1:
                    piv[k] ^= r
            piv[p] = r
    basis = []
    for f in range(len(qs)):
        if f not in piv:
            v = 1 << f
            for p, r in piv.items():
                if r >> f & 1:
                    v |= 1 << p
            basis.append({qs[i] for i in range(len(qs)) if v >> i & 1})
    return basis


def cycles(H, lat, rec, bound):
    """Flip sets to add to rec: all of the kernel if small, else all simple cycles up to a length."""
    basis = kernel(lat)
    if len(basis) > 13:
        return simple_cycles(lat, bound)
    key = (lat.dims, lat.ec, lat.bound)
    if key not in _CACHE:
        out = _CACHE[key] = []
        for r in range(1, 2 ** len(basis)):
            s = set()
            for i, b in enumerate(basis):
                if r >> i & 1:
                    s ^= b
            out.append(s)
    return _CACHE[key]


_CACHE = {}


def simple_cycles(lat, bound):
    key = (lat.dims, lat.ec, lat.bound, bound)
    if key in _CACHE:
        return _CACHE[key]
    # graph: checks and one node for each face at the outside, an edge per qubit
    ends = {}
    for c, f in lat.checks.items():
        for q in f:
            ends.setdefault(q, []).append(c)
    for q, e in ends.items():
        if len(e) == 1:
            e.append("out")
    adj = {}
    for q, (a, b) in ends.items():
        adj.setdefault(a, []).append((b, q))
        adj.setdefault(b, []).append((a, q))
    found = set()

    def walk(start, node, used, seen):
        for m, q in adj[node]:
            if q in used:
                continue
            if m == start:
                if len(used) >= 1:
                    found.add(frozenset(used | {q}))
            elif m not in seen and len(used) + 1 < bound:
                walk(start, m, used | {q}, seen | {m})

    order = list(adj)
    for s in order:
        walk(s, s, frozenset(), {s})
    _CACHE[key] = [set(c) for c in found]
    return _CACHE[key]


def decode(H, dims, ec, bound, matching, stabg, nsym, kind, flips=None, cyc=0, pool=None, whole=False, step=1):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    qs = sorted(lat.qubits)
    if flips is None:
        for v in code.graph.nodes:
            code.graph.nodes[v]["bit_val"] = 0
        # every syndrome: flip a subset of qubits, one per independent syndrome
        bits = put_bits(H, code)
        for c in sorted(lat.checks):
            H.concrete(H.xor([bits[q] for q in lat.checks[c]]))
    else:
        for v in code.graph.nodes:
            code.graph.nodes[v]["bit_val"] = 0
        left = qs if pool is None else qs[pool[0]:pool[1]]
        for k in range(flips):
            q = H.choose("f%d" % k, left)
            left = left[left.index(q):]
            code.graph.nodes[q]["bit_val"] ^= 1
    make_w = (lambda n: H.real(n, lo=0)) if kind == "real" else (lambda n: H.int(n, 0))
    weight = {q: 1 for q in qs}
    if nsym == "all":
        sym = qs
    else:
        first = H.choose("first", list(range(0, len(qs), step)))
        sym = qs[first:first + nsym]
    for q in sym:
        weight[q] = make_w("w%s" % (q,))
    if whole:
        # some base weights other than one
        for i, q in enumerate(qs):
            if q not in sym:
                weight[q] = (3, 0, 2, 5)[i % 4]
    for q in qs:
        code.graph.nodes[q]["weight"] = weight[q]
    before = {q: cur(code, q) for q in qs}
    getattr(code, ec + "_stab_graph").assign_weights(code)
    mw = H.mod("decoders.mwpm")
    rec = set(mw.mwpm_decoder(code, ec, backend=matching))
    H.check(rec <= lat.qubits, "only qubits of the complex are flipped")
    for c, f in lat.checks.items():
        par = H.xor([before[q] for q in f])
        H.check((par ^ (len([q for q in f if q in rec]) % 2)) == 0, "correction has the measured syndrome")
    conds = {}
    for s in cycles(H, lat, rec, cyc):
        if s & rec:
            gain = [weight[q] for q in s if q in rec]
            cost = [weight[q] for q in s if q not in rec]
            key = (sum(w for w in gain if not hasattr(w, "key")) - sum(w for w in cost if not hasattr(w, "key")),
                   frozenset(q for q in s if q in sym))
            conds.setdefault(key, (gain, cost))
    conds = [H.leq(H.total(g), H.total(c)) for g, c in conds.values()]
    H.check(H.all(conds), "no flip set with the same syndrome is lighter")


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(dims, ec, bound, m, s, nsym, kind, split=1, cost=1, **k):
        n = "%s-%s-%s-%s%s" % (name(dims, ec, bound), m, s, nsym, kind) + "".join("-%s%s" % i for i in k.items() if i[1] is not None)
        out.append(Task(n, decode, dims=dims, ec=ec, bound=bound, matching=m, stabg=s, nsym=nsym, kind=kind, split=split,
                        opts={"cost": cost}, **k))

    small, sizes = (2, 2, 2), {"cost": 3}
    for ec, other in (("primal", "dual"), ("dual", "primal")):
        kind = {"networkx": "real", "lemon": "real", "rustworkx": "int"}
        combos = [(m, s) for m in kind for s in ("networkx", "rustworkx")]
        if q:
            pick = {"primal": [("rustworkx", "rustworkx", 2, False, 5), ("lemon", "rustworkx", 1, True, 4), ("networkx", "networkx", 1, False, 5)],
                    "dual": [("rustworkx", "rustworkx", 1, True, 3), ("networkx", "rustworkx", 1, True, 4), ("lemon", "networkx", 1, False, 5),
                             ("rustworkx", "networkx", 1, False, 5)]}
            for m, s, n, w, step in pick[ec]:
                add(small, ec, "open", m, s, n, kind[m], whole=w, step=step, **sizes)
        else:
            for m, s in combos:
                add(small, ec, "open", m, s, 2, kind[m], step=1, split=4, cost=9)
                add(small, ec, "open", m, s, 2, kind[m], step=2, whole=True, split=4, cost=9)
            add(small, ec, "open", "rustworkx", "rustworkx", 4, "int", step=4, split=8, cost=20)
        big = ((3, 2, 2), "primal", "open") if ec == "primal" else ((2, 3, 2), "dual", "open")
        for m, s in combos:
            if q and (m, s) not in (("rustworkx", "rustworkx"),):
                continue
            add(*big, m, s, 1, kind[m], whole=True, flips=2, step=7 if q else 2, pool=(4, 10) if q else None, cost=5)
        for b in ("toric", "periodic"):
            m, s = ("rustworkx", "rustworkx") if b == "toric" else ("lemon", "rustworkx")
            add((3, 3, 3), ec, b, m, s, 1, kind[m], whole=True, flips=2, step=30 if q else 8, pool=(10, 13) if q else (0, 18), cyc=4 if q else 6, cost=5)
    out += backend_tasks()
    return out
