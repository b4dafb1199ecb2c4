"""The stabilizer graph represents single-qubit flips."""
from collections import Counter

from harness._codes import Lattice, cur, make, name, put_bits
from symcheck.api import Task

BOUNDS = ("open, toric and periodic lattices of both complexes with sides 2 to 4 (thorough 5) and elongated ones with one side of 6 to 66 (periodic directions of length 2 only with the weaker claim), "
          "every bit pattern, every flipped qubit, every real weight; both backends and their networkx conversion")
ASSUMPTIONS = ["rustworkx and networkx containers run natively (they store and return the payloads they are given)"]


def key(n):
    """Backend independent name of a stabilizer-graph node."""
    return n if isinstance(n, (str, tuple)) else ("stab", frozenset(n.coords()))


def expected(lat):
    """label -> (end, end) and connector -> boundary points."""
    own = {}
    for f in lat.checks.values():
        for q in f:
            own.setdefault(q, []).append(("stab", frozenset(f)))
    edges, low, high = {}, set(), set()
    axis = 0 if lat.ec == "primal" else 1
    for q, cs in own.items():
        if len(cs) == 2:
            edges[q] = frozenset(cs)
        else:
            edges[q] = frozenset([cs[0], q])
            (low if q[axis] == min(lat.rng[axis]) else high).add(q)
    return edges, low, high, own


def read(H, g):
    """Edges of a stabilizer graph: labelled ones and connector edges."""
    lab, con = {}, {"low": [], "high": []}
    for u, v in g.edges():
        d = g.edge_data(u, v)
        ku, kv = key(u), key(v)
        if ku in con or kv in con:
            c, o = (ku, kv) if ku in con else (kv, ku)
            con[c].append(o)
            H.check(d["common_vertex"] is None, "connector edges carry no qubit")
            continue
        q = d["common_vertex"]
        H.check(q not in lab, "a qubit labels one edge")
        lab[q] = frozenset([ku, kv])
        H.check(g.edge_data(v, u)["common_vertex"] == q, "same edge in both orientations")
    return lab, con


def structure(H, dims, ec, bound, stabg, strict):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    bits = put_bits(H, code)
    g = getattr(code, ec + "_stab_graph")
    edges, low, high, own = expected(lat)
    for tag, h in (("graph", g), ("nx", g.to_nx())):
        lab, con = read(H, h)
        if strict:
            H.check(lab == edges, "labelled edges of the %s" % tag)
        else:
            H.check({e for e in lab.values()} == {e for e in edges.values()}, "edges of the %s" % tag)
            for q, e in lab.items():
                H.check(edges.get(q) == e, "label belongs to both ends")
        H.check(sorted(con["low"]) == sorted(low) and sorted(con["high"]) == sorted(high), "connectors of the %s" % tag)
    for h in (g, g.to_nx()):
        H.check(sorted(h.low_bound_points) == sorted(low) and sorted(h.high_bound_points) == sorted(high), "boundary points by face")
        H.check(sorted(h.bound_points()) == sorted(low | high), "all boundary points")
        H.check(bool(h.has_bound_points()) == bool(low | high), "has_bound_points")
        H.check(Counter(map(key, h.real_nodes())) == Counter(set().union(*edges.values())), "real nodes")
        H.check(list(map(id, h.stabilizers)) == list(map(id, g.stabilizers)), "stabilizers of the converted graph")
    H.check(len(list(g.nodes())) == len(lat.checks) + len(low) + len(high) + 2, "number of nodes")
    H.check(len(list(g.real_edges())) == len(set(edges.values())), "real edges")
    adj = {}
    for e in set(edges.values()):
        a, b = tuple(e)
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    for pts, c in ((low, "low"), (high, "high")):
        for p in pts:
            adj.setdefault(c, set()).add(p)
            adj.setdefault(p, set()).add(c)
    for n in g.nodes():
        H.check({key(m) for m in g.neighbors(n)} == adj.get(key(n), set()), "neighbors of a node")
        oe = [(key(a), key(b)) for a, b in g.out_edges(n)]
        H.check(all(key(n) in e for e in oe) and {a if b == key(n) else b for a, b in oe} == adj.get(key(n), set())
                and len(oe) == len(set(oe)), "edges incident to a node")
    return code, lat, bits, g


def flips(H, dims, ec, bound, stabg, strict):
    """Flipping a qubit toggles exactly the stabilizers at the ends of its edge."""
    code, lat, bits, g = structure(H, dims, ec, bound, stabg, strict)
    stabs = list(getattr(code, ec + "_stabilizers"))
    H.check(list(map(id, stabs)) == list(map(id, g.stabilizers)), "stabilizers of the graph")
    before = [s.parity for s in stabs]
    lab, _ = read(H, g)
    for q in sorted(lat.vertices):
        code.graph.nodes[q]["bit_val"] = bits[q] ^ 1
        for s, b in zip(stabs, before):
            moved = s.parity != b
            H.check(H.iff(moved, q in lab and key(s) in lab[q]) if q in lab or strict else H.iff(moved, q in s.coords()), "flip of %s toggles the ends of its edge" % (q,))
        code.graph.nodes[q]["bit_val"] = bits[q]
    odd = {key(s) for s in g.odd_parity_stabilizers()} if len(stabs) <= 8 else None
    if odd is not None:
        for s, b in zip(stabs, before):
            H.check(H.iff(b == 1, key(s) in odd), "odd stabilizers")


def weights(H, dims, ec, bound, stabg):
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    g = getattr(code, ec + "_stab_graph")
    for rnd in range(2):
        w = {q: H.real("w%d%s" % (rnd, q)) for q in sorted(lat.vertices)}
        for q in w:
            code.graph.nodes[q]["weight"] = w[q]
        g.assign_weights(code)
        nx = g.to_nx()
        for h in (g, nx):
            for u, v in h.edges():
                d = h.edge_data(u, v)
                if d["common_vertex"] is None:
                    H.check(d["weight"] == 0, "connector edges weigh nothing")
                else:
                    H.check(d["weight"] == w[d["common_vertex"]], "edge weighs what its qubit weighs (assignment %d)" % rnd)


def tasks(tier):
    q = tier == "quick"
    out = []
    sizes = {"open": [(2, 2, 2), (3, 2, 2), (2, 3, 4), (3, 3, 3), (8, 2, 2), (2, 8, 2), (2, 2, 8), (66, 2, 2), (2, 66, 2), (2, 2, 66)], "toric": [(3, 3, 2), (3, 4, 3), (2, 2, 2), (6, 3, 2), (3, 6, 2), (3, 3, 7)],
             "periodic": [(3, 3, 3), (4, 3, 3), (2, 3, 2), (6, 3, 3), (3, 6, 3), (3, 3, 6), (33, 2, 2), (2, 33, 2), (2, 2, 66)]}
    if not q:
        sizes["open"] += [(4, 4, 4), (5, 5, 5)]
        sizes["toric"] += [(4, 4, 4), (5, 4, 3)]
        sizes["periodic"] += [(4, 4, 4), (3, 5, 4)]
    for ec in ("primal", "dual"):
        for b, ds in sizes.items():
            for d in ds:
                per = {"open": 0, "toric": 2, "periodic": 3}[b]
                strict = all(x > 2 for x in d[:per])
                for g in ("networkx", "rustworkx"):
                    out.append(Task("flips-%s-%s" % (name(d, ec, b), g), flips, dims=d, ec=ec, bound=b, stabg=g, strict=strict, opts={"cost": d[0] * d[1] * d[2]}))
                    if d != (3, 3, 3) or b == "open":
                        out.append(Task("weights-%s-%s" % (name(d, ec, b), g), weights, dims=d, ec=ec, bound=b, stabg=g))
    return out
