"""Shortest-path queries on the stabilizer graph are exact."""
from harness._codes import Lattice, make, name
from harness.C06 import expected, key
from symcheck.api import Task

BOUNDS = ("open 2x2x2 lattices (thorough: 3x2x2) of both complexes, toric and periodic 3x3x3, 2 to 3 (thorough 5) qubits with symbolic "
          "non-negative real or integer weights over several base weightings including zero weights; every source; both backends and the networkx conversion")
ASSUMPTIONS = ["on symbolic weights rustworkx's Dijkstra is executed as a Python Dijkstra (same result contract: one shortest path per reachable "
               "node, source left out); networkx runs as it is"]

BASES = {"one": (1,), "mixed": (3, 0, 2, 5), "half": (0.5, 2.25, 1)}


def query(H, dims, ec, bound, stabg, src, nsym, kind, base, step):
    """stabg "converted": the networkx conversion of the rustworkx graph."""
    code = make(H, dims, ec, bound, stabg.replace("converted", "rustworkx"))
    lat = Lattice(dims, ec, bound)
    qs = sorted(lat.qubits)
    g = getattr(code, ec + "_stab_graph")
    first = H.choose("first", list(range(0, len(qs) - nsym + 1, step)))
    # the symbolic qubits are spread over the lattice
    sym = [qs[(first + i * (len(qs) // nsym)) % len(qs)] for i in range(nsym)] if step == 1 else qs[first:first + nsym]
    weight = {}
    for i, q in enumerate(qs):
        if q in sym:
            weight[q] = H.real("w%s" % (q,), lo=0) if kind == "real" else H.int("w%s" % (q,), 0)
        else:
            weight[q] = BASES[base][i % len(BASES[base])]
        code.graph.nodes[q]["weight"] = weight[q]
    g.assign_weights(code)
    if stabg == "converted":
        g = g.to_nx()
    labelled, low, high, _ = expected(lat)
    nodes = {key(n): n for n in g.nodes()}
    edges = {}
    for q, e in labelled.items():
        edges[e] = weight[q]
    connect = src in ("low", "high")
    if connect:
        for c, pts in (("low", low), ("high", high)):
            for p in pts:
                edges[frozenset([c, p])] = 0
    if src == "low":
        s, (lengths, paths) = "low", g.shortest_paths_from_low()
    elif src == "high":
        s, (lengths, paths) = "high", g.shortest_paths_from_high()
    else:
        start = H.choose("src", sorted(lat.checks)[: src])
        s = ("stab", frozenset(lat.checks[start]))
        lengths, paths = g.shortest_paths_without_high_low(nodes[s])
    dist = {s: 0}
    for n, d in lengths.items():
        if key(n) != s:
            dist[key(n)] = d
    allowed = {v for e in edges for v in e}
    H.check(set(dist) == allowed, "exactly the reachable nodes have a distance")
    H.check({key(n) for n in paths} | {s} == allowed, "exactly the reachable nodes have a path")
    for n, path in paths.items():
        k = [key(m) for m in path]
        if key(n) == s:
            continue
        H.check(k[0] == s and k[-1] == key(n), "path runs from the source to the node")
        steps = [frozenset(e) for e in zip(k, k[1:])]
        if not connect:
            H.check("low" not in k and "high" not in k, "connectors are not used between stabilizers")
        H.check(all(e in edges for e in steps), "path follows edges of the stabilizer graph")
        H.check(H.close(dist[key(n)], H.total([edges[e] for e in steps])), "length is the sum of the weights along the path")
    conds = []
    for e, w in edges.items():
        a, b = tuple(e)
        conds += [H.leq(dist[a], dist[b] + w), H.leq(dist[b], dist[a] + w)]
    H.check(H.all(conds), "no path is shorter")


def tasks(tier):
    q = tier == "quick"
    out = []

    def add(dims, ec, bound, stabg, src, nsym, kind, base, step, split=1, cost=1):
        n = "%s-%s-%s-%s%s-%s-%s" % (name(dims, ec, bound), stabg, src, nsym, kind, base, step)
        out.append(Task(n, query, dims=dims, ec=ec, bound=bound, stabg=stabg, src=src, nsym=nsym, kind=kind, base=base, step=step,
                        split=split, opts={"cost": cost}))

    for ec in ("primal", "dual"):
        for s in ("rustworkx", "networkx"):
            for src in ("low", "high", 2 if q else 9):
                for n, kind, base, step in ((3, "real", "one", 3), (2, "real", "one", 4), (2, "int", "mixed", 4), (1, "real", "half", 4)):
                    if q and s == "networkx" and base == "mixed":
                        continue
                    add((2, 2, 2), ec, "open", s, src, n, kind, base, step)
                if not q:
                    add((2, 2, 2), ec, "open", s, src, 3, "real", "one", 1, split=4)
                    add((2, 2, 2), ec, "open", s, src, 4, "real", "mixed", 3, split=8)
                    big = (3, 2, 2) if ec == "primal" else (2, 3, 2)
                    add(big, ec, "open", s, src, 2, "real", "half", 2, split=8)
        for src in ("low", "high", 2 if q else 9):
            add((2, 2, 2), ec, "open", "converted", src, 1, "real", "half", 4)
        for s in ("rustworkx", "networkx"):
            for b in ("toric", "periodic"):
                add((3, 3, 3), ec, b, s, 1 if q else 3, 1, "real", "half", 40 if q else 9, cost=4)
    return out
