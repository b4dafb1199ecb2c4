"""Matching graphs and their backends on symbolic weights."""
import itertools as it
from fractions import Fraction

from harness._lemon import backend_tasks
from symcheck.api import Task

BOUNDS = ("complete graphs on 2, 4 and 6 nodes (and the empty graph) with all weights (K2, K4) or up to 6 (K6; thorough more) of the weights symbolic, the others fixed, several kinds of node labels, "
          "orders and orientations of insertion; integer weights for each backend, real weights for networkx and LEMON, up to two real weights in [0,2) for rustworkx (fixed-point matching); repeated additions of an edge")
ASSUMPTIONS = ["the compiled LEMON wrapper (lemonpy-* tasks, 4 to 132 rows) runs as LLVM IR against stand-ins for LEMON, by its contract, and pybind11", "on symbolic weights rustworkx's and LEMON's matching are replaced by their contract (any optimal perfect matching of the graph handed to them); networkx runs as it is",
               "exact real arithmetic: LEMON's single precision and rustworkx's fixed-point rounding (2^-32) are outside"]

CLASSES = {"networkx": "NxMatchingGraph", "rustworkx": "RxMatchingGraph", "lemon": "LemonMatchingGraph"}
LABELS = {
    "points": [(0, 0, 3), (2, 1, 0), (1, 1, 1), (0, 5, 0), (3, 3, 3), (2, 0, 2)],
    "virtual": [(1, 1, 1), ((0, 1, 1), 0), (3, 1, 1), ((4, 1, 1), 1), (1, 1, 3), ((0, 1, 1), 2)],
    "ints": [5, 3, 1, 0, 4, 2],
    "names": ["low", "b", "high", "a", "d", "c"],
}
FIXED = [2, 0, 5, 1, 3, 3, 7, 2, 4, 1, 6, 0, 2, 5, 3]


def graph(H, backend):
    return getattr(H.mod("decoders.mwpm.matching"), CLASSES[backend])("primal")


def perfect(nodes):
    if not nodes:
        yield []
        return
    a = nodes[0]
    for b in nodes[1:]:
        for m in perfect([n for n in nodes if n not in (a, b)]):
            yield [(a, b)] + m


def fill(H, g, n, labels, sym, kind, hi=None, offgrid=False):
    """A complete graph with its weights and paths."""
    nodes = LABELS[labels][:n]
    pairs = list(it.combinations(range(n), 2))
    order = list(pairs)
    if H.concrete(H.bit("rev")):
        order.reverse()
    w, path = {}, {}
    for k, (i, j) in enumerate(pairs):
        if sym == "all" or k in sym:
            x = H.int("w%d" % k, 0, hi) if kind == "int" else H.real("w%d" % k, lo=0, **({} if hi is None else {"lt": hi}))
        else:
            x = FIXED[k] if kind == "int" else FIXED[k] / 4 + 0.125 if offgrid else FIXED[k] / 2
        w[frozenset((nodes[i], nodes[j]))] = x
        path[frozenset((nodes[i], nodes[j]))] = [nodes[i], "via%d" % k, nodes[j]]
    flip = H.concrete(H.bit("flip"))
    for k, (i, j) in enumerate(order):
        a, b = nodes[i], nodes[j]
        if flip and k % 2:
            a, b = b, a
        e = frozenset((a, b))
        if k % 3 == 2:
            g.add_edge((a, b), w[e])
            path[e] = []
        else:
            g.add_edge((a, b), w[e], path[e])
    return nodes, w, path


def stored(H, g, nodes, w, path):
    for a, b in it.permutations(nodes, 2):
        e = frozenset((a, b))
        H.check(H.close(g.edge_weight((a, b)), w[e]), "the weight of an edge is the one stored, in both directions")
        H.check(list(g.edge_path((a, b))) == path[e], "the path of an edge is the one stored, in both directions")


def optimal(H, g, nodes, w, tol=0):
    m = g.min_weight_perfect_matching()
    m = list(m)
    H.check(all(len(e) == 2 and e[0] in nodes and e[1] in nodes for e in m), "the matching uses the caller's labels")
    H.check(sorted([str(x) for e in m for x in e]) == sorted(map(str, nodes)), "the matching is perfect")
    tot = H.total([w[frozenset(e)] for e in m])
    H.check(H.close(g.total_weight_of(m), tot), "the total weight is the sum of the weights")
    for o in perfect(nodes):
        H.check(H.leq(tot, H.total([w[frozenset(e)] for e in o]) + tol), "no perfect matching is lighter")
    return m, tot


def complete(H, backend, n, labels, sym, kind, hi=None, tol=0, convert=True, offgrid=False):
    g = graph(H, backend)
    H.check(g.ec == "primal" and list(g.virtual_points) == [], "a new matching graph is empty")
    nodes, w, path = fill(H, g, n, labels, sym, kind, hi, offgrid)
    m, tot = optimal(H, g, nodes, w, tol)
    stored(H, g, nodes, w, path)
    ordered = [(a, b) for a, b in it.combinations(nodes, 2)]
    H.check(H.close(g.total_weight_of(ordered[::2]), H.total([w[frozenset(e)] for e in ordered[::2]])), "the total weight of any set of edges is the sum of their weights")
    H.check(g.total_weight_of([]) == 0, "no edges weigh nothing")
    if convert and backend != "networkx":
        ref(H, g, nodes, w, path)


def ref(H, g, nodes, w, path):
    x = g.to_nx()
    H.check(type(x).__name__ == "NxMatchingGraph" and x.ec == g.ec, "converted to the reference backend")
    H.check(set(x.graph.nodes) == set(nodes) and {frozenset(e) for e in x.graph.edges} == set(w), "conversion keeps nodes and edges")
    stored(H, x, nodes, w, path)
    for e in w:
        d = x.graph.edges[tuple(e)]
        H.check(H.close(d["inverse_weight"], -w[e]), "the reference backend stores inverse weights")
    return x


def overwrite(H, backend, n, labels):
    """The last weight and path given for an edge count."""
    g = graph(H, backend)
    nodes = LABELS[labels][:n]
    pairs = list(it.combinations(nodes, 2))
    w, path = {}, {}
    for k, e in enumerate(pairs):
        g.add_edge(e, FIXED[k], ["old"])
        w[frozenset(e)], path[frozenset(e)] = FIXED[k], ["old"]
    for t in range(2):
        e = H.choose("e%d" % t, pairs)
        x = H.int("x%d" % t, 0)
        if H.concrete(H.bit("f%d" % t)):
            e = (e[1], e[0])
        g.add_edge(e, x, ["new%d" % t])
        w[frozenset(e)], path[frozenset(e)] = x, ["new%d" % t]
    stored(H, g, nodes, w, path)
    optimal(H, g, nodes, w)
    if backend != "networkx":
        ref(H, g, nodes, w, path)


def repeat(H, backend, labels):
    """Matching does not change the graph; two graphs do not share anything."""
    g, o = graph(H, backend), graph(H, backend)
    nodes, w, path = fill(H, g, 4, labels, (0, 3), "int")
    H.check(len(list(o.min_weight_perfect_matching())) == 0, "the empty graph has the empty matching")
    m1, _ = optimal(H, g, nodes, w)
    m2, _ = optimal(H, g, nodes, w)
    stored(H, g, nodes, w, path)
    a = ("new", 1), ("new", 2)
    g.add_edge(a, 7, [1, 2])
    for x in a:
        for k, v in enumerate(nodes):
            g.add_edge((x, v), 50 + k)
            w[frozenset((x, v))], path[frozenset((x, v))] = 50 + k, []
    w[frozenset(a)], path[frozenset(a)] = 7, [1, 2]
    nodes = nodes + list(a)
    optimal(H, g, nodes, w)
    stored(H, g, nodes, w, path)
    if backend != "networkx":
        ref(H, g, nodes, w, path)


def tasks(tier):
    q = tier == "quick"
    T = []
    for b in CLASSES:
        for lab in LABELS:
            T.append(Task("K2-%s-%s" % (b, lab), complete, backend=b, n=2, labels=lab, sym="all", kind="int" if b == "rustworkx" else "real"))
            T.append(Task("over-%s-%s" % (b, lab), overwrite, backend=b, n=4, labels=lab, opts={"cost": 3}))
            T.append(Task("repeat-%s-%s" % (b, lab), repeat, backend=b, labels=lab, opts={"cost": 3}))
        for lab in ("points", "virtual") if q else LABELS:
            T.append(Task("K4-%s-%s-int" % (b, lab), complete, split=4 if b == "networkx" else 1, backend=b, n=4, labels=lab, sym="all" if b != "networkx" or not q else (0, 1, 3, 5), kind="int", opts={"cost": 9}))
            if b != "rustworkx":
                T.append(Task("K4-%s-%s-real" % (b, lab), complete, split=4 if b == "networkx" else 1, backend=b, n=4, labels=lab, sym="all" if b != "networkx" or not q else (0, 2, 3, 4), kind="real", opts={"cost": 9}))
            else:
                for s in ((0,), (5,), (1, 2)) if q else ((0,), (3,), (5,), (1, 2), (0, 5)):
                    T.append(Task("K4-%s-%s-frac%s" % (b, lab, s), complete, backend=b, n=4, labels=lab, sym=s, kind="real", hi=2, tol=Fraction(6, 2**32), opts={"cost": 5}))
                    T.append(Task("K4-%s-%s-off%s" % (b, lab, s), complete, backend=b, n=4, labels=lab, sym=s, kind="real", hi=2, tol=Fraction(6, 2**32), offgrid=True, opts={"cost": 5}))
        for lab, s in (("virtual", (0, 4, 9, 14)), ("points", (1, 5, 8, 12, 13))) if q else (("virtual", (0, 4, 9, 14)), ("points", (1, 5, 8, 12, 13)), ("ints", tuple(range(8))), ("names", tuple(range(5, 15)))):
            if b == "networkx":
                s = s[:2] if q else s[:3]
            T.append(Task("K6-%s-%s" % (b, lab), complete, split=4, backend=b, n=6, labels=lab, sym=s, kind="int", opts={"cost": 20}))
    T += backend_tasks()
    return T
