"""Stand-ins for native graph algorithms on symbolic weights.

Concrete arguments go to the real library. With symbolic weights the shortest
path routine is executed as a Python Dijkstra, and the matching routines are
replaced by their contract: some perfect (maximum cardinality) matching of
maximum total weight, any of them.
"""
import rustworkx as rx

from symcheck import core, npf
from symcheck.core import SymBase, Unsupported


def _edges(graph):
    for i in graph.edge_indices():
        a, b = graph.get_edge_endpoints_by_index(i)
        yield a, b, graph.get_edge_data_by_index(i)


def _weights(graph, fn, default):
    out = []
    for a, b, d in _edges(graph):
        out.append((a, b, default if fn is None else fn(d)))
    return out


def dijkstra(graph, source, weights):
    adj = {}
    for a, b, w in weights:
        adj.setdefault(a, []).append((b, w))
        if not isinstance(graph, rx.PyDiGraph):
            adj.setdefault(b, []).append((a, w))
    dist, path, done = {source: 0}, {source: [source]}, []
    todo = [source]
    while todo:
        best = todo[0]
        for n in todo[1:]:
            if dist[n] < dist[best]:
                best = n
        todo.remove(best)
        done.append(best)
        for m, w in adj.get(best, ()):
            if w < 0:
                raise Unsupported("negative weight")
            if m in done:
                continue
            d = dist[best] + w
            if m not in dist or d < dist[m]:
                if m not in dist:
                    todo.append(m)
                dist[m] = d
                path[m] = path[best] + [m]
    return dist, path


def _shortest(native, want):
    def g(graph, source, target=None, weight_fn=None, default_weight=1.0, *a, **k):
        if isinstance(target, SymBase) or callable(target):
            raise Unsupported("argument order")
        ws = _weights(graph, weight_fn, default_weight)
        if not any(isinstance(w, SymBase) for _, _, w in ws):
            return native(graph, source, target, weight_fn, default_weight, *a, **k)
        dist, path = dijkstra(graph, source, ws)
        res = dist if want == "length" else path
        return {n: v for n, v in res.items() if n != source and (target is None or n == target)}

    return g


def _lengths(native):
    def g(graph, node, edge_cost_fn, goal=None):
        ws = _weights(graph, edge_cost_fn, 1.0)
        if not any(isinstance(w, SymBase) for _, _, w in ws):
            return native(graph, node, edge_cost_fn, goal)
        dist, _ = dijkstra(graph, node, ws)
        return {n: v for n, v in dist.items() if n != node and (goal is None or n == goal)}

    return g


def perfect_matchings(nodes, edges):
    """All perfect matchings of the given edges."""
    nodes = list(nodes)
    if not nodes:
        yield []
        return
    a = nodes[0]
    for b in nodes[1:]:
        if (a, b) in edges:
            rest = [n for n in nodes if n not in (a, b)]
            for m in perfect_matchings(rest, edges):
                yield [(a, b)] + m


def pick_matching(nodes, weight):
    """Any perfect matching of maximum weight (weight: ordered pair -> number)."""
    ms = list(perfect_matchings(nodes, weight))
    if not ms:
        return None
    if len(ms) > 200:
        raise Unsupported("matching graph too large")
    tot = [npf.sum_list([0] + [weight[e] for e in m]) for m in ms]
    for m, t in zip(ms, tot):
        if core._tobool(core.bool_and([t >= u for u in tot])):
            return m
    raise Unsupported("no optimal matching")


def max_weight_matching(graph, max_cardinality=False, weight_fn=None, default_weight=1, verify_optimum=False):
    ws = _weights(graph, weight_fn, default_weight)
    if not any(isinstance(w, SymBase) for _, _, w in ws):
        return rx.max_weight_matching(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
    for _, _, w in ws:
        if isinstance(w, SymBase) and not w.isint:
            raise TypeError("rustworkx matching needs integer weights")
    if not max_cardinality:
        raise Unsupported("matching that is not perfect")
    weight = {}
    for a, b, w in ws:
        weight[a, b] = weight[b, a] = w
    m = pick_matching(list(graph.node_indices()), weight)
    if m is None:
        raise Unsupported("graph without perfect matching")
    return {(b, a) for a, b in m}


def mwpm(adjacency):
    """Contract of the LEMON wrapper: rows matched with maximum total entry."""
    import flamingpy.cpp.lemonpy as lp

    if not npf.has_sym(adjacency):
        import numpy as np

        return lp.__dict__["_native_mwpm"](np.asarray(adjacency, dtype=float))
    n = adjacency.shape[0]
    weight = {(i, j): adjacency[i, j] for i in range(n) for j in range(n) if i < j}
    m = pick_matching(range(n), weight)
    if m is None:
        raise Unsupported("odd number of rows")
    import numpy as np

    return np.array([[a, b] for a, b in m], dtype=int).reshape(-1, 2)


def facade():
    ov = {"max_weight_matching": max_weight_matching}
    for n in ("graph_dijkstra_shortest_paths", "dijkstra_shortest_paths"):
        ov[n] = _shortest(getattr(rx, n), "path")
    for n in ("graph_dijkstra_shortest_path_lengths", "dijkstra_shortest_path_lengths"):
        ov[n] = _lengths(getattr(rx, n))
    return npf.Facade(rx, ov)


def wrap_lemon(lp):
    """Route the compiled matching through the contract for symbolic weights."""
    if "_native_mwpm" not in lp.__dict__:
        lp._native_mwpm = lp.mwpm
        lp.mwpm = mwpm
