"""Peeling and spanning forests."""
from harness._uf import SHAPES, build, components, set_weight
from symcheck.api import Task

BOUNDS = ("peeling: every forest with up to 6 nodes (thorough 7) under every numbering of its nodes and edges orientations, and seven shapes with 7 and 8 nodes, every parity "
          "assignment that is even on every tree symbolic; branches of 1200 (thorough 4000) nodes with five symbolic parities; spanning forests: every graph with 4 nodes and 8 fixed graphs with up to 8 nodes, every edge "
          "empty, half-grown or grown and every syndrome symbolic; Union-Find followed by peeling on the same graphs, every erasure and syndrome symbolic")
ASSUMPTIONS = ["rustworkx minimum_spanning_tree and connected_components run natively on the concrete grown graph of each path"]


def forest(H, n, fixed=None):
    """Parent of every node, chosen without cycles over all labelled forests."""
    if fixed is not None:
        return [(i, p) for i, p in enumerate(fixed) if p is not None]
    edges = []
    # every labelled forest arises by adding edges in lexicographic order without closing cycles
    comp = components(range(n), [])
    for a in range(n):
        for b in range(a + 1, n):
            if not comp.same(a, b) and H.concrete(H.bit("e%d%d" % (a, b))):
                edges.append((a, b))
                comp.join(a, b)
    return edges


def peel(H, n, fixed=None, flip=False, orphans=True):
    import rustworkx as rx

    al = H.mod("decoders.unionfind.algos")
    edges = forest(H, n, fixed)
    g = rx.PyGraph()
    for k in range(n):
        g.add_node("n%d" % k)
    order = list(enumerate(edges))
    if flip:
        order = order[::-1]
    for k, (a, b) in order:
        a, b = (b, a) if flip and k % 2 else (a, b)
        g.add_edge(a, b, {"common_vertex": (k, 5, 7)})
    par = {k: H.bit("p%d" % k) for k in range(n)}
    comp = components(range(n), edges)
    for blk in comp.blocks():
        H.assume(H.xor([par[k] for k in blk]) == 0)
    given = {k: par[k] for k in par}
    out = al.peeling(g, given)
    labels = {(k, 5, 7): e for k, e in enumerate(edges)}
    out = list(out)
    H.check(len(set(out)) == len(out), "every edge at most once")
    for q in out:
        H.check(q in labels, "only edges of the forest are flipped")
    for k in range(n):
        deg = sum(1 for q in out if q in labels and k in labels[q])
        H.check(par[k] == deg % 2, "odd degree exactly at the odd nodes")


def long(H, n, bushy):
    """Branches longer than the default recursion limit of Python."""
    import sys

    import rustworkx as rx

    al = H.mod("decoders.unionfind.algos")
    g = rx.PyGraph()
    g.add_nodes_from(["n%d" % k for k in range(n)])
    parent = {}
    for k in range(1, n):
        parent[k] = k - 1 if not bushy or k % 50 else max(0, k - 40)
        g.add_edge(k, parent[k], {"common_vertex": (k, 5, 7)})
    marks = [0, 1, n // 2, n - 2, n - 1]
    par = {k: H.bit("p%d" % k) if k in marks else 0 for k in range(n)}
    H.assume(H.xor([par[k] for k in marks]) == 0)
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 1000)
    try:
        out = list(al.peeling(g, dict(par)))
    except RecursionError:
        H.fail("a long branch cannot be peeled")
    finally:
        sys.setrecursionlimit(old)
    H.check(len(set(out)) == len(out) and all(q[1:] == (5, 7) and q[0] in parent for q in out), "edges of the forest, each once")
    odd = [0] * n
    for q in out:
        odd[q[0]] ^= 1
        odd[parent[q[0]]] ^= 1
    for k in range(n):
        H.check(par[k] == odd[k], "odd degree exactly at the odd nodes")


def spanning(H, shape, backend, with_graph=True):
    """obtain_spanning_forest / span_forest for an arbitrary support table."""
    al = H.mod("decoders.unionfind.algos")
    uf = H.mod("decoders.unionfind.uf_classes")
    if shape == "any4":
        nstab, nbound = 4, 0
        edges = [(a, b) for a in range(4) for b in range(a)]
    else:
        nstab, nbound, edges = SHAPES[shape]
    bits = [H.bit("s%d" % k) for k in range(nstab)]
    g, nodes = build(H, backend, nstab, nbound, edges, bits)
    for a, b in edges:
        set_weight(g, nodes[a], nodes[b], 2)
    sup = uf.Support(g)
    grown = []
    for k, (a, b) in enumerate(edges):
        steps = 2 if H.concrete(H.bit("g%d" % k)) else (1 if k % 2 else 0)
        for _ in range(steps):
            sup.grow((nodes[a], nodes[b]))
        if steps == 2:
            grown.append((a, b))
    idx = {n: i for i, n in enumerate(nodes)}
    comp = components(range(len(nodes)), grown)
    bound = set(range(nstab, len(nodes)))
    par = {k: (bits[k] if k < nstab else 0) for k in range(len(nodes))}
    for blk in comp.blocks():
        if not blk & bound:
            H.assume(H.xor([par[k] for k in blk]) == 0)
    if not with_graph:
        f = sup.span_forest()
        parity = None
    else:
        f, parity = al.obtain_spanning_forest(g, sup)
    es = [(idx[f.get_node_data(u)], idx[f.get_node_data(v)]) for u, v in f.edge_list()]
    for u, v in es:
        H.check((u, v) in grown or (v, u) in grown, "only grown edges")
    got = components(range(len(nodes)), es)
    for a in range(len(nodes)):
        for b in range(a):
            H.check(got.same(a, b) == comp.same(a, b), "spans every grown cluster")
    H.check(len(es) == len(nodes) - len(got.blocks()), "no cycles")
    if parity is None:
        return
    number = {frozenset(e): k for k, e in enumerate(edges)}
    for (u, v) in f.edge_list():
        q = f.get_edge_data(u, v)["common_vertex"]
        H.check(q == (number[frozenset((idx[f.get_node_data(u)], idx[f.get_node_data(v)]))], 0, 0), "edge carries its qubit")
    at = {idx[f.get_node_data(i)]: i for i in f.node_indices()}
    for k in at:
        if k not in bound:
            H.check(parity[at[k]] == par[k], "parity of a stabilizer")
    for blk in comp.blocks():
        if len(blk) > 1:
            H.check(H.xor([parity[at[k]] for k in blk]) == 0, "every tree is even")


def decode(H, shape, backend, salt=0):
    """Union-Find and peeling together."""
    from harness.C10 import symbolic_graph

    g, nodes, edges, erased, bits = symbolic_graph(H, shape, backend)
    al = H.mod("decoders.unionfind.algos")
    nstab = len(bits)
    bound = set(range(nstab, len(nodes)))
    if not bound:
        for b in components(range(len(nodes)), edges).blocks():
            H.assume(H.xor([bits[k] for k in b]) == 0)

    class Code:
        primal_stab_graph = g

    tree, parity = al.uf_decode(Code(), "primal")
    idx = {n: i for i, n in enumerate(nodes)}
    es = {tree.get_edge_data(u, v)["common_vertex"]: (idx[tree.get_node_data(u)], idx[tree.get_node_data(v)]) for u, v in tree.edge_list()}
    comp = components(range(len(nodes)), es.values())
    at = {idx[tree.get_node_data(i)]: i for i in tree.node_indices()}
    for blk in comp.blocks():
        if len(blk) > 1:
            H.check(H.xor([parity[at[k]] for k in blk]) == 0, "every tree handed to peeling is even")
            if not blk & bound:
                H.check(H.xor([bits[k] for k in blk]) == 0, "an odd tree contains a boundary point")
        elif not blk & bound:
            H.check(bits[next(iter(blk))] == 0, "an odd stabilizer belongs to a tree")
    out = list(al.uf_decoder(Code(), "primal"))
    H.check(len(out) == len(set(out)) and all(q in [(k, 0, 0) for k in range(len(edges))] for q in out), "qubits of the graph, each once")
    for k in range(nstab):
        H.check(bits[k] == sum(1 for q in out if k in edges[q[0]]) % 2, "recovery reproduces the syndrome")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 7 if q else 8):
        for flip in (False, True):
            out.append(Task("peel-%d%s" % (n, "-flip" if flip else ""), peel, n=n, flip=flip, split=1 if n < 5 else (4 if n == 5 else 8)))
    big = {"path7": (None, 0, 1, 2, 3, 4, 5), "pathmix7": (3, None, 1, 2, 6, 0, 5), "star7": (6, 6, 6, 6, 6, 6, None), "binary7": (None, 0, 0, 1, 1, 2, 2),
           "spider7": (None, 0, 1, 0, 3, 0, 5), "two7": (None, 0, 1, None, 3, 4, 3), "fork8": (4, 4, 5, 5, 6, 6, 7, None)}
    for k, p in big.items():
        for flip in (False, True):
            out.append(Task("peel-%s%s" % (k, "-flip" if flip else ""), peel, n=len(p), fixed=p, flip=flip))
    for n, bushy in ((1200, False), (1200, True)) + (() if q else ((4000, False), (4000, True))):
        out.append(Task("long-%d%s" % (n, "-bushy" if bushy else ""), long, n=n, bushy=bushy, opts={"cost": 2}))
    for s in ("any4",) + tuple(SHAPES):
        for b in ("rustworkx", "networkx"):
            if q and s == "grid6" and b == "networkx":
                continue
            out.append(Task("forest-%s-%s" % (s, b), spanning, shape=s, backend=b, split=2 if s == "grid6" else 1))
            if q and s == "grid6":
                continue
            out.append(Task("decode-%s-%s" % (s, b), decode, shape=s, backend=b, salt=0 if b == "rustworkx" else 1, split=4 if s in ("grid6", "any4") else 1,
                            opts={"cost": 3}))
        out.append(Task("bare-%s" % s, spanning, shape=s, backend="rustworkx", with_graph=False))
    return out
