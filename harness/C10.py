"""Union-Find cluster bookkeeping."""
from harness._uf import SHAPES, Parts, build, components, set_weight
from symcheck.api import Task

BOUNDS = ("histories over 2 to 8 nodes (thorough 16; with more than 4, thorough 5, nodes only balanced unions in both orders): every sequence of unions, finds, parity queries and child additions following the patterns listed in the task names, "
          "every parity and every set of boundary points symbolic; cluster initialisation, support table, boundary lists and the full growth loop on every graph with "
          "4 nodes and on 8 fixed graphs with up to 8 nodes, every erasure, every syndrome and every sequence of up to 3 (thorough 4) growth steps symbolic")
ASSUMPTIONS = ["clusters are hashed by creation order (one alternative order per salt)"]


def history(H, n, pattern, nbound, salt=0):
    """Pattern letters: U union of two clusters, u union incl. of a cluster with itself, B union of the two smallest clusters in either
    order (deep trees), F find, P parity, A add a fresh child."""
    uf = H.mod("decoders.unionfind.uf_classes")
    union = H.mod("decoders.unionfind.algos").union
    par, node = {}, {}
    for k in range(n):
        node[k] = uf.Node(k)
        if k >= n - nbound:
            par[k] = 0
            uf.Root(node[k], parity="boundary")
        else:
            par[k] = H.bit("p%d" % k)
            uf.Root(node[k], parity=par[k])
    bound = set(range(n - nbound, n))
    ref = Parts(range(n))
    for step, c in enumerate(pattern):
        live = sorted(node)
        if c in "UuB":
            pairs = [(i, j) for i in live for j in live if (i != j and not ref.same(i, j)) or (c == "u" and i == j)]
            if c == "B":
                x, y = sorted(ref.blocks(), key=lambda b: (len(b), min(b)))[:2]
                pairs = [(min(x), min(y)), (min(y), max(x))]
            i, j = H.choose("o%d" % step, pairs)
            same = ref.same(i, j)
            r = union(node[i].find_root(), node[j].find_root())
            H.check((r is None) == same, "union of one cluster does nothing, of two merges them")
            if r is not None:
                sizes = (len(ref.block[i]), len(ref.block[j]))
                big, small = r
                H.check((big.id in ref.block[i]) == (sizes[0] >= sizes[1]) and (small.id in ref.block[i]) != (big.id in ref.block[i]),
                        "the smaller cluster is attached to the larger one")
            ref.join(i, j)
        elif c == "F":
            i = H.choose("o%d" % step, live)
            H.check(node[i].find_root().node.id in ref.block[i], "find returns the root of the cluster")
        elif c == "P":
            i = H.choose("o%d" % step, live)
            H.check(node[i].parity() == H.xor([par[k] for k in ref.block[i]]), "parity of the cluster of %s" % i)
        elif c == "A":
            i = H.choose("o%d" % step, live)
            k = len(node)
            node[k] = uf.Node(k)
            (node[i].find_root() if H.concrete(H.bit("root%d" % step)) else node[i]).add_child(node[k])
            par[k] = 0
            ref.block[k] = {k}
            ref.join(i, k)
    verify(H, node, ref, par, bound)


def members(root):
    out, todo = [], [root.node]
    while todo:
        x = todo.pop()
        out.append(x.id)
        todo.extend(x.children)
    return out


def verify(H, node, ref, par, bound, order=None):
    roots = {i: node[i].find_root() for i in (order or list(node))}
    for i in node:
        H.check(roots[i] is not None, "every node has a root")
        for j in node:
            H.check((roots[i] is roots[j]) == ref.same(i, j), "same root iff connected by unions")
    for b in ref.blocks():
        r = roots[next(iter(b))]
        H.check(r.size == len(b), "size is the number of members")
        H.check(r.parity == H.xor([par[k] for k in b]), "parity is the sum of the parities of the members")
        H.check(bool(r.boundary) == bool(b & bound), "boundary flag")
        if r.boundary:
            H.check(r.boundary.id in b & bound, "the boundary node is a boundary point of the cluster")
        H.check(len(members(r)) == len(b) and set(members(r)) == set(b), "the tree holds exactly the members of the cluster")
    for i in node:
        H.check(node[i].find_root() is roots[i], "finds never change membership")


# ------------------------------------------------------------------ graphs
def symbolic_graph(H, shape, backend, erasures=True, parities=True):
    """(graph, node objects, edges as index pairs, erased flags, parity bits)."""
    if shape == "any4":
        nstab, nbound = 4, 0
        edges = [(a, b) for a in range(4) for b in range(a)]
        edges = [e for e in edges if H.concrete(H.bit("edge%s%s" % e))]
        for k in range(4):
            H.assume(any(k in e for e in edges))
    else:
        nstab, nbound, edges = SHAPES[shape]
    bits = [H.bit("s%d" % k) if parities else k % 2 for k in range(nstab)]
    g, nodes = build(H, backend, nstab, nbound, edges, bits)
    erased = []
    for k, (a, b) in enumerate(edges):
        w = H.ite(H.bit("e%d" % k) == 1, -1, 2) if erasures else 2
        if erasures:
            era = H.decide(w == -1)
            w = -1 if era else 2
        else:
            era = False
        set_weight(g, nodes[a], nodes[b], w)
        erased.append(era)
    return g, nodes, edges, erased, bits


def initialise(H, shape, backend, grows, salt=0):
    """initialize_cluster_trees, Support, Boundary, growth steps, prune."""
    g, nodes, edges, erased, bits = symbolic_graph(H, shape, backend, parities=not grows)
    al = H.mod("decoders.unionfind.algos")
    uf = H.mod("decoders.unionfind.uf_classes")
    node_dict, trees, odd = al.initialize_cluster_trees(g)
    nstab = len(bits)
    par = {n: (bits[i] if i < nstab else 0) for i, n in enumerate(nodes)}
    bound = set(nodes[nstab:])
    ref = components(nodes, [(nodes[a], nodes[b]) for (a, b), e in zip(edges, erased) if e])
    H.check(set(node_dict) == set(nodes), "one node for every stabilizer and boundary point")
    verify(H, node_dict, ref, par, bound)
    H.check(sorted(map(id, trees)) == sorted({id(node_dict[n].find_root()) for n in nodes}), "one cluster per connected component")
    for t in trees:
        b = ref.block[t.node.id]
        H.check(H.iff(H.all([H.xor([par[k] for k in b]) == 1, not (b & bound)]), any(t is o for o in odd)), "odd clusters are listed")
    # support table and growth
    sup = uf.Support(g)
    state = {k: (2 if e else 0) for k, e in enumerate(erased)}
    bdry = {t.node.id: uf.Boundary(t, sup, g) for t in trees}

    def outer(b):
        return {n for n in b if any(n in (nodes[x], nodes[y]) and state[k] < 2 for k, (x, y) in enumerate(edges))}

    for t in trees:
        H.check({n.id for n in bdry[t.node.id].nodes} == outer(ref.block[t.node.id]), "initial boundary of a cluster")
    for s in range(grows):
        k = H.choose("g%d" % s, list(range(len(edges))))
        a, b = edges[k]
        e = (nodes[a], nodes[b]) if s % 2 else (nodes[b], nodes[a])
        r = sup.grow(e)
        state[k] += 1
        H.check(bool(r) == (state[k] == 2), "an edge is reported grown at its second half step only")
        if r:
            H.check(set(r) == set(e), "the grown edge is returned")
    for t in trees:
        x = bdry[t.node.id]
        x.prune(sup, g)
        H.check({n.id for n in x.nodes} == outer(ref.block[t.node.id]), "pruning keeps exactly the nodes with a not-yet-grown edge")
        H.check(bool(x.nodes) == bool(outer(ref.block[t.node.id])), "pruned boundary")
    # what has been grown is what the forest is made of
    forest = sup.span_forest(g)
    comp = components(nodes, [(nodes[a], nodes[b]) for k, (a, b) in enumerate(edges) if state[k] >= 2])
    got = components(nodes, [(forest.get_node_data(u), forest.get_node_data(v)) for u, v in forest.edge_list()])
    H.check(all(comp.same(x, y) == got.same(x, y) for x in nodes for y in nodes), "the forest spans the grown edges")


def growth(H, shape, backend, salt=0, erasures=True):
    """The complete find-and-union loop."""
    g, nodes, edges, erased, bits = symbolic_graph(H, shape, backend, erasures)
    al = H.mod("decoders.unionfind.algos")
    uf = H.mod("decoders.unionfind.uf_classes")
    nstab = len(bits)
    bound = set(nodes[nstab:])
    if not bound:
        whole = components(nodes, [(nodes[a], nodes[b]) for a, b in edges])
        for b in whole.blocks():
            H.assume(H.xor([bits[nodes.index(n)] for n in b]) == 0)
    par = {n: (bits[i] if i < nstab else 0) for i, n in enumerate(nodes)}
    node_dict, trees, odd = al.initialize_cluster_trees(g)
    sup = uf.Support(g)
    boundary = {t.node: uf.Boundary(t, sup, g) for t in trees}
    al.union_find(odd, boundary, g, sup, node_dict)
    status = {frozenset(k): v for k, v in sup.status.items()}
    H.check(set(status) == {frozenset((nodes[a], nodes[b])) for a, b in edges}, "the support table holds every edge")
    grown = [(nodes[a], nodes[b]) for a, b in edges if status[frozenset((nodes[a], nodes[b]))] == "grown"]
    for (a, b), e in zip(edges, erased):
        if e:
            H.check((nodes[a], nodes[b]) in grown, "erased edges stay grown")
    ref = components(nodes, grown)
    verify(H, node_dict, ref, par, bound)
    for b in ref.blocks():
        if not b & bound:
            H.check(H.xor([par[n] for n in b]) == 0, "no odd cluster is left without a boundary point")
    # growth stops for clusters that are even from the start: nothing grows if nothing is odd
    start = components(nodes, [(nodes[a], nodes[b]) for (a, b), e in zip(edges, erased) if e])
    quiet = H.all([H.xor([par[n] for n in b]) == 0 for b in start.blocks() if not b & bound])
    touched = any(v != "empty" for k, v in status.items() if k not in {frozenset((nodes[a], nodes[b])) for (a, b), e in zip(edges, erased) if e})
    H.check(H.iff(quiet, not touched), "clusters grow iff some cluster is odd and away from the boundary")


def tasks(tier):
    q = tier == "quick"
    out = []

    def hist(n, pattern, nb, split=1, salt=0):
        out.append(Task("history-%d-%s-b%d-s%d" % (n, pattern, nb, salt), history, n=n, pattern=pattern, nbound=nb, split=split, salt=salt,
                        opts={"cost": 3}))

    for nb in (0, 2):
        hist(4, "UUUF", nb)
    hist(3, "UFUFP", 1)
    hist(3, "uUAU", 1)
    hist(3, "UAFU", 1)
    hist(2, "UAFAP", 1)
    hist(4, "UUAP", 1, salt=1)
    hist(4, "UUUFP", 1, 2)
    hist(4, "UFUUF", 2, 2, salt=1)
    hist(4, "uUAU", 1, 2)
    hist(8, "BBBBBBBF", 0, 2)
    hist(8, "BBBBBBB", 3, 2, salt=1)
    if not q:
        for nb in (0, 1, 2, 3, 4):
            hist(4, "UUUFP", nb, 4)
        hist(4, "UFUUF", 1, 4, salt=1)
        hist(4, "UAFAP", 1, 4)
        hist(4, "uUAU", 1, 4)
        hist(4, "UAUUF", 2, 8)
        hist(4, "uuuuF", 1, 8)
        hist(5, "UUUU", 2, 4)
        hist(9, "BBBBBBFBBF", 2, 8)
        hist(7, "UBBBBBF", 1, 8)
        hist(16, "B" * 15, 2, 8)
        hist(5, "UUUUF", 1, 8)
    for s in ("path3b", "star", "cycle4", "ladder") + (() if q else ("house", "path4", "path6b")):
        for b in ("rustworkx", "networkx"):
            if q and b == "networkx" and s != "ladder":
                continue
            for gr in (0, 1, 2, 3) + (() if q else (4,)):
                if q and gr not in ((0, 3) if s == "path3b" else (0, 2)):
                    continue
                out.append(Task("init-%s-%s-g%d" % (s, b, gr), initialise, shape=s, backend=b, grows=gr, split=1 if q else 4, opts={"cost": 2}))
    out.append(Task("init-any4-g0", initialise, shape="any4", backend="rustworkx", grows=0, split=2))
    for s in ("any4",) + tuple(SHAPES):
        for b in ("rustworkx", "networkx"):
            for salt in (0, 1) if q else (0, 1, 2):
                if q and (b == "networkx") != (salt == 1) or (q and s == "grid6" and salt):
                    continue
                out.append(Task("growth-%s-%s-s%d" % (s, b, salt), growth, shape=s, backend=b, salt=salt, split=4 if s in ("grid6", "any4") else 1,
                                opts={"cost": 4 if s in ("grid6", "any4", "house") else 1}))
    return out
