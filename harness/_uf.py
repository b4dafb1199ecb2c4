"""Hand-built stabilizer graphs and an independent bookkeeping of clusters."""
import itertools as it


class Parts:
    """Reference partition of nodes: list of frozensets."""

    def __init__(self, nodes):
        self.block = {n: {n} for n in nodes}

    def join(self, a, b):
        if self.block[a] is not self.block[b]:
            x = self.block[a] | self.block[b]
            for n in x:
                self.block[n] = x

    def same(self, a, b):
        return self.block[a] is self.block[b]

    def blocks(self):
        out = []
        for b in self.block.values():
            if not any(b is c for c in out):
                out.append(b)
        return out


def components(nodes, edges):
    p = Parts(nodes)
    for a, b in edges:
        p.join(a, b)
    return p


SHAPES = {
    # name: (stabilizers, boundary points, edges)
    "path4": (4, 0, [(0, 1), (1, 2), (2, 3)]),
    "path3b": (3, 2, [(3, 0), (0, 1), (1, 2), (2, 4)]),
    "star": (4, 1, [(0, 1), (0, 2), (0, 3), (0, 4)]),
    "cycle4": (4, 0, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    "ladder": (4, 2, [(0, 1), (2, 3), (0, 2), (1, 3), (4, 0), (5, 3)]),
    "house": (5, 1, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 5)]),
    "grid6": (6, 2, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5), (6, 0), (5, 7)]),
    "path6b": (5, 1, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]),
}


def build(H, backend, nstab, nbound, edges, bits):
    """Stabilizer graph with the given topology.

    Node k < nstab is a stabilizer whose parity is bits[k], the others are
    boundary points attached to low / high.  Edge number e belongs to the qubit
    (e, 0, 0).
    """
    sg = H.mod("codes.graphs.stabilizer_graph")
    g = {"rustworkx": sg.RxStabilizerGraph, "networkx": sg.NxStabilizerGraph}[backend]()
    EGraph = H.mod("codes.graphs.egraph").EGraph
    Stabilizer = H.mod("codes.stabilizer").Stabilizer
    nodes = []
    for k in range(nstab):
        e = EGraph()
        # the parity is carried by two qubits
        e.add_node((k, 1, 1), bit_val=bits[k])
        e.add_node((k, 1, 2), bit_val=0)
        nodes.append(Stabilizer(e))
    for k in range(nbound):
        nodes.append((9, k, 9))
    g.add_stabilizers(nodes[:nstab])
    lows = nodes[nstab:][::2]
    highs = nodes[nstab:][1::2]
    g.add_low_bound_points(lows)
    g.add_high_bound_points(highs)
    for i, (a, b) in enumerate(edges):
        g.add_edge(nodes[a], nodes[b], (i, 0, 0))
    for p in lows:
        set_weight(g, "low", p, 0)
    for p in highs:
        set_weight(g, "high", p, 0)
    return g, nodes


def set_weight(g, a, b, w):
    g.edge_data(a, b)["weight"] = w
