"""Histories of qubit additions, removals and queries."""
import numpy as np

from symcheck.api import Task

BOUNDS = ("every history of up to 3 (quick) / 4 (thorough) operations out of 10-20 kinds (additions with coordinates or automatic position, neighbours by position, by index or none, inside "
          "or outside of macronodes; removals by position or index; index and sparse/dense adjacency queries; invalid requests) on graphs with 1 to 4 vertices, canonical and macronized; "
          "the operation, its arguments and the edge weights in [-3,3] symbolic")
ASSUMPTIONS = ["positions and neighbours of valid requests lie on the graph (unknown neighbours are outside of the statement)",
               "edge weights are integers (the adjacency matrix is documented as int8)"]

START = {
    "dot": ([(1, 0, 0)], []),
    "path": ([(0, 0, 1), (2, 0, 0), (0, 1, 0)], [(0, 1), (1, 2)]),
    "square": ([(1, 1, 0), (0, 0, 0), (0, 1, 0), (1, 0, 0)], [(0, 2), (2, 1), (1, 3), (3, 0)]),
    "pair": ([(0, 0, 0), (0, 0, 1)], [(0, 1)]),
    "back": ([(1, -1, 0), (0, -1, 0), (-1, -1, 0)], [(0, 1), (1, 2)]),
    "bent": ([(0, 0, 0), (0, 0, 1), (0, 1, 0)], [(0, 1), (0, 2)]),
}
FRESH = [(0, 0, 5), (-1, 3, 0), (4, 0, 0), (0, 2, 2)]


class Model:
    """What the graph should contain."""

    def __init__(self, H, start, macro, pad=False):
        eg = H.mod("codes.graphs.egraph")
        g = eg.EGraph()
        pts, edges = START[start]
        for p in pts:
            g.add_node(p, tag=str(p))
        for k, (a, b) in enumerate(edges):
            g.add_edge(pts[a], pts[b], weight=H.int("w%d" % k, -3, 3))
        if macro:
            g = g.macronize(pad_boundary=pad)
        self.H, self.g, self.macro = H, g, macro
        self.nodes = set(g.nodes)
        self.attrs = {v: dict(g.nodes[v]) for v in g.nodes}
        self.edges = {frozenset(e[:2]): e[2].get("weight", 1) for e in g.edges(data=True)}
        self.md = {v: list(x) for v, x in g.macro_to_micro.items()} if macro else None
        self.index = None
        self.verify()

    def order(self):
        if not self.macro:
            return sorted(self.nodes)
        pts = [p for v in sorted(self.md) for p in self.md[v]]
        return pts + sorted(self.nodes - set(pts))

    def indexed(self):
        if self.index is None:
            self.index = {p: i for i, p in enumerate(self.order())}

    def verify(self):
        H, g = self.H, self.g
        H.check(set(g.nodes) == self.nodes, "the qubits are those added and not removed")
        got = {frozenset(e[:2]): e[2].get("weight", 1) for e in g.edges(data=True)}
        H.check(set(got) == set(self.edges), "the edges are those of the present qubits")
        H.check(H.all([got[e] == w for e, w in self.edges.items()]), "edge weights are kept")
        for v in self.attrs:
            H.check(dict(g.nodes[v]) == self.attrs[v], "attributes of existing qubits are kept")
        if self.index is None:
            H.check(g.to_indices is None and g.to_points is None, "no indices before they are generated")
        else:
            H.check(set(g.to_indices) == self.nodes and len(set(g.to_indices.values())) == len(self.nodes), "indices are a bijection from the present qubits")
            for p, i in self.index.items():
                H.check(g.to_indices[p] == i, "existing qubits keep their index")
            H.check(g.to_points == {i: p for p, i in g.to_indices.items()}, "the index tables are inverse to each other")
        if self.macro:
            H.check({v: sorted(x) for v, x in g.macro_to_micro.items()} == {v: sorted(x) for v, x in self.md.items()}, "macronodes list the present qubits")
        else:
            H.check(g.macro_to_micro is None, "no macronodes appear")

    # -- operations
    def add(self, q, nbrs=None, to_macro=None, by_index=False, many=True):
        g, H = self.g, self.H
        kw = {}
        if nbrs is not None:
            kw["neighbors"] = nbrs
        if to_macro is not None:
            kw["add_to_macronode"] = to_macro
        real = list(nbrs or [])
        if by_index:
            self.indexed()
            real = [next(p for p, i in self.index.items() if i == k) for k in nbrs]
        before = set(g.nodes)
        g.add_qubit(*([] if q is None else [q]), **kw)
        if q is None:
            new = set(g.nodes) - before
            H.check(len(new) == 1, "one qubit is added")
            (new,) = new
            H.check(new[0] == max(p[0] for p in before) + 1 and new[1:] == (0, 0), "the default position is one unit beyond the largest x")
            q = new
        self.nodes.add(q)
        self.attrs[q] = {}
        for p in real:
            self.edges[frozenset((p, q))] = 1
        if to_macro:
            self.md.setdefault(tuple(round(c) for c in q), []).append(q)
        if self.index is not None:
            H.check(q in g.to_indices, "new qubits get an index")
            i = g.to_indices[q]
            H.check(isinstance(i, (int, np.integer)) and i not in self.index.values(), "new qubits get an unused index")
            self.index[q] = i

    def remove(self, q, by_index=False):
        self.g.remove_qubit(self.index[q] if by_index else q)
        self.nodes.discard(q)
        self.attrs.pop(q, None)
        self.edges = {e: w for e, w in self.edges.items() if q not in e}
        if self.index is not None:
            del self.index[q]
        if self.macro:
            for v in list(self.md):
                if q in self.md[v]:
                    self.md[v].remove(q)
                    if not self.md[v]:
                        del self.md[v]

    def adjacency(self, sparse):
        H, g = self.H, self.g
        self.indexed()
        A = g.adj_generator() if sparse is None else g.adj_generator(sparse=sparse)
        if sparse is False:
            H.check(isinstance(A, np.ndarray), "a dense matrix is returned on request")
            D = A
        else:
            H.check(not isinstance(A, np.ndarray), "a sparse matrix is returned on request")
            D = A.toarray()
        H.check(g.adj_mat is A, "the matrix is stored")
        pts = sorted(self.nodes, key=lambda p: self.index[p])
        n = len(pts)
        H.check(tuple(D.shape) == (n, n), "one row per qubit")
        for i in range(n):
            for j in range(n):
                w = self.edges.get(frozenset((pts[i], pts[j])), 0) if i != j else 0
                H.check(D[i, j] == w, "the adjacency matrix holds the current edges in increasing order of index")

    def refused(self, what, f, *kinds):
        H = self.H
        try:
            f()
        except kinds or (Exception,):
            pass
        else:
            H.fail(what + " is rejected")

    def pick(self, tag, subset=False):
        pts = sorted(self.nodes)
        return self.H.subset(tag, pts) if subset else self.H.choose(tag, pts)


def fresh(M, macro):
    return next(p for p in FRESH if p not in M.nodes)


def step(M, t, ops, rich):
    H, g = M.H, M.g
    op = H.choose("op%d" % t, ops)
    pts = sorted(M.nodes)
    if op == "add":
        M.add(fresh(M, 0), *([[]] if t % 2 else []))
    elif op == "addnone":
        H.assume(bool(pts))
        M.add(None, pts[:1])
    elif op == "addpos":
        M.add(fresh(M, 0), M.pick("nb%d" % t, True) if rich else pts[-2:])
    elif op == "addind":
        H.assume(bool(pts))
        M.indexed()
        g.index_generator()
        ids = sorted(M.index.values())
        M.add(fresh(M, 0), [H.choose("ni%d" % t, ids)] if rich else [ids[-1]], by_index=True)
    elif op == "addind0":  # indices are generated on demand
        H.assume(bool(pts))
        M.indexed()
        M.add(fresh(M, 0), [H.choose("ni%d" % t, [min(M.index.values()), max(M.index.values())])], by_index=True)
    elif op == "addmac":
        v = H.choose("mc%d" % t, sorted(M.md)) if rich else (sorted(M.md) or [(9, 9, 9)])[-1]
        q = next(q for q in ((v[0] + 0.25, v[1], v[2]), (v[0], v[1] - 0.25, v[2]), (v[0], v[1], v[2] + 0.375), (v[0] - 0.375, v[1], v[2]), (v[0] - 0.3125, v[1], v[2])) if q not in M.nodes)
        M.add(q, pts[:1], True)
    elif op == "addnewmac":
        q = next(p for p in [(5.25, 0, 0), (6, 0.25, 0), (-3, 1, 0.25), (8.25, 1, 1)] if p not in M.nodes)
        M.add(q, None, True)
    elif op == "addplain":  # outside of the macronodes, though near one
        q = next(p for p in [(0.25, 0.25, 0), (7, 7, 7), (-0.25, 0, 0.25), (7, 7, 8)] if p not in M.nodes)
        M.add(q, pts[-1:], False)
    elif op == "rempos":
        H.assume(bool(pts))
        M.remove(M.pick("r%d" % t))
    elif op == "remind":
        H.assume(bool(pts))
        if M.index is None:
            M.refused("removal by index without indices", lambda: g.remove_qubit(0), ValueError)
        else:
            M.remove(M.pick("r%d" % t), by_index=True)
    elif op == "index":
        M.indexed()
        d = g.index_generator()
        H.check(d is g.to_indices, "the index table is returned")
    elif op == "sparse":
        H.assume(bool(pts))
        M.adjacency(True)
    elif op == "dense":
        H.assume(bool(pts))
        M.adjacency(False)
    elif op == "default":
        H.assume(bool(pts))
        M.adjacency(None)
    elif op == "invalid":
        kind = H.choose("inv%d" % t, ["dup", "dim2", "dim4", "list", "nbtype", "notmacro", "absent", "absentind", "remtype", "dupnone"])
        if kind in ("dup", "dupnone"):
            H.assume(bool(pts))
        if kind == "dup":
            M.refused("a duplicate position", lambda: g.add_qubit(pts[0], neighbors=pts[1:]), ValueError)
        elif kind == "dupnone":
            M.refused("a duplicate position", lambda: g.add_qubit(pts[-1], add_to_macronode=True if M.macro else None), ValueError)
        elif kind == "dim2":
            M.refused("a 2D position", lambda: g.add_qubit((0, 7), neighbors=pts[:1]), ValueError)
        elif kind == "dim4":
            M.refused("a 4D position", lambda: g.add_qubit((0, 7, 1, 1)), ValueError)
        elif kind == "list":
            M.refused("a position that is no tuple", lambda: g.add_qubit([0, 7, 1]), TypeError)
        elif kind == "nbtype":
            M.refused("neighbours of the wrong type", lambda: g.add_qubit((0, 7, 1), neighbors=[[0, 0, 0]]), TypeError)
        elif kind == "notmacro":
            if not M.macro:
                M.refused("an addition to a macronode of a canonical graph", lambda: g.add_qubit((0, 7, 1), add_to_macronode=True), ValueError)
        elif kind == "absent":
            M.refused("the removal of an absent qubit", lambda: g.remove_qubit((0, 7, 1)))
        elif kind == "absentind":
            k = 99 if M.index is None else max([-1] + list(M.index.values())) + 1
            M.refused("the removal of an absent index", lambda: g.remove_qubit(k))
        elif kind == "remtype":
            M.refused("the removal of something that is no qubit", lambda: g.remove_qubit("q"))
    M.verify()


def history(H, start, ops, length, macro=False, pad=False, rich=False, first=()):
    M = Model(H, start, macro, pad)
    for op in first:
        step(M, -1, [op], False)
    for t in range(length):
        step(M, t, ops, rich)
    if M.nodes:
        M.adjacency(bool(H.concrete(H.bit("form"))))
        M.verify()
        M.adjacency(False)
        M.adjacency(True)
    else:
        H.check(len(M.g) == 0, "an emptied graph is empty")


EDIT = ["add", "addpos", "addind", "rempos", "remind"]
ASK = ["index", "sparse", "dense"]
ALL = ["add", "addnone", "addpos", "addind", "addind0", "rempos", "remind", "index", "sparse", "dense", "default", "invalid"]
MAC = ["addmac", "addnewmac", "addplain", "rempos", "remind", "index", "sparse", "dense"]


def tasks(tier):
    q = tier == "quick"
    T = []
    for s in ("path", "pair") if q else ("dot", "path", "square", "pair", "bent"):
        T.append(Task("all-%s" % s, history, split=4 if q else 8, start=s, ops=ALL, length=2 if q else 3, rich=True, opts={"cost": 5}))
        T.append(Task("long-%s" % s, history, split=4, start=s, ops=["addpos", "rempos", "remind", "index", "sparse", "dense"], length=3 if q else 4, opts={"cost": 8}))
        T.append(Task("indexed-%s" % s, history, split=4, start=s, ops=EDIT, length=3, first=("index",), opts={"cost": 8}))
    T.append(Task("dot", history, start="dot", ops=ALL, length=2, rich=True))
    for s, pad in (("pair", False), ("bent", False), ("back", False), ("pair", True)) if q else (("pair", False), ("bent", False), ("back", False), ("pair", True), ("path", False), ("square", False), ("path", True)):
        n = "%s%s" % (s, "-pad" if pad else "")
        T.append(Task("macro-%s" % n, history, split=4 if q else 8, start=s, ops=MAC + ["invalid", "addind", "addnone"], length=2 if q else 3, macro=True, pad=pad, rich=not pad and (q or s in ("pair", "bent", "back")), opts={"cost": 8 if s != "square" else 20}))
        T.append(Task("macro-indexed-%s" % n, history, split=4, start=s, ops=["addmac", "addplain", "rempos", "remind", "dense"], length=2 if pad and q else 3, macro=True, pad=pad, first=("index",), opts={"cost": 8}))
    return T
