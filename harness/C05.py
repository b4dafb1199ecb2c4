"""The cluster-state lattice: structure, trivial syndrome, polarity."""
import itertools as it

import numpy as np

from harness._codes import Lattice, make, name
from symcheck.api import Task

BOUNDS = ("neighbour rule for every integer vertex of each parity class (coordinates up to 2*10^6 in size), polarity for the vertices with no negative coordinate around them, and every real displacement; "
          "lattices of every boundary combination with sides 2 to 4 (thorough 5) and elongated ones with one side of 9 or 66; every position bit and every edge weight symbolic")
ASSUMPTIONS = []

CLASSES = [(0, 1, 1), (1, 0, 1), (1, 1, 0)]  # parity of the coordinates of primal vertices


def vertex(H, cls, tag="v", lo=-10**6):
    return tuple(2 * H.int("%s%s" % (tag, a), lo, 10**6) + c for a, c in zip("xyz", cls))


def rule(H, cls):
    """Neighbours of a primal vertex: exactly the opposite-type points one step away."""
    sc = H.mod("codes.surface_code")
    p = vertex(H, cls)
    disp = H.real("disp") if H.decide(H.bit("usedisp") == 1) else None
    got = sc.dual_neighbours(p) if disp is None else sc.dual_neighbours(p, displace=disp)
    s = 1 if disp is None else disp
    want = []
    for i in range(3):
        if cls[i]:
            for sg in (1, -1):
                q = list(p)
                q[i] = q[i] + sg * s
                want.append(tuple(q))
    H.check(len(got) == 4, "four neighbours")
    for w in want:
        H.check(H.any([H.all([a == b for a, b in zip(w, g)]) for g in got]), "unit step along an odd coordinate is a neighbour")
    for g in got:
        H.check(H.any([H.all([a == b for a, b in zip(w, g)]) for w in want]), "nothing else is a neighbour")
    if disp is None:
        for g in got:
            par = [c % 2 for c in g]
            H.check(H.total(par) == 1, "neighbours are dual vertices")


def polarity(H, cls):
    """Two edges of each sign at every vertex, both orientations alike."""
    sc = H.mod("codes.surface_code")
    # lattice coordinates are not negative (numpy refuses negative integer powers)
    p = vertex(H, cls, lo=0 if cls.count(1) == 2 else 1)
    if cls.count(1) == 2:
        nb = sc.dual_neighbours(p)
    else:
        nb = []
        for i in range(3):
            if not cls[i]:
                for sg in (1, -1):
                    q = list(p)
                    q[i] = q[i] + sg
                    nb.append(tuple(q))
    tot = 0
    for q in nb:
        w = sc.alternating_polarity((p, q))
        H.check(H.any([w == 1, w == -1]), "weight is +1 or -1")
        H.check(w == sc.alternating_polarity((q, p)), "same weight for both orientations")
        H.check(w == sc.alternating_polarity([list(p), list(q)]), "list arguments give the same weight")
        tot = tot + w
    H.check(tot == 0, "two edges of each sign")


class Box(Lattice):
    """Lattice with arbitrary boundary types."""

    def __init__(self, dims, kinds):
        self.dims, self.kinds = tuple(dims), tuple(kinds)
        self.rng = [{"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(0, 2 * d)}[k] for k, d in zip(kinds, dims)]
        pts = list(it.product(*self.rng))
        self.primal = {p for p in pts if sum(c % 2 for c in p) == 2}
        self.dual = {p for p in pts if sum(c % 2 for c in p) == 1}
        self.vertices = self.primal | self.dual


def structure(H, G, lat, polar=None):
    edges = {}
    for v in lat.primal:
        for w in lat.neighbours(v):
            edges.setdefault(frozenset((v, w)), 0)
    touched = {v for e in edges for v in e}
    H.check(set(G.nodes) == touched, "vertices of the lattice")
    H.check({frozenset(e) for e in G.edges} == set(edges), "edges join exactly the opposite-type vertices one step apart")
    for v in G.nodes:
        H.check(G.nodes[v].get("type") == ("primal" if v in lat.primal else "dual"), "type of vertex %s" % (v,))
    for u, v, d in G.edges(data=True):
        wrap = any(abs(a - b) > 1 for a, b in zip(u, v))
        if polar is None:
            H.check(d.get("weight") == 1, "default weight 1")
        else:
            H.check(d.get("weight") == polar[frozenset((u, v))], "weight given by the polarity function")
        if min(lat.dims) > 1:
            H.check(bool(d.get("periodic")) == wrap, "periodic edges are marked")


def graph(H, dims, form):
    """RHG_graph for every combination of boundaries."""
    sc = H.mod("codes.surface_code")
    kinds = [H.choose("k%d" % i, ["primal", "dual", "periodic"]) for i in range(3)]
    lat = Box(dims, kinds)
    polar, fn = None, None
    if form == "polar":
        polar = {}

        def fn(edge):
            k = frozenset(edge)
            H.check(len(k) == 2, "polarity is asked about an edge")
            if k not in polar:
                polar[k] = H.real("w%s" % (sorted(k),))
            return polar[k]

    arg = {"tuple": tuple(dims), "list": list(dims), "array": np.array(dims), "polar": tuple(dims)}[form]
    G = sc.RHG_graph(arg, kinds if form != "array" else np.array(kinds), polarity=fn) if form != "tuple" else sc.RHG_graph(arg, np.array(kinds))
    structure(H, G, lat, polar)


def named(H, dims):
    """Boundary names."""
    sc = H.mod("codes.surface_code")
    names = {
        "open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"), "primal": ("primal",) * 3,
        "dual": ("dual",) * 3, "periodic": ("periodic",) * 3, "periodic_primal": ("periodic", "periodic", "primal"),
        "periodic_dual": ("periodic", "periodic", "dual"),
    }
    b = H.choose("b", sorted(names) + ["default"])
    if b == "default":
        structure(H, sc.RHG_graph(dims), Box(dims if isinstance(dims, tuple) else (dims,) * 3, names["primal"]))
        return
    structure(H, sc.RHG_graph(dims, b), Box(dims if isinstance(dims, tuple) else (dims,) * 3, names[b]))


def syndrome(H, dims, ec, bound, pol):
    """Any position bits leave every stabilizer even; every polarity pattern."""
    sc = H.mod("codes.surface_code")
    signs = {}

    def anysign(edge):
        k = frozenset(edge)
        if k not in signs:
            signs[k] = 1 - 2 * H.bit("s%s" % (sorted(k),))
        return signs[k]

    fn = {"pol": sc.alternating_polarity, "any": anysign, "nopol": None}[pol]
    code = make(H, dims, ec, bound, polarity=fn)
    lat = Lattice(dims, ec, bound)
    structure(H, code.graph, lat, {frozenset(e): fn(e) for e in code.graph.edges} if fn else None)
    q = {v: H.bit("q%s" % (v,)) for v in sorted(code.graph.nodes)}
    H.check(len(getattr(code, ec + "_stabilizers")) == len(lat.checks), "number of stabilizers")
    for v in code.graph.nodes:
        code.graph.nodes[v]["bit_val"] = H.xor([q[u] if code.graph[v][u]["weight"] % 2 else 0 for u in sorted(code.graph[v])])
    want = {frozenset(f) for f in lat.checks.values()}
    for s in getattr(code, ec + "_stabilizers"):
        H.check(frozenset(s.coords()) in want and len(s.coords()) == len(set(s.coords())), "stabilizer is the faces of one cell")
        H.check(s.parity == 0, "noiseless stabilizer is even")
    H.check(sorted(code.all_syndrome_coords) == sorted(lat.qubits_checked()), "syndrome qubits are the faces of the cells")
    # position bits are arbitrary: signs only matter modulo 2
    for s in getattr(code, ec + "_stabilizers"):
        tot = []
        for v in s.coords():
            for u in sorted(code.graph[v]):
                tot.append(code.graph[v][u]["weight"] * q[u])
        H.check(H.total(tot) % 2 == 0, "sum of neighbour contributions over a stabilizer is even")


def qubits_checked(self):
    return {f for fs in self.checks.values() for f in fs}


Lattice.qubits_checked = qubits_checked


def tasks(tier):
    q = tier == "quick"
    out = [Task("rule-%d%d%d" % c, rule, cls=c) for c in CLASSES]
    out += [Task("polarity-%d%d%d" % c, polarity, cls=c) for c in CLASSES + [(1, 0, 0), (0, 1, 0), (0, 0, 1)]]
    for d in [(2, 3, 2), (3, 2, 3)] + ([] if q else [(3, 3, 4), (4, 2, 3)]):
        for f in ("tuple", "list", "array", "polar"):
            if f in ("tuple", "polar") or d == (2, 3, 2):
                out.append(Task("graph-%d%d%d-%s" % (d + (f,)), graph, dims=d, form=f, opts={"validate": 2}))
    out += [Task("named-3", named, dims=3), Task("named-234", named, dims=(2, 3, 4))]
    sizes = [(2, 2, 2), (3, 3, 3), (2, 3, 4), (4, 3, 2), (9, 2, 2), (2, 9, 2), (2, 2, 9), (66, 2, 2), (2, 66, 2), (2, 3, 66)] + ([] if q else [(4, 4, 4), (5, 4, 3), (5, 5, 5)])
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for d in sizes:
                for pol in ("pol", "nopol") if d == (3, 3, 3) else ("pol", "any"):
                    if d[0] * d[1] * d[2] > 30 and pol == "any":
                        continue
                    out.append(Task("syndrome-%s-%s" % (name(d, ec, b), pol), syndrome, dims=d, ec=ec, bound=b, pol=pol))
    return out
