"""Macronization of canonical graphs."""
import itertools as it

import numpy as np

from harness._codes import make, name
from symcheck.api import Task

BOUNDS = ("displacement: every real number (symbolic); graphs: every star around one vertex with any subset of the six unit directions, each edge ordinary or periodic, with symbolic "
          "node, edge and graph attributes and any subset of perfect points; paths, squares, a cube, diagonal and long edges; the open, toric and periodic codes with sides 2 and 3; with and without padding")
ASSUMPTIONS = ["exact real arithmetic (a displacement below the spacing of floating-point numbers is outside)", "every vertex has an edge, no two neighbours of a vertex lie in the same direction",
               "padding is checked on graphs whose vertices have at most four neighbours along the axes, as documented (RHG connectivity)"]


def rint(H, x):
    return H.floor(x + 0.5) if H.symbolic else round(x)


def near(H, a, b):
    return H.close(a, b, 1e-9)


def run(H, g, pad, disp, tag="", egraph=True):
    """Macronize the EGraph g and compare with the definition."""
    eg = H.mod("codes.graphs.egraph")
    before = (dict(g.graph), {v: dict(d) for v, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)})
    bad = H.decide(H.any([disp <= 0, disp >= 0.5]))
    try:
        m = g.macronize(pad_boundary=pad, disp=disp) if egraph else eg.EGraph(eg.macronize(g, pad, disp), macronodes=True)
    except ValueError:
        H.check(bad, "displacements between 0 and 1/2 are accepted")
        return None
    H.check(not bad, "displacements outside (0, 1/2) are rejected")
    # the canonical graph is left alone
    after = (dict(g.graph), {v: dict(d) for v, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)})
    H.check([list(x) for x in before] == [list(x) for x in after], "the canonical graph keeps its nodes and edges")
    for x, y in zip(before[1:], after[1:]):
        for k in x:
            H.check(x[k].keys() == y[k].keys() and all(x[k][a] is y[k][a] for a in x[k]), "the canonical graph keeps its attributes")
    # graph attributes
    for a, v in before[0].items():
        if a not in ("perfect_points", "macro_dict"):
            H.check(m.graph[a] is v, "graph attributes are kept")
    md = m.graph["macro_dict"]
    H.check(m.macro_to_micro is md, "the macronode dictionary is attached")
    verts = sorted(g.nodes)
    H.check(sorted(md) == verts, "every vertex has a macronode")
    # micronodes
    allm, owner = [], []
    for v in verts:
        deg = g.degree[v]
        want = max(deg, 4) if pad else deg
        H.check(len(md[v]) == want, "one micronode per incident edge, padded to four")
        for mp in md[v]:
            H.check(len(mp) == 3, "micronodes are points")
            for c, x in zip(v, mp):
                H.check(rint(H, x) == c, "micronodes round to their central vertex")
                H.check(H.all([x - c < 0.5, c - x < 0.5]), "micronodes stay within half a unit of their vertex")
            H.check(mp in m.nodes, "listed micronodes are nodes of the graph")
            allm.append(mp)
            owner.append(v)
    H.check(len(m) == len(allm), "no node outside of the macronodes")
    buckets = {}
    for i, v in enumerate(owner):
        buckets.setdefault(v, []).append(allm[i])
    for v, pts in buckets.items():  # points of different macronodes round differently
        for a, b in it.combinations(pts, 2):
            H.check(H.not_(H.all([x == y for x, y in zip(a, b)])), "micronodes are distinct")
    # attributes of the nodes
    for v, pts in buckets.items():
        for mp in pts:
            d = m.nodes[mp]
            ref = before[1][v]
            H.check(d.keys() == ref.keys() and all(d[a] is ref[a] for a in ref), "micronodes carry the attributes of their vertex")
    # dumbbells
    place = {}
    for i, mp in enumerate(allm):
        place[id(mp)] = owner[i]
    seen = {}
    for a, b, d in m.edges(data=True):
        ends = frozenset((centre(H, a), centre(H, b)))
        H.check(ends in before[2], "edges join micronodes of adjacent vertices")
        H.check(ends not in seen, "one dumbbell per edge")
        seen[ends] = d
        ref = before[2][ends]
        H.check(d.keys() == ref.keys() and all(d[k] is ref[k] for k in ref), "dumbbells keep the attributes of their edge")
    H.check(len(seen) == len(before[2]), "every edge becomes a dumbbell")
    for v, pts in buckets.items():
        degs = [m.degree[mp] for mp in pts]
        H.check(sorted(degs, reverse=True) == [1] * g.degree[v] + [0] * (len(pts) - g.degree[v]), "one edge per micronode, padding is isolated")
    # position along the edge
    for (a, b, d) in m.edges(data=True):
        u, v = centre(H, a), centre(H, b)
        vec = np.array(v, dtype=float) - np.array(u, dtype=float)
        s = -1 if d.get("periodic") else 1
        for axis in range(3):
            du, dv = a[axis] - u[axis], b[axis] - v[axis]
            if vec[axis] == 0:
                H.check(H.all([near(H, du, 0), near(H, dv, 0)]), "micronodes lie on their edge")
            else:
                w = s * (1 if vec[axis] > 0 else -1)
                H.check(H.all([du * w > 0, dv * w < 0]), "micronodes are displaced towards each other")
    # perfect points
    if before[0].get("perfect_points"):
        pp = m.graph["perfect_points"]
        want = [mp for v in before[0]["perfect_points"] for mp in md[v]]
        H.check(len(pp) == len(want) and all(p in pp for p in want) and all(p in want for p in pp), "all micronodes of perfect vertices are perfect")
    else:
        H.check(not m.graph.get("perfect_points"), "no perfect points appear")
    # indices
    idx = m.index_generator()
    H.check(idx is m.to_indices and len(idx) == len(allm) and sorted(idx.values()) == list(range(len(allm))), "indices are a bijection onto the modes")
    pos = 0
    for v in verts:
        got = [m.to_points[i] for i in range(pos, pos + len(md[v]))]
        H.check(all(p in md[v] for p in got), "indices run macronode by macronode in sorted order")
        H.check(all(idx[m.to_points[i]] == i for i in range(pos, pos + len(md[v]))), "the two index tables are inverse")
        pos += len(md[v])
    return m


def centre(H, p):
    return tuple(H.as_int(rint(H, x)) for x in p)


def displacement(H):
    # (hints: typical values, only for concrete runs on code that could not be encoded)
    return H.real("disp", hints=(0, 0.05, 0.1, 0.125, 0.2, 0.01, 0.25, 0.375, 0.4375))


def attrs(H, g, perfect):
    for k, v in enumerate(sorted(g.nodes)):
        g.nodes[v]["bit_val"] = H.bit("b%d" % k)
        if k % 2:
            g.nodes[v]["color"] = "c%d" % k
    for k, e in enumerate(sorted(g.edges)):
        if k % 3 != 1:
            g.edges[e]["weight"] = H.int("w%d" % k, -3, 3)
        if k % 3 == 2:
            g.edges[e]["color"] = "e%d" % k
    g.graph["label"] = "some graph"
    if perfect is not None:
        g.graph["perfect_points"] = perfect


def star(H, pad, explicit, origin=(0, 0, 0), full=True):
    """A vertex with any of the six directions, each ordinary or periodic."""
    g = H.mod("codes.graphs.egraph").EGraph()
    dirs = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    n = 0
    pp = H.concrete(H.bit("pp"))
    far = H.concrete(H.bit("far")) if full else pp
    flip = H.concrete(H.bit("flip")) if full else pp
    for k, d in enumerate(dirs):
        kind = H.choose("d%d" % k, ["no", "unit", "periodic"] if full or k < 4 else ["no", ["unit", "periodic"][pad]])
        if kind == "no" or (pad and n == 4):
            continue
        n += 1
        s = 1 if kind == "unit" else (-4 if far else -3)
        p = tuple(o + s * x for o, x in zip(origin, d))
        if flip:
            g.add_edge(p, origin)
        else:
            g.add_edge(origin, p)
        if kind == "periodic":
            g.edges[p, origin]["periodic"] = True
        elif explicit:
            g.edges[p, origin]["periodic"] = False
    H.assume(n > 0)
    pool = sorted(g.nodes)
    perfect = [origin] + pool[-1:] if pp else None
    attrs(H, g, perfect)
    # the displacement stays symbolic
    run(H, g, pad, displacement(H))


SHAPES = {
    "path": [((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (0, 0, 2)), ((0, 0, 2), (0, 0, 3))],
    "square": [((0, 0, 0), (1, 0, 0)), ((1, 0, 0), (1, 1, 0)), ((1, 1, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 0))],
    "cube": [(a, b) for a, b in it.combinations(list(it.product((0, 1), repeat=3)), 2) if sum(x != y for x, y in zip(a, b)) == 1],
    "diagonal": [((0, 0, 0), (1, 1, 1)), ((0, 0, 0), (1, 1, 0)), ((0, 0, 0), (-1, 2, 0)), ((1, 1, 1), (3, 3, 0))],
    "long": [((0, 0, 0), (3, 0, 0)), ((3, 0, 0), (3, 2, 0)), ((3, 2, 0), (-4, 2, 0))],
    "negative": [((-5, -2, 0), (-5, -2, 1)), ((-5, -2, 0), (-6, -2, 0)), ((-6, -2, 0), (-6, -2, 1))],
}


def shape(H, which, pad, plain, full=True):
    eg = H.mod("codes.graphs.egraph")
    edges = SHAPES[which]
    if plain:
        import networkx as nx

        g = nx.Graph()
    else:
        g = eg.EGraph()
    order = list(range(len(edges)))
    if H.concrete(H.bit("rev")):
        order.reverse()
    for k in order:
        a, b = edges[k]
        if H.concrete(H.bit("o%d" % (k % 3 if full else 0))):
            a, b = b, a
        g.add_edge(a, b)
    perfect = H.subset("p", sorted(g.nodes)[:3])
    attrs(H, g, perfect)
    run(H, g, pad, displacement(H), egraph=not plain)


def code(H, dims, ec, bound, pad, polarity=False, defaults=False):
    sc = H.mod("codes.surface_code")
    c = make(H, dims, ec, bound, polarity=sc.alternating_polarity if polarity else None)
    g = c.graph
    pts = sorted(g.nodes)
    perfect = pts[::7] if H.concrete(H.bit("pp")) else None
    if perfect is not None:
        g.graph["perfect_points"] = perfect
    for k, v in enumerate(pts):
        g.nodes[v]["bit_val"] = H.bit("b%d" % (k % 5))
    if defaults:
        eg = H.mod("codes.graphs.egraph")
        m = eg.macronize(g)
        H.check(sorted(len(x) for x in m.graph["macro_dict"].values()) == sorted(g.degree[v] for v in g), "no padding unless requested")
        m = eg.macronize(g, pad_boundary=True)
        H.check(all(len(x) == 4 for x in m.graph["macro_dict"].values()), "padding to four micronodes")
        return
    run(H, g, pad, displacement(H))


def layer(H, dims, ec, bound):
    """The macronized graph used by the noise layer has four modes per qubit."""
    c = make(H, dims, ec, bound)
    m = H.mod("noise.cv").CVMacroLayer(c, delta=0.1).egraph
    H.check(sorted(m.macro_to_micro) == sorted(c.graph.nodes), "one macronode per qubit")
    for v, pts in m.macro_to_micro.items():
        H.check(len(set(pts)) == 4 and all(tuple(round(x) for x in p) == v for p in pts), "four modes per macronode")
    H.check(len(m) == 4 * len(c.graph), "four modes per macronode")
    H.check(H.bit("x") >= 0, "reached")


def tasks(tier):
    o = {"hash_reals": True}
    T = []
    for pad in (False, True):
        for ex in (False, True):
            T.append(Task("star-%s%s" % ("pad" if pad else "bare", "-explicit" if ex else ""), star, split=8 if tier != "quick" else 4, pad=pad, explicit=ex, full=tier != "quick", opts=dict(o, cost=10),
                          origin=(2, 1, 0) if ex else (0, 0, 0)))
        for w in SHAPES:
            for plain in (False, True):
                T.append(Task("shape-%s-%d%d" % (w, pad, plain), shape, which=w, pad=pad and w not in ("diagonal",), plain=plain, full=tier != "quick", opts=dict(o)))
    codes = [((2, 2, 2), ec, b) for ec in ("primal", "dual") for b in ("open", "toric", "periodic")]
    codes += [((3, 2, 2), "primal", "open"), ((2, 3, 2), "dual", "toric")]
    if tier != "quick":
        codes += [((3, 3, 3), ec, b) for ec in ("primal", "dual") for b in ("open", "toric", "periodic")] + [((2, 3, 4), "primal", "periodic")]
    for k, (d, ec, b) in enumerate(codes):
        for pad in (False, True):
            T.append(Task("code-%s-%d" % (name(d, ec, b), pad), code, dims=d, ec=ec, bound=b, pad=pad, polarity=bool(k % 2), opts=dict(o, cost=3)))
        T.append(Task("default-%s" % name(d, ec, b), code, dims=d, ec=ec, bound=b, pad=False, defaults=True))
        T.append(Task("layer-%s" % name(d, ec, b), layer, dims=d, ec=ec, bound=b))
    return T
