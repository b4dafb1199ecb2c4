"""Drawing changes nothing and shows what is there."""
import networkx as nx
import numpy as np

from harness import C25
from harness._codes import Lattice, make, name
from symcheck.api import Task

BOUNDS = ("decoding with and without drawing: every syndrome of 2x2x2 open codes, up to 2 flips on 3x3x3, 2x3x4 and 3x2x2 codes with open, toric and periodic boundaries, both decoders, each backend of the matching and stabilizer "
          "graphs, uniform and outcome-based weights, every drawing option, and a second trial after the drawing; pictures of graph states: lattices with sides 2 and a 5-node graph, attributes of up to 5 nodes and 3 edges "
          "symbolic (or missing); drawings of codes with symbolic weights on up to 4 nodes and some edges; labels of all multiples of sqrt(pi)/2 up to 60")
ASSUMPTIONS = ["the calls to matplotlib, plotly and the drawing functions of networkx are recorded and not executed", "exact real arithmetic",
               "native matching and shortest paths as in the properties of decoding"]


# ------------------------------------------------------------------ recording
class Rec:
    """Stands for any drawing object; all calls are logged."""

    def __init__(self, log, path=""):
        self.__dict__.update(_log=log, _path=path)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Rec(self._log, a)

    def __setattr__(self, a, v):
        pass

    def __call__(self, *a, **k):
        self._log.append((self._path, a, k))
        if self._path == "subplots":
            return Rec(self._log), Rec(self._log)
        if self._path == "make_axes":
            return Rec(self._log), {}
        if self._path in ("get_legend", "show"):
            return None
        if self._path in ("get_xlim", "get_ylim", "get_zlim"):
            return (0, 1)
        return Rec(self._log)


class Over:
    """A module with some names replaced."""

    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, a):
        return getattr(self._base, a)


class Cubes:
    def __init__(self, verts, *a, **k):
        self.verts, self.args, self.kw = verts, a, k


class Trace:
    """A plotly object: remembers its arguments."""

    made = None

    def __init__(self, *a, **k):
        self.args, self.kw = a, k
        self.data = []

    def add_traces(self, t, *a, **k):
        self.data += list(t) if isinstance(t, (list, tuple)) else [t]
        return self

    add_trace = add_traces


def record(H):
    """The drawing module with its outputs logged."""
    viz = H.mod("utils.viz")
    log = []
    r = Rec(log)
    for n in ("plt", "mlines", "Patch"):
        H.patch(viz, n, Rec(log, n))
    H.patch(viz, "mpl", Over(viz.mpl, cm=r, colorbar=r, colors=r))
    H.patch(viz, "Poly3DCollection", Cubes)
    H.patch(viz, "nx", Over(viz.nx, **{n: Rec(log, n) for n in dir(nx) if n.startswith("draw")}))
    H.patch(viz, "go", Over(viz.go, Scatter3d=Trace, Figure=Trace, Layout=Trace))
    return viz, log


def scalar(x):
    return x.item() if isinstance(x, (np.generic, np.ndarray)) and np.size(x) == 1 else x


def dots(log):
    """The single points drawn: (position, colour)."""
    out = []
    for what, a, k in log:
        if what == "scatter":
            xs, ys, zs = (np.atleast_1d(np.asarray(t, dtype=object)) for t in a[:3])
            c = k.get("c", k.get("color"))
            for i in range(len(xs)):
                col = c[i] if isinstance(c, (list, tuple, np.ndarray)) and len(c) == len(xs) and not isinstance(c, str) else c
                out.append(((float(xs[i]), float(zs[i]), float(ys[i])), col))
    return out


def curves(log):
    """The lines drawn: (positions, colour, marker only)."""
    out = []
    for what, a, k in log:
        if what == "plot" and len(a) >= 3:
            xs, ys, zs = (np.atleast_1d(np.asarray(t, dtype=object)) for t in a[:3])
            out.append(([(float(x), float(z), float(y)) for x, y, z in zip(xs, ys, zs)], k.get("c", k.get("color"))))
    return out


def cubes(log):
    """The cubes drawn: (centre, face colours)."""
    out = []
    for what, a, k in log:
        if what.startswith("add_collection"):
            p = a[0]
            if not isinstance(p, Cubes):
                raise NotImplementedError("cubes drawn in another way")
            verts = np.asarray(p.verts, dtype=float)
            col = p.kw.get("facecolors", p.kw.get("facecolor"))
            for i in range(0, len(verts), 6):
                lo, hi = verts[i:i + 6].min(axis=(0, 1)), verts[i:i + 6].max(axis=(0, 1))
                x, z, y = (lo + hi) / 2
                out.append(((round(x, 6), round(y, 6), round(z, 6)), tuple(hi - lo), {str(c) for c in np.atleast_1d(col)[i:i + 6]} if np.ndim(col) else {str(col)}))
    return out


def drawn_with(log, *names):
    """The pictures are read from calls to these functions."""
    if not any(what in names for what, a, k in log):
        raise NotImplementedError("drawn with other functions than %s" % (names,))


def red(colour):
    """Whether an #RRGGBBAA colour is red (True), green (False) or neither."""
    r, g = int(colour[1:3], 16), int(colour[3:5], 16)
    return True if r > g else False if g > r else None


# ------------------------------------------------------------------ checks of the pictures
def syndrome_picture(H, lat, vals, log):
    cs = cubes(log)
    drawn_with(log, "add_collection3d", "add_collection")
    H.check(sorted(c for c, _, _ in cs) == sorted(tuple(map(float, c)) for c in lat.checks), "one cube at each parity check")
    for c, size, cols in cs:
        H.check(all(0 < s <= 2 for s in size), "cubes do not overlap")
        kinds = {red(col) for col in cols}
        H.check(len(kinds) == 1 and None not in kinds, "every cube is red or green")
        par = H.xor([vals[q] for q in lat.checks[tuple(int(t) for t in c)]])
        H.check(H.iff(par == 1, True in kinds), "cubes with odd parity are red and the others green")


def graph_pictures(H, log, expected):
    """Each drawn stabilizer or matching graph: its nodes and its edges, once each."""
    drawn, arcs = [], []
    drawn_with(log, "draw_networkx_nodes")
    drawn_with(log, "annotate")
    for what, a, k in log:
        if what == "draw_networkx_nodes":
            drawn.append((a[0], k.get("pos", a[1] if len(a) > 1 else None), arcs))
            arcs = []
        elif what == "annotate":
            arcs.append((tuple(k["xy"]), tuple(k["xytext"])))
    H.check(len(drawn) == len(expected), "every graph is drawn")
    for (g, pos, arc), (nodes, edges) in zip(drawn, expected):
        H.check(sorted(map(str, g.nodes)) == sorted(map(str, nodes)), "every node of the graph is drawn")
        at = {str(n): tuple(pos[n]) for n in g.nodes}
        H.check(len(set(at.values())) == len(at), "nodes are drawn at different places")
        want = sorted(sorted((at[str(u)], at[str(v)])) for u, v in edges)
        H.check(sorted(sorted(t) for t in arc) == want, "every edge of the graph is drawn once")


def names_and_weights(H, log, g, stabs, opts):
    """Names identify the same node in every picture; edges carry their weights."""
    named = [k["labels"] for what, a, k in log if what == "draw_networkx_labels"]
    texts = {}
    for what, a, k in log:
        if what == "text" and isinstance(a[3], int) and not opts.get("show_nodes"):
            texts[(float(a[0]), float(a[2]), float(a[1]))] = a[3]
    if opts.get("label_stabilizers") or opts.get("label_boundary"):
        H.check(len(named) >= 1 and len(set(named[0].values())) == len(named[0]) and all(s in named[0] for s in stabs), "the nodes of the stabilizer graph have different names")
        for later in named[1:]:
            for n, v in later.items():
                H.check(named[0][n if n in named[0] else n[0]] == v, "the matching graph uses the same names")
        if opts.get("label_stabilizers", True) and not opts.get("show_nodes"):
            for s in stabs:
                H.check(texts.get(tuple(map(float, s.midpoint()))) == named[0][s], "the syndrome uses the same names")
    else:
        H.check(not named and not texts, "no names unless asked for")
    weights = [k.get("edge_labels") for what, a, k in log if what == "draw_networkx_edge_labels"]
    if not opts.get("label_edges"):
        H.check(not weights, "no weights unless asked for")
        return
    for u, v in weights[0]:
        w = g.edge_data(u, v)["weight"]
        H.check(abs(float(weights[0][(u, v)]) - w) <= 0.00501, "edges carry their weights")
    H.check({frozenset(e[:2]) for e in g.edges() if "low" not in e[:2] and "high" not in e[:2]} == {frozenset(e) for e in weights[0]}, "all edges carry their weights")


def recovery_picture(H, lat, log, flipped, how, matches=None):
    if how == "UF":
        pts = [c[0] for c, _ in curves(log) if len(c) == 1]
        H.check(sorted(pts) == sorted(set(pts)), "every qubit of the recovery is marked once")
        for q in lat.qubits:
            H.check(H.iff(flipped[q], tuple(map(float, q)) in pts), "the marked qubits are those of the recovery")
        return
    odd = set()
    qubits = {tuple(map(float, q)): q for q in lat.qubits}
    for c, _ in curves(log):
        if len(c) < 2 or any(e in lat.others for e in c):  # edges of the graph state
            continue
        for u, v in zip(c, c[1:]):
            for e in (u, v):  # a boundary point is a qubit
                if e in qubits:
                    odd ^= {qubits[e]}
            if u not in qubits and v not in qubits:
                shared = set(lat.checks[tuple(map(int, u))]) & set(lat.checks[tuple(map(int, v))])
                H.check(len(shared) == 1, "drawn paths go from check to neighbouring check")
                odd ^= shared
    for q in lat.qubits:
        H.check(H.iff(flipped[q], q in odd), "the drawn paths are those of the recovery")


# ------------------------------------------------------------------ drawing while decoding
def transparent(H, dims, ec, bound, decoder, backend, weights, mark, stabg="rustworkx", flips=None, step=1, options=None, recovery=True):
    plain, drawn = C25.pair(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    qs = sorted(lat.qubits)
    shape = C25.structure(plain)
    vals = {}
    if flips is None:
        for v in sorted(plain.graph.nodes):
            vals[v] = H.bit("b%s" % (v,)) if v in lat.qubits else 0
        for c in sorted(lat.checks):
            H.concrete(H.xor([vals[q] for q in lat.checks[c]]))
    else:
        vals = {v: 0 for v in plain.graph.nodes}
        left = qs[::step]
        for k in range(flips):
            q = H.choose("f%d" % k, left)
            left = left[left.index(q):]
            vals[q] ^= 1
    for code in (plain, drawn):
        C25.prepare(code, mark)
        for v in code.graph.nodes:
            code.graph.nodes[v]["bit_val"] = vals[v]
    opts = {"show_recovery": recovery, **(options or {})}
    H.rewind()
    ra = C25.correct(H, plain, decoder, C25.OPTS[weights], backend)
    H.rewind()
    viz, log = record(H)
    kw = {"code": drawn, "decoder": decoder, "draw": True, "drawing_opts": dict(opts)}
    if C25.OPTS[weights] is not None:
        kw["weight_options"] = dict(C25.OPTS[weights])
    if backend is not None:
        kw["decoder_opts"] = {"backend": backend}
    with H.silence():
        rb = H.mod("decoders.decoder").correct(**kw)
    H.check(H.iff(ra, rb), "drawing does not change the verdict")
    pick = lambda c, a: {q: c.graph.nodes[q].get(a) for q in qs}
    C25.equal(H, pick(plain, "bit_val"), pick(drawn, "bit_val"), "drawing does not change the correction")
    C25.equal(H, pick(plain, "weight"), pick(drawn, "weight"), "drawing does not change the weights")
    C25.equal(H, C25.edge_weights(plain, ec), C25.edge_weights(drawn, ec), "drawing does not change the stabilizer graph")
    C25.same_structure(H, shape, drawn)
    H.check(kw["drawing_opts"] == opts, "drawing does not change the options")
    # the pictures
    syndrome_picture(H, lat, vals, log)
    g = getattr(drawn, ec + "_stab_graph")
    nodes = [n for n in g.nodes() if n not in ("low", "high")]
    edges = [e[:2] for e in g.edges() if "low" not in e[:2] and "high" not in e[:2]]
    expected = [(nodes, edges)]
    if decoder == "MWPM":
        odd = sum(1 for what, a, k in log if what == "draw_networkx_nodes")
        if odd == 2:
            m = [a[0] for what, a, k in log if what == "draw_networkx_nodes"][1]
            checks = {c: s for s in getattr(drawn, ec + "_stabilizers") for c in [tuple(map(int, s.midpoint()))]}
            reals = [n for n in m.nodes if n in checks.values()]
            for c, s in checks.items():
                H.check(H.iff(H.xor([vals[q] for q in lat.checks[c]]) == 1, s in reals), "the matching graph shows the violated checks")
            expected.append((list(m.nodes), list(m.edges)))
        else:
            H.check(H.all([H.xor([vals[q] for q in lat.checks[c]]) == 0 for c in lat.checks]), "the matching graph is drawn if any check is violated")
    graph_pictures(H, log, expected)
    names_and_weights(H, log, g, getattr(drawn, ec + "_stabilizers"), opts)
    flipped = {q: H.concrete(H.xor([vals[q], drawn.graph.nodes[q]["bit_val"]])) == 1 for q in qs}
    if recovery:
        simple = bound == "open" or min(dims) > 2
        if decoder == "UF" or simple:
            recovery_picture(H, lat, log, flipped, decoder)
    # the next trial
    for i, q in enumerate(qs):
        v = int((i * 2654435761 >> 5) % 3 == 0)
        for code in (plain, drawn):
            code.graph.nodes[q]["bit_val"] = v
    H.rewind()
    ra = C25.correct(H, plain, decoder, C25.OPTS[weights], backend)
    H.rewind()
    rb = C25.correct(H, drawn, decoder, C25.OPTS[weights], backend)
    H.check(H.iff(ra, rb), "later verdicts do not depend on the drawing")
    C25.equal(H, pick(plain, "bit_val"), pick(drawn, "bit_val"), "later corrections do not depend on the drawing")


# ------------------------------------------------------------------ pictures of graph states
def graph_of(H, which):
    """A graph state and the object to draw."""
    if which == "free":
        eg = H.mod("codes.graphs.egraph").EGraph()
        pts = [(0, 0, 0), (1, 0, 2), (0, 3, 1), (2, 2, 2), (4, 1, 0)]
        for p in pts:
            eg.add_node(p)
        for a, b in ((0, 1), (1, 2), (2, 4), (0, 4)):
            eg.add_edge(pts[a], pts[b])
        return eg, eg
    code = make(H, *which)
    return code.graph, code


def attributes(H, eg, step):
    """Some nodes and edges with an arbitrary attribute, the others fixed or without."""
    vals = {}
    for i, v in enumerate(sorted(eg.nodes)):
        if i % step == 0 and i // step < 5:
            vals[v] = H.bit("a%s" % (v,)) if H.concrete(H.bit("set%s" % (v,))) else None
        else:
            vals[v] = (0, 1, None, -1)[i % 4]
        eg.nodes[v].pop("bit_val", None)
        if vals[v] is not None:
            eg.nodes[v]["bit_val"] = vals[v]
    ws = {}
    for i, e in enumerate(sorted(eg.edges)):
        ws[frozenset(e)] = 1 - 2 * H.bit("w%d" % i) if i % 7 == 2 and i < 21 else (1, -1)[i % 3 == 0]
        eg.edges[e]["weight"] = ws[frozenset(e)]
    return vals, ws


def state(H, which, step, label, through):
    eg, obj = graph_of(H, which)
    vals, ws = attributes(H, eg, step)
    before = {v: dict(eg.nodes[v]) for v in eg.nodes}
    edges = {frozenset(e): dict(eg.edges[e]) for e in eg.edges}
    viz, log = record(H)
    kw = dict(color_nodes=("bit_val", {0: "blue", 1: "red"}), color_edges=("weight", {1: "green", -1: "orange"}), label=label)
    with H.silence():
        if through == "function":
            viz.draw_EGraph(eg, **kw)
        else:
            obj.draw(**kw)
    pts = dots(log)
    drawn_with(log, "scatter")
    drawn_with(log, "plot")
    H.check(sorted(p for p, _ in pts) == sorted(tuple(map(float, v)) for v in eg.nodes), "every node is drawn once, at its place")
    at = {tuple(map(float, v)): v for v in eg.nodes}
    for p, c in pts:
        x = vals[at[p]]
        if x is None:
            H.check(c == "black", "nodes without the attribute are black")
        else:
            H.check(H.all([H.implies(x == 0, c == "blue"), H.implies(x == 1, c == "red"), H.implies(H.all([x != 0, x != 1]), c == "black")]), "nodes have the colour of their attribute")
    lines = {}
    for c, col in curves(log):
        H.check(len(c) == 2, "edges join two nodes")
        e = frozenset(at.get(p) for p in c)
        H.check(e in ws and e not in lines, "every edge is drawn once")
        lines[e] = col
        H.check(H.iff(ws[e] == 1, col == "green"), "edges have the colour of their weight")
        H.check(H.iff(ws[e] == -1, col == "orange"), "edges have the colour of their weight")
    H.check(len(lines) == len(ws), "every edge is drawn")
    texts = {}
    for what, a, k in log:
        if what == "text":
            near = [v for v in eg.nodes if abs(v[0] - a[0]) < 0.3 and abs(v[2] - a[1]) < 0.3 and abs(v[1] - a[2]) < 0.3]
            H.check(len(near) == 1 and near[0] not in texts, "labels stand at their nodes")
            texts[near[0]] = a[3]
    if label == "index":
        ind = {v: i for i, v in enumerate(eg.nodes)}
        H.check(set(texts) == set(ind) and sorted(texts.values()) == sorted(ind.values()), "every node is labelled with an index")
        H.check(all(eg.to_points[texts[v]] == v for v in texts) if getattr(eg, "to_points", None) else True, "labels are the indices of the nodes")
    elif label:
        H.check(set(texts) == {v for v in vals if vals[v] is not None}, "the nodes with the attribute are labelled")
        for v, t in texts.items():
            H.check(t == vals[v] if not isinstance(t, str) else vals[v] == float(t.strip("$ ").replace("^{-}", "-").replace("--", "-")), "labels are the values of the attribute")
    else:
        H.check(not texts, "no labels unless asked for")
    H.check({v: sorted(eg.nodes[v]) for v in eg.nodes} == {v: sorted(before[v]) for v in before}, "drawing adds no attributes")
    H.check(H.all([eg.nodes[v][k] == before[v][k] for v in before for k in before[v]]), "drawing changes no node")
    H.check({frozenset(e): sorted(eg.edges[e]) for e in eg.edges} == {e: sorted(d) for e, d in edges.items()}, "drawing changes no edge")


def hover(H, which, step):
    """The same with plotly."""
    eg, obj = graph_of(H, which)
    vals, _ = attributes(H, eg, step)
    viz, log = record(H)
    with H.silence():
        fig = viz.draw_EGraph(eg, backend="plotly", color_nodes=("bit_val", {0: "blue", 1: "red"}), label=("bit_val",))
    nodes = [t for t in fig.data if t.kw.get("mode") == "markers"]
    lines = [t for t in fig.data if t.kw.get("mode") == "lines"]
    H.check(len(nodes) == 1 and len(lines) == 1, "nodes and edges are drawn")
    t = nodes[0].kw
    pts = [tuple(map(int, p)) for p in zip(t["x"], t["y"], t["z"])]
    H.check(sorted(pts) == sorted(eg.nodes) and len(t["hovertext"]) == len(pts) == len(t["marker"]["color"]), "every node is drawn once, at its place")
    for p, c, text in zip(pts, t["marker"]["color"], t["hovertext"]):
        x = vals[p]
        H.check(str(p) in text, "the coordinates are shown")
        if x is None:
            H.check(c == "black" and "bit_val" not in text, "nodes without the attribute are black")
        else:
            x = H.concrete(x)
            H.check(c == {0: "blue", 1: "red"}.get(x, "black"), "nodes have the colour of their attribute")
            H.check(text.split("bit_val: ")[-1].split("<")[0] == str(x), "the attribute is shown")
    t = lines[0].kw
    seen = []
    for i in range(0, len(t["x"]), 3):
        seen.append(sorted(tuple(t[c][j] for c in "xyz") for j in (i, i + 1)))
        H.check(t["x"][i + 2] is None or t["x"][i + 2] != t["x"][i + 2], "edges are not connected to each other")
    H.check(sorted(seen) == sorted(sorted(e) for e in eg.edges), "every edge is drawn once")


def still(H, dims, ec, bound, stabg):
    """Drawing a code, its stabilizer graph and its adjacency matrix, whatever its weights."""
    code = make(H, dims, ec, bound, stabg)
    lat = Lattice(dims, ec, bound)
    ws = {}
    for i, v in enumerate(sorted(code.graph.nodes)):
        ws[v] = H.int("w%s" % (v,), -1, 3) if i % 8 == 3 and i < 28 else (0, 1, 2, -1)[i % 4]
        code.graph.nodes[v].update(weight=ws[v], bit_val=(i * 5 // 3) % 2, state="p" if i % 4 == 1 else "GKP")
    for i, e in enumerate(sorted(code.graph.edges)):
        code.graph.edges[e]["weight"] = 1 - 2 * H.bit("e%d" % i) if i % 9 == 4 else 1
    shape, before = C25.structure(code), {v: dict(code.graph.nodes[v]) for v in code.graph.nodes}
    viz, log = record(H)
    with H.silence():
        for k in range(2):
            log.clear()
            code.draw_stabilizer_graph(ec, title="t")
            g = getattr(code, ec + "_stab_graph")
            graph_pictures(H, log, [([n for n in g.nodes() if n not in ("low", "high")], [e[:2] for e in g.edges() if "low" not in e[:2] and "high" not in e[:2]])])
            for e in g.edges():
                if "low" not in e[:2] and "high" not in e[:2]:
                    d = g.edge_data(*e)
                    H.check(d["weight"] == ws[d["common_vertex"]], "edges have the weight of their qubit")
        log.clear()
        code.draw()
        H.check(len(dots(log)) == len(ws), "every node is drawn once")
        kinds = {p: c for p, c in dots(log)}
        H.check(all(kinds[tuple(map(float, v))] == ("black" if v in lat.primal else "grey") for v in ws), "primal nodes are black and dual nodes grey")
        log.clear()
        code.graph.draw_adj(show=False)
        m = [a[0] for what, a, k in log if what in ("matshow", "imshow")]
        order = [code.graph.to_points[i] for i in range(len(ws))]
        H.check(len(m) == 1 and np.shape(m[0]) == (len(ws), len(ws)), "the matrix is drawn")
        conds = []
        for i, u in enumerate(order):
            for j, v in enumerate(order):
                conds.append(m[0][i, j] == (code.graph.edges[u, v]["weight"] if code.graph.has_edge(u, v) else 0))
        H.check(H.all(conds), "the adjacency matrix is drawn")
    C25.same_structure(H, shape, code)
    H.check(all(set(code.graph.nodes[v]) == set(before[v]) for v in ws), "drawing adds no attributes")
    H.check(H.all([code.graph.nodes[v][k] == before[v][k] for v in ws for k in before[v]]), "drawing changes no attributes")


# ------------------------------------------------------------------ tick labels
def pi_label(H, lo, hi, tex):
    """Multiples of sqrt(pi)/2 are written exactly."""
    viz = H.mod("utils.viz")
    n = H.concrete(H.int("n", lo, hi))
    s = viz.to_pi_string(n * np.sqrt(np.pi) / 2, tex=tex)
    if n == 0:
        H.check(s == "0", "zero")
        return
    H.check(not tex or (s[0] == "$" and s[-1] == "$"), "LaTeX signs")
    s = s.strip("$") if tex else s
    half = s.endswith("/2")
    s = s[:-2] if half else s
    H.check(s.endswith("\\sqrt{\\pi}"), "a multiple of sqrt(pi)")
    s = s[: -len("\\sqrt{\\pi}")]
    k = {"": 1, "-": -1}.get(s)
    k = int(s) if k is None else k
    H.check(k * (1 if half else 2) == n, "the label denotes the value")


FULL = {"show_nodes": True, "label_stabilizers": True, "label_boundary": True, "label_edges": True, "show_title": True, "legend": True, "label": "bit_val"}
NAMES = {"show_nodes": False, "label_stabilizers": True, "label_boundary": True, "label_edges": True}
BARE = {"show_title": False, "label_stabilizers": False, "legend": False}


def tasks(tier):
    q = tier == "quick"
    T = []
    P, D = ((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open")
    k = 0
    for c in (P, D):
        for decoder, backend, opts, mark in (("UF", None, "uniform", "none"), ("UF", None, "none", "few"), ("MWPM", None, "uniform", "none"), ("MWPM", "networkx", "uniform", "few"), ("MWPM", "networkx", "blueprint", "alt"),
                                             ("MWPM", "rustworkx", "blueprint", "none"), ("MWPM", "lemon", "integer", "none")):
            for stabg in ("rustworkx", "networkx"):
                k += 1
                T.append(Task("decode-%s-%s-%s-%s-%s-%s" % (name(*c), decoder, backend, opts, mark, stabg), transparent, dims=c[0], ec=c[1], bound=c[2], decoder=decoder, backend=backend, weights=opts, mark=mark, stabg=stabg,
                              options=(None, BARE, {"label_edges": True, "show_title": True, "label_stabilizers": True})[k % 3], opts={"cost": 3}))
    big = [((3, 3, 3), "primal", "periodic", 9), ((3, 3, 3), "dual", "toric", 9), ((2, 3, 4), "primal", "open", 7), ((2, 3, 4), "dual", "open", 11), ((3, 2, 2), "primal", "toric", 5), ((4, 3, 3), "dual", "periodic", 13)]
    for d, ec, b, step in big:
        for decoder, backend, opts in (("UF", None, "uniform"), ("MWPM", "networkx", "blueprint"), ("MWPM", "rustworkx", "uniform")):
            for stabg in ("networkx", "rustworkx"):
                k += 1
                T.append(Task("decode-%s-%s-%s-%s" % (name(d, ec, b), decoder, opts, stabg), transparent, dims=d, ec=ec, bound=b, decoder=decoder, backend=backend, weights=opts, mark="alt" if k % 2 else "none", stabg=stabg, flips=2,
                              step=step if q else max(1, step // 3), options=(FULL, None, BARE, NAMES)[k % 4], opts={"cost": 4}))
    for which, step in (("free", 1), (P, 4), (D, 7), (((2, 3, 2), "primal", "toric"), 9)):
        for label in ("bit_val", "index", None):
            T.append(Task("state-%s-%s" % (which if which == "free" else name(*which), label), state, which=which, step=step, label=label, through="method" if label else "function"))
        T.append(Task("hover-%s" % (which if which == "free" else name(*which)), hover, which=which, step=step, opts={"concrete_str": True}))
    for c in (P, D, ((2, 3, 2), "primal", "toric"), ((3, 2, 3), "dual", "periodic")):
        for stabg in ("networkx", "rustworkx"):
            T.append(Task("still-%s-%s" % (name(*c), stabg), still, dims=c[0], ec=c[1], bound=c[2], stabg=stabg))
    for tex in (True, False):
        T.append(Task("pi-%s" % tex, pi_label, lo=-60, hi=60, tex=tex))
    return T
