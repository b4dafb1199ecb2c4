"""LC equivalence: symbolic adjacency matrices of both graph states."""
import itertools

from symcheck.api import Task

BOUNDS = ("all pairs of graphs on n<=3 nodes, all pairs on 4 nodes (quick: second graph any, first graph one per isomorphism class "
          "plus relabellings), 5-6 nodes: all graphs against their local complements at every vertex and listed fixed graphs; edges symbolic bits; up to 3 nodes also after a qubit was added or removed; "
          "'not equivalent' answers are refuted/confirmed over all 6^n local Cliffords (symbolic 4n bits)")
ASSUMPTIONS = ["local Cliffords are represented by binary symplectic matrices (phases ignored), as in the cited algorithm"]


class G:
    """Graph with symbolic 0/1 edge weights built as an EGraph."""

    def __init__(self, H, n, bits):
        eg = H.mod("codes.graphs.egraph")
        self.n, self.bits = n, bits
        self.g = eg.EGraph()
        for i in range(n):
            self.g.add_node((i, 0, 0))
        for (i, j), b in bits.items():
            if not (isinstance(b, int) and b == 0):
                self.g.add_edge((i, 0, 0), (j, 0, 0), weight=b)

    def adj(self):
        A = [[0] * self.n for _ in range(self.n)]
        for (i, j), b in self.bits.items():
            A[i][j] = A[j][i] = b
        return A


def symplectic(H, A, B, vec):
    """Boolean: vec=(a,b,c,d) maps the group of graph A onto that of graph B and is a valid local Clifford."""
    n = len(A)
    a, b, c, d = vec
    conds = []
    for j in range(n):
        # generator j of A: X on j, Z on neighbours; image under the local Clifford
        Z = [(a[k] * A[j][k] + (b[k] if k == j else 0)) % 2 for k in range(n)]
        X = [(c[k] * A[j][k] + (d[k] if k == j else 0)) % 2 for k in range(n)]
        # it belongs to the group of B iff its Z part is the B-neighbourhood of its X part
        for k in range(n):
            conds.append(Z[k] == H.total([X[i] * B[i][k] for i in range(n)]) % 2)
    for k in range(n):
        conds.append((a[k] * d[k] + b[k] * c[k]) % 2 == 1)
    return H.all(conds)


def verdict(H, g1, g2, form):
    lc = H.mod("utils.linalg")
    res = lc.are_lc_equivalent(g1.g, g2.g) if form is None else lc.are_lc_equivalent(g1.g, g2.g, clifford_form=form)
    H.check(len(res) == 2, "returns a pair")
    return res


def entry(H, x):
    return H.as_int(x)


def unpack(H, out, form, n):
    """(a,b,c,d) lists from the returned Clifford."""
    if form in (None, "tensor"):
        H.check(len(out) == n, "one 2x2 factor per qubit")
        for M in out:
            H.check(tuple(M.shape) == (2, 2), "factors are 2x2")
        return [[entry(H, M[r, s]) for M in out] for r, s in ((0, 0), (0, 1), (1, 0), (1, 1))]
    H.check(tuple(out.shape) == (2 * n, 2 * n), "global form is 2n x 2n")
    for i in range(2 * n):
        for j in range(2 * n):
            if i % n != j % n:
                H.check(entry(H, out[i, j]) == 0, "global form is local")
    return [[entry(H, out[k + r * n, k + s * n]) for k in range(n)] for r, s in ((0, 0), (0, 1), (1, 0), (1, 1))]


def judge(H, g1, g2, form=None):
    eq, out = verdict(H, g1, g2, form)
    A, B = g1.adj(), g2.adj()
    n = g1.n
    if eq:
        vec = unpack(H, out, form, n)
        for col in vec:
            for x in col:
                H.check(H.any([x == 0, x == 1]), "Clifford entries binary")
        H.check(symplectic(H, A, B, vec), "reported Clifford maps one stabilizer group onto the other")
    else:
        H.check(out is None, "no Clifford reported")
        vec = [[H.bit("q%s%d" % (s, k)) for k in range(n)] for s in "abcd"]
        H.check(H.not_(symplectic(H, A, B, vec)), "graphs reported inequivalent although a local Clifford relates them")
    return eq


def edges(n):
    return list(itertools.combinations(range(n), 2))


def pair(H, n, fixed=None, form=None):
    if fixed is None:
        b1 = {e: H.bit("g%d%d" % e) for e in edges(n)}
    else:
        b1 = {e: int(e in fixed) for e in edges(n)}
    b2 = {e: H.bit("h%d%d" % e) for e in edges(n)}
    judge(H, G(H, n, b1), G(H, n, b2), form)


def complement(H, bits, n, v):
    """Local complementation at v."""
    out = {}
    for i, j in edges(n):
        b = bits[i, j]
        if v not in (i, j):
            x = bits[tuple(sorted((i, v)))] * bits[tuple(sorted((j, v)))]
            b = H.xor([b, x])
        out[i, j] = b
    return out


def local(H, n, v, base=None, form=None, swap=False):
    """A graph and its local complement are equivalent, and so are a graph and itself."""
    if base is None:
        b1 = {e: H.bit("g%d%d" % e) for e in edges(n)}
    else:
        fixed, free = base
        b1 = {e: (H.bit("g%d%d" % e) if e in free else int(e in fixed)) for e in edges(n)}
    b2 = dict(b1) if v is None else complement(H, b1, n, v)
    if swap:
        b1, b2 = b2, b1
    g1, g2 = G(H, n, b1), G(H, n, b2)
    lc = H.mod("utils.linalg")
    eq, out = verdict(H, g1, g2, form)
    H.check(bool(eq), "graph and its local complement at %s reported inequivalent" % v)
    vec = unpack(H, out, form, n)
    H.check(symplectic(H, g1.adj(), g2.adj(), vec), "reported Clifford maps one stabilizer group onto the other")


def shapes(H):
    """Different sizes and empty graphs are not equivalent; inputs are left alone."""
    eg = H.mod("codes.graphs.egraph")
    lc = H.mod("utils.linalg")
    n1 = H.choose("n1", [0, 1, 2, 3])
    n2 = H.choose("n2", [0, 1, 2, 3])
    g1 = G(H, n1, {e: 1 for e in edges(n1)})
    g2 = G(H, n2, {e: 1 for e in edges(n2)})
    if n1 == 0 or n2 == 0:
        return
    eq, out = lc.are_lc_equivalent(g1.g, g2.g)
    H.check(bool(eq) == (n1 == n2), "complete graphs of sizes %d and %d" % (n1, n2))
    H.check(len(g1.g) == n1 and len(g2.g) == n2, "inputs keep their nodes")


def symmetric(H, n):
    b1 = {e: H.bit("g%d%d" % e) for e in edges(n)}
    b2 = {e: H.bit("h%d%d" % e) for e in edges(n)}
    lc = H.mod("utils.linalg")
    x, _ = lc.are_lc_equivalent(G(H, n, b1).g, G(H, n, b2).g)
    y, _ = lc.are_lc_equivalent(G(H, n, b2).g, G(H, n, b1).g)
    H.check(bool(x) == bool(y), "symmetric verdict")


def edited(H, n, op):
    """The verdict after a qubit was added or removed is that of the new graph."""
    b1 = {e: H.bit("g%d%d" % e) for e in edges(n)}
    g1 = G(H, n, b1)
    g1.g.is_lc_equivalent(G(H, n, {e: 1 for e in edges(n)}).g)
    H.check(bool(g1.g.is_lc_equivalent(g1.g)[0]), "reflexive")
    if op == "add":
        near = [k for k in range(n) if H.concrete(H.bit("nb%d" % k))]
        g1.g.add_qubit((n, 0, 0), neighbors=near if H.concrete(H.bit("ind")) else [(k, 0, 0) for k in near])
        b1.update({(k, n): int(k in near) for k in range(n)})
        m = n + 1
    else:
        k = H.choose("gone", list(range(n)))
        g1.g.remove_qubit(k if H.concrete(H.bit("ind")) else (k, 0, 0))
        keep = [i for i in range(n) if i != k]
        b1 = {(x, y): b1[keep[x], keep[y]] for x, y in edges(n - 1)}
        m = n - 1
    g1.n, g1.bits = m, b1
    b2 = {e: H.bit("h%d%d" % e) for e in edges(m)}
    judge(H, g1, G(H, m, b2))


GRAPHS4 = [(), ((0, 1),), ((2, 3),), ((0, 1), (1, 2)), ((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 1), (1, 2), (2, 3)), ((0, 2), (2, 1), (1, 3)),
           ((0, 1), (0, 2), (0, 3)), ((3, 1), (3, 2), (0, 3)), ((0, 1), (1, 2), (0, 2)), ((1, 2), (2, 3), (1, 3)), ((0, 1), (1, 2), (2, 3), (0, 3)),
           ((0, 1), (1, 2), (0, 2), (2, 3)), ((0, 1), (1, 2), (2, 3), (0, 3), (0, 2)), tuple(edges(4))]


def norm(es):
    return {tuple(sorted(e)) for e in es}


C5 = norm([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)])
WHEEL6 = norm([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)] + [(5, i) for i in range(5)])
PRISM = norm([(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (0, 3), (1, 4), (2, 5)])


def tasks(tier):
    T = []
    for n in (1, 2, 3):
        for f in (None, "tensor", "global"):
            T.append(Task("pair%d-%s" % (n, f), pair, n=n, form=f, opts={"cost": n}))
        T.append(Task("symmetric%d" % n, symmetric, n=n, opts={"cost": n}))
    for k, es in enumerate(GRAPHS4):
        T.append(Task("pair4-%d" % k, pair, n=4, fixed=norm(es), form="global" if k % 3 == 0 else None, opts={"cost": 10}))
    for v in (None, 0, 1, 2, 3):
        T.append(Task("lc4-%s" % v, local, n=4, v=v, swap=v == 1, opts={"cost": 10}))
    T.append(Task("shapes", shapes))
    T.append(Task("edited-add2", edited, n=2, op="add", opts={"cost": 5}))
    T.append(Task("edited-remove3", edited, n=3, op="remove", opts={"cost": 5}))
    if tier == "thorough":
        T.append(Task("edited-add3", edited, n=3, op="add", split=4, opts={"cost": 20}))
        T.append(Task("edited-remove4", edited, n=4, op="remove", split=4, opts={"cost": 20}))
    for v in (None, 0, 3):
        T.append(Task("lc5-C5-%s" % v, local, n=5, v=v, base=(C5, {(0, 2), (1, 3)}), opts={"cost": 20}))
    T.append(Task("pair5-C5", pair5, n=5, f1=C5, f2=C5, free={(0, 2), (1, 3), (2, 4), (0, 1)}, opts={"cost": 30}))
    T.append(Task("lc6-prism", local, n=6, v=2, base=(PRISM, {(0, 4)}), opts={"cost": 20}))
    T.append(Task("pair4", pair, n=4, split=8, opts={"cost": 100}))
    if tier == "thorough":
        for v in (None, 0, 2, 4):
            T.append(Task("lc5-%s" % v, local, n=5, v=v, split=4, opts={"cost": 100}))
        T.append(Task("pair5", pair, n=5, fixed=C5, split=8, opts={"cost": 100}))
        T.append(Task("pair5-rest", pair, n=5, fixed=norm([(0, 1), (1, 2), (3, 4)]), split=8, opts={"cost": 100}))
        for v in (None, 1, 5):
            T.append(Task("lc6-wheel-%s" % v, local, n=6, v=v, base=(WHEEL6, {(0, 2), (1, 3), (0, 3)}), opts={"cost": 90}))
    return T


def pair5(H, n, f1, f2, free):
    """Fixed first graph, second graph with some free edges."""
    b1 = {e: int(e in f1) for e in edges(n)}
    b2 = {e: (H.bit("h%d%d" % e) if e in free else int(e in f2)) for e in edges(n)}
    judge(H, G(H, n, b1), G(H, n, b2))
