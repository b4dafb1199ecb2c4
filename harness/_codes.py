"""Shared lattice helpers: construction and an independent description of the lattice."""
import itertools as it


def make(H, dims, ec, bound, stabg="rustworkx", polarity=None):
    sc = H.mod("codes.surface_code")
    return sc.SurfaceCode(distance=tuple(dims), ec=ec, boundaries=bound, backend=stabg, polarity=polarity)


def name(dims, ec, bound):
    return "%s-%s-%s" % ("".join(map(str, dims)), ec, bound)


def put_bits(H, code, tag="b"):
    """An arbitrary bit on every qubit of the lattice."""
    bits = {}
    for v in sorted(code.graph.nodes):
        bits[v] = H.bit("%s%s" % (tag, v))
        code.graph.nodes[v]["bit_val"] = bits[v]
    return bits


def cur(code, v):
    return code.graph.nodes[v]["bit_val"]


# ---------------------------------------------------------- the lattice, from its definition
class Lattice:
    """Cells of a cubic complex with primal / dual / periodic faces.

    Faces (one even coordinate) are the primal qubits, edges (one odd
    coordinate) the dual qubits; the cells with all coordinates odd / even carry
    the primal / dual parity checks.
    """

    def __init__(self, dims, ec, bound):
        self.dims = tuple(dims)
        kinds = {
            ("open", "primal"): ("primal", "dual", "dual"),
            ("open", "dual"): ("primal", "dual", "primal"),
            ("toric", "primal"): ("periodic", "periodic", "dual"),
            ("toric", "dual"): ("periodic", "periodic", "primal"),
            ("periodic", "primal"): ("periodic",) * 3,
            ("periodic", "dual"): ("periodic",) * 3,
        }[(bound, ec)]
        self.kinds, self.ec, self.bound = kinds, ec, bound
        rng = []
        for k, d in zip(kinds, dims):
            rng.append({"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(0, 2 * d)}[k])
        self.rng = rng
        pts = list(it.product(*rng))
        odd = lambda p: sum(c % 2 for c in p)
        self.primal = {p for p in pts if odd(p) == 2}
        self.dual = {p for p in pts if odd(p) == 1}
        self.vertices = self.primal | self.dual
        self.qubits = self.primal if ec == "primal" else self.dual
        self.others = self.dual if ec == "primal" else self.primal
        # parity checks: every cell with at least one face in the lattice whose
        # boundary is closed, i.e. whose centre lies inside the lattice
        want = 3 if ec == "primal" else 0
        self.centres = [p for p in pts if odd(p) == want]
        self.checks = {c: self.faces(c) for c in self.centres}

    def wrap(self, p):
        out = []
        for c, k, d, r in zip(p, self.kinds, self.dims, self.rng):
            if k == "periodic":
                c %= 2 * d
            elif c not in r:
                return None
            out.append(c)
        return tuple(out)

    def step(self, p):
        """Lattice points one unit away, with multiplicity."""
        res = []
        for i in range(3):
            for s in (-1, 1):
                q = list(p)
                q[i] += s
                q = self.wrap(q)
                if q is not None:
                    res.append(q)
        return res

    def faces(self, c):
        return [q for q in self.step(c) if q in self.vertices]

    def neighbours(self, v):
        other = self.dual if v in self.primal else self.primal
        return [q for q in self.step(v) if q in other]

    def trivial_loop(self, v):
        """Qubits flipped together by the stabilizer of the cluster state centred on v."""
        return self.neighbours(v)

    def directions(self):
        """Directions whose correlation planes carry the verdict."""
        return {"periodic": (0, 1, 2), "toric": (0, 1), "open": (0,) if self.ec == "primal" else (1,)}[self.bound]

    def planes(self, axis):
        """Parallel planes of qubits crossed once by every logical chain along axis."""
        par = 0 if self.ec == "primal" else 1
        out = []
        for c in self.rng[axis]:
            if c % 2 == par:
                out.append([q for q in self.qubits if q[axis] == c and self.normal(q) == axis])
        return out

    def normal(self, q):
        """Axis along which a flip of q moves a pair of violated checks."""
        par = 0 if self.ec == "primal" else 1
        return next(i for i in range(3) if q[i] % 2 == par)
