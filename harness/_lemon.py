"""The compiled LEMON wrapper: its LLVM IR against stand-ins for LEMON and pybind11."""
import hashlib
import importlib.util
import itertools as it
import os
import re
import subprocess
import sysconfig
import tempfile

import numpy as np

REPO = os.environ.get("SYMCHECK_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "symcheck", "stubs")
SOURCE = os.path.join("flamingpy", "cpp", "lemonpy.cpp")
_MODULE = {}
GAP = 777


def source():
    p = os.path.join(REPO, SOURCE)
    return p if os.path.exists(p) else os.path.join("/repo", SOURCE)


def module():
    """The wrapper's LLVM IR, compiled from the present source."""
    from symcheck import loader, llvmir
    from symcheck.core import Unsupported

    p = source()
    with open(p, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    if key not in _MODULE:
        with tempfile.TemporaryDirectory(prefix="c26-") as d:
            out = os.path.join(d, "w.ll")
            r = subprocess.run(["clang++", "-std=c++14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-discard-value-names", "-w",
                                "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-S", "-emit-llvm", "-I" + STUBS, p, "-o", out], capture_output=True, text=True)
            if r.returncode:
                raise Unsupported("the wrapper does not compile against the stand-ins: " + r.stderr[:400])
            with open(out) as f:
                _MODULE[key] = llvmir.Module(f.read())
    loader.SOURCES["flamingpy.cpp.lemonpy"] = (p, key)
    return _MODULE[key]


def native():
    """The extension built from the present source, against the real libraries."""
    p = source()
    with open(p, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    if ("so", key) in _MODULE:
        return _MODULE["so", key]
    folder = os.path.join(tempfile.gettempdir(), "symcheck-lemonpy-%s-%d" % (key, os.getuid()))
    so = os.path.join(folder, "lemonpy.so")
    if not os.path.exists(so):
        os.makedirs(folder, exist_ok=True)
        tmp = os.path.join(folder, "tmp-%d.so" % os.getpid())
        inc = ["-I" + x for x in ("/opt/vp/cmake/pybind11/include", "/opt/vp/cmake/lemon", sysconfig.get_paths()["include"]) if os.path.isdir(x)]
        cmd = ["g++", "-O1", "-w", "-shared", "-fPIC", "-std=c++14", *inc, p, "-o", tmp]
        r = subprocess.run(cmd + ["-lemon"], capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("the extension does not build: " + r.stderr[-400:])
        os.replace(tmp, so)
    spec = importlib.util.spec_from_file_location("lemonpy", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    _MODULE["so", key] = m
    return m


def perfect(nodes):
    if not nodes:
        yield []
        return
    a = nodes[0]
    for b in nodes[1:]:
        for m in perfect([n for n in nodes if n not in (a, b)]):
            yield [(a, b)] + m


def blocks(n, mode):
    """Groups of four rows."""
    q = n // 4
    if mode == "apart":
        return [[i, i + q, i + 2 * q, i + 3 * q] for i in range(q)]
    if mode == "mirror":
        return [[i, 2 * q - 1 - i, 2 * q + i, 4 * q - 1 - i] for i in range(q)]
    return [[4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3] for i in range(q)]


class Host:
    """LEMON and numpy as seen by the wrapper."""

    def __init__(self, H, A, n, optimum, layout):
        self.H, self.A, self.n, self.optimum, self.layout = H, A, n, optimum, layout
        self.defs, self.out = {}, None
        self.edges, self.nodes, self.slots, self.inputs = {}, {}, {}, {}
        self.result = {}
        self.late = []

    def sc_def(self, name, tramp, f):
        s = ""
        while True:
            c = self.M.mem.load(name + len(s), 1, False)
            if not c:
                break
            s += chr(c)
        self.defs[s] = (tramp, f)

    def sc_ndim(self):
        return 2

    def sc_shape(self, i):
        return self.n

    def sc_data(self, size, real, flags):
        from symcheck.core import Unsupported

        if not real:
            raise Unsupported("the matrix is read as integers")
        n, store = self.n, self.M.mem.store
        # numpy copies unless the type agrees and any layout will do
        if flags & 3 == 2:
            self.strides = (size, n * size)
        elif self.layout == "C" or size != 4 or flags & 1:
            self.strides = (n * size, size)
        elif self.layout == "F":
            self.strides = (size, n * size)
        else:
            self.strides = (4 * n * size, 2 * size)
        a = self.M.mem.alloc(4 * size * n**2)
        if self.layout == "strided":
            for k in range(4 * n**2):
                store(a + size * k, size, GAP, True)
        for i in range(n):
            for j in range(n):
                store(a + i * self.strides[0] + j * self.strides[1], size, self.A[i][j], True)
        return a

    def sc_stride(self, k):
        return self.strides[k]

    def sc_alloc(self, n):
        return self.M.mem.alloc(n)

    def sc_result(self, ptr, item, real, ndim, rows, cols, srow, scol):
        self.out = [ndim, []]
        for i in range(rows):
            self.out[1].append([signed(self.M.mem.load(ptr + i * srow + j * scol, item, bool(real)), 8 * item) for j in range(cols)])

    def sc_add_node(self, g):
        self.nodes[g] = self.nodes.get(g, 0) + 1
        return self.nodes[g] - 1

    def sc_add_edge(self, g, u, v):
        e = self.edges.setdefault(g, [])
        self.H.check(u < self.nodes.get(g, 0) and v < self.nodes.get(g, 0), "edges join nodes of the graph")
        e.append((u, v))
        return len(e) - 1

    def sc_clear(self, g):
        self.nodes[g], self.edges[g] = 0, []

    def sc_end(self, g, e, which):
        return self.edges[g][e][which]

    def sc_count(self, g, kind):
        return (len(self.edges.get(g, [])) if kind else self.nodes.get(g, 0)) & 0xFFFFFFFF

    def sc_find(self, g, u, v):
        for k, e in enumerate(self.edges.get(g, [])):
            if set(e) == {u, v}:
                return k
        return 0xFFFFFFFF

    def sc_slot(self, m, kind, i, size):
        k = (m, kind, i)
        if k not in self.slots:
            a = self.slots[k] = self.M.mem.alloc(size)
            self.M.mem.fill(a, 0, size)
        return self.slots[k]

    def sc_run(self, g, m, size):
        """Any perfect matching of largest weight, by the weights handed over."""
        from symcheck.core import Unsupported

        H, n = self.H, self.nodes.get(g, 0)
        H.check(n == self.n, "the graph has one node for each row")
        w = {}
        for k, (u, v) in enumerate(self.edges.get(g, [])):
            a = self.slots.get((m, 1, k))
            x = 0 if a is None else self.weight(a, size)
            w.setdefault(frozenset((u, v)), []).append((k, x))
        nodes = list(range(n))
        if self.optimum is True:
            options = [p for p in perfect(nodes) if all(frozenset(e) in w for e in p)] if n % 2 == 0 else []
            if not options:
                H.fail("the graph has no perfect matching")
            pick = options[H.choose("run", list(range(len(options))))]

            # of parallel edges LEMON may take any heaviest one
            def best(p):
                return H.total([self.heaviest(w[frozenset(e)])[1] for e in p])

            chosen = best(pick)
            for o in options:
                if o is not pick:
                    H.assume(H.leq(best(o), chosen, 0))
        else:
            self.late.append(len(w) == n * (n - 1) // 2)
            base = None
            for f, lst in sorted(w.items(), key=lambda t: sorted(t[0])):
                i, j = sorted(f)
                d = self.heaviest(lst)[1] - self.A[i][j]
                if base is None:
                    base = d
                else:
                    self.late.append(H.close(d, base))
            pick = []
            for k, b in enumerate(self.optimum):
                options = [p for p in perfect(b) if all(frozenset(e) in w for e in p)]
                if not options:
                    raise Unsupported("no perfect matching within a group")

                def best(p):
                    return H.total([self.heaviest(w[frozenset(e)])[1] for e in p])

                if k in (0, n // 4 - 1):
                    p = options[H.choose("run%d" % k, list(range(len(options))))]
                    for o in options:
                        if o is not p:
                            H.assume(H.leq(best(o), best(p), 0))
                else:
                    p = options[0]
                    for o in options[1:]:
                        if self.M.truth(best(o) > best(p)):
                            p = o
                pick += p
        self.result[g] = {self.heaviest(w[frozenset(e)])[0] for e in pick}
        self.mates = {}
        for a, b in pick:
            self.mates[a], self.mates[b] = b, a
        return 1

    def weight(self, a, size):
        c = self.M.mem.cells.get(a)
        if c is None or c[2]:
            return self.M.mem.load(a, size, True)
        v = self.M.mem.load(a, size, False)
        return v - (1 << 8 * size) if v >> (8 * size - 1) else v

    def heaviest(self, lst):
        best = lst[0]
        for x in lst[1:]:
            if self.M.truth(x[1] > best[1]):
                best = x
        return best

    def sc_matched(self, g, e):
        return int(e in self.result.get(g, ()))

    def sc_mate(self, g, u):
        return self.mates.get(u, 0xFFFFFFFF)


def signed(v, bits):
    return v - (1 << bits) if isinstance(v, int) and v >> (bits - 1) else v


def run(H, A, n, optimum, layout="C"):
    """The rows returned for a matrix."""
    if not H.symbolic:
        M = np.array([[float(x) for x in r] for r in A], dtype=float).reshape(n, n)
        if layout == "F":
            M = np.asfortranarray(M.astype(np.float32))
        elif layout == "strided":
            big = np.full((2 * n, 2 * n), GAP, dtype=np.float32)
            big[::2, ::2] = M
            M = big[::2, ::2]
        keep = M.copy()
        r = np.asarray(native().mwpm(M))
        H.check(np.array_equal(M, keep), "the matrix is left as it was")
        return r.ndim, r.tolist(), []
    from symcheck import llvmir, loader

    host = Host(H, A, n, optimum, layout)
    M = host.M = llvmir.Machine(module(), H, host)
    M.call("@sc_main", [])
    if "mwpm" not in host.defs:
        H.fail("the extension exports mwpm")
    tramp, f = host.defs["mwpm"]
    try:
        M.call(M.fn[tramp], [f])
    finally:
        for c in M.called:
            if re.search(r"mwpm|sc_module", c):
                loader.FUNCS_SEEN[("flamingpy.cpp.lemonpy", c[1:60])] = loader.FUNCS_SEEN.get(("flamingpy.cpp.lemonpy", c[1:60]), 0) + 1
    return host.out[0], host.out[1], host.late


def wrapper(H, n, sym="all", lo=-64, hi=64, weight=True, layout="C"):
    """The rows are the pairs of a perfect matching of largest total weight."""
    A = [[0] * n for _ in range(n)]
    for k, (i, j) in enumerate(it.combinations(range(n), 2)):
        if sym == "all" or k % sym[1] == sym[0]:
            x = H.real("a%d_%d" % (i, j), lo=lo, hi=hi)
        elif hi - lo > 1000:
            x = lo + (k * 37 + 11) * 1009 % (hi - lo)
        else:
            x = lo + (k * 37 + 11) % (hi - lo + 1)
        A[i][j] = A[j][i] = x
    ndim, rows, _ = run(H, A, n, True, layout)
    pairs(H, n, ndim, rows)
    if weight and rows:
        tot = H.total([A[i][j] for i, j in rows])
        tol = slack(max(abs(lo), abs(hi)))
        for o in perfect(list(range(n))):
            H.check(H.total([A[i][j] for i, j in o]) <= tot + tol, "no perfect matching has a larger total weight")


def slack(top):
    """Room for single precision."""
    return top / 2**20 + 2.0**-16


def pairs(H, n, ndim, rows):
    H.check(ndim == 2 or not rows, "the result has one row for each pair")
    H.check(all(len(r) == 2 for r in rows), "every row is a pair")
    H.check(sorted(x for r in rows for x in r) == list(range(n)), "the pairs cover every row of the matrix once")


def large(H, n, mode, top=0, scale=1, weight=True):
    """Many rows, in groups of four whose mutual entries are at least 48 above all others: the best matching stays within the groups."""
    A = [[scale * (top - 64)] * n for _ in range(n)]
    bs = blocks(n, mode)
    tol = slack(scale * 64)
    for k, b in enumerate(bs):
        for r, (i, j) in enumerate(it.combinations(b, 2)):
            x = H.real("a%d_%d" % (i, j), lo=scale * (top - 16), hi=scale * top) if k in (0, len(bs) - 1) else scale * (top - (k * 37 + r * 11) % 17)
            A[i][j] = A[j][i] = x
    for i in range(n):
        A[i][i] = 0
    ndim, rows, late = run(H, A, n, bs)
    pairs(H, n, ndim, rows)
    if weight:
        for b in bs:
            got = [tuple(r) for r in rows if r[0] in b and r[1] in b]
            H.check(len(got) == 2, "no perfect matching has a larger total weight")
            tot = H.total([A[i][j] for i, j in got])
            for o in perfect(b):
                H.check(H.total([A[i][j] for i, j in o]) <= tot + tol, "no perfect matching has a larger total weight")
    for c in late:
        H.check(c, "every entry of the matrix is the weight of its edge")


def backend_tasks(weight=True):
    """The wrapper as part of the LEMON backend: entries are minus the weights of the edges."""
    from symcheck.api import Task

    k = dict(lo=-64, hi=0, weight=weight)
    T = [Task("lemonpy-4", wrapper, n=4, **k), Task("lemonpy-4-wide", wrapper, n=4, lo=-(2**16), hi=0, weight=weight)]
    T += [Task("lemonpy-6-%d" % r, wrapper, n=6, sym=(r, 3), **k) for r in range(3)]
    return T + [Task("lemonpy-%d-%s" % (n, m), large, n=n, mode=m, scale=sc, weight=weight) for n, m, sc in ((16, "apart", 1), (24, "mirror", 1000), (32, "next", 1), (132, "mirror", 1))]
