"""Import flamingpy from source with call forms rewritten for symbolic values."""
import ast
import builtins
import functools
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import math
import numbers
import operator
import os
import sys
import types

import numpy as np

from symcheck import core, graphlib, npf
from symcheck.core import SymBase, SymBool, SymNum, Unsupported

REPO = os.environ.get("SYMCHECK_REPO", "/repo")

REWRITE = ("int", "float", "bool", "round", "isinstance", "min", "max", "sum", "abs", "any", "all", "len", "range",
           "sorted", "map", "type", "pow", "divmod", "enumerate")
REWRITE = ("int", "float", "bool", "round", "isinstance", "min", "max", "sum", "any", "all", "map", "pow")

NPTYPES = {"float64", "float32", "int64", "int32", "int16", "int8", "uint8", "int_", "intp", "bool_", "bool", "float16"}

FUNCS_SEEN = {}
SOURCES = {}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, bound):
        self.mod, self.bound, self.stack = modname, bound, []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in NPTYPES and len(node.args) == 1 and not node.keywords:
            name = ast.copy_location(ast.Name("__sc_npcast__", ast.Load()), node.func)
            return ast.copy_location(ast.Call(name, [node.func, node.args[0]], []), node)
        if isinstance(node.func, ast.Name) and node.func.id in REWRITE and node.func.id not in self.bound:
            node.func = ast.copy_location(ast.Name("__sc_%s__" % node.func.id, ast.Load()), node.func)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "dtype" and isinstance(node.ctx, ast.Load):
            name = ast.copy_location(ast.Name("__sc_dtype__", ast.Load()), node)
            return ast.copy_location(ast.Call(name, [node.value], []), node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = ".".join(self.stack)
        self.stack.pop()
        enter = ast.Expr(ast.Call(ast.Name("__sc_enter__", ast.Load()), [ast.Constant(self.mod), ast.Constant(q)], []))
        ast.copy_location(enter, node.body[0])
        ast.fix_missing_locations(enter)
        pos = 1 if (isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                    and isinstance(node.body[0].value.value, str) and len(node.body) > 1) else 0
        node.body.insert(pos, enter)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
    return out


# ---------------------------------------------------------------- builtins
def sc_enter(mod, q):
    k = (mod, q)
    FUNCS_SEEN[k] = FUNCS_SEEN.get(k, 0) + 1


def sc_int(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SymBase):
        return npf.cast_elem(a[0], "i")
    if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].size == 1:
        return sc_int(a[0].reshape(-1)[0])
    return int(*a, **k)


def sc_float(*a):
    if len(a) == 1 and isinstance(a[0], SymBase):
        return core.to_real(a[0])
    if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].size == 1:
        return sc_float(a[0].reshape(-1)[0])
    return float(*a)


def sc_bool(*a):
    if len(a) == 1 and isinstance(a[0], SymBase):
        return core._tobool(a[0])
    return bool(*a)


def sc_round(x, nd=None):
    if isinstance(x, SymBase):
        return core.rint(x) if nd is None else x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def sc_npcast(f, x):
    """np.int64(x) and the like."""
    if isinstance(f, type) and issubclass(f, np.generic):
        if isinstance(x, (SymBase, list, tuple)) and npf.has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
            return npf.cast(x if not isinstance(x, (list, tuple)) else npf.f_array(x), f)
    return f(x)


def sc_dtype(x):
    """x.dtype: arrays of symbolic numbers answer what a native array of such numbers would."""
    if isinstance(x, npf.SymArray):
        return npf.dtype_of(x)
    return x.dtype


def sc_isinstance(x, cls):
    if isinstance(x, SymBase):
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            if isinstance(c, tuple):
                flat.extend(c)
            elif isinstance(c, types.UnionType):
                flat.extend(c.__args__)
            else:
                flat.append(c)
        isb = isinstance(x, SymBool)
        isint = isb or x.isint
        for c in flat:
            if c is object:
                return True
            if isb and c in (bool, int, numbers.Number, numbers.Integral, numbers.Real):
                return True
            if not isb and isint and c in (int, np.integer, numbers.Number, numbers.Integral, numbers.Real, np.number):
                return True
            if not isint and c in (float, np.floating, numbers.Number, numbers.Real, np.number):
                return True
        return False
    return isinstance(x, cls)


def _minmax(native, pick):
    def g(*a, **k):
        vals = list(a[0]) if len(a) == 1 else list(a)
        if k.get("key") is None and any(isinstance(v, SymBase) for v in vals) and all(
            isinstance(v, (SymBase, int, float, np.generic)) for v in vals
        ):
            r = vals[0]
            for v in vals[1:]:
                # Python keeps the first of equal values
                r = core.ite(core.CTX.settle(core._tobool(v < r) if pick == "min" else core._tobool(v > r)), v, r)
            return r
        if len(a) == 1:
            if not vals and "default" in k:
                return k["default"]
            return native(vals, **{q: w for q, w in k.items() if q != "default"})
        return native(*a, **k)

    return g


def sc_sum(it_, start=0):
    vals = list(it_)
    if any(isinstance(v, SymBase) for v in vals) and all(isinstance(v, (SymBase, int, float, np.generic)) for v in vals):
        return npf.sum_list([start] + vals)
    return sum(vals, start)


def sc_any(it_):
    return any(bool(v) for v in it_)


def sc_all(it_):
    return all(bool(v) for v in it_)


def sc_map(f, *its):
    f = {int: sc_int, float: sc_float, bool: sc_bool, round: sc_round}.get(f, f)
    return map(f, *its)


def sc_pow(a, b, m=None):
    r = a**b
    return r if m is None else r % m


def _facades():
    import scipy
    import scipy.linalg
    import scipy.sparse
    import scipy.special
    import networkx as nx

    fac = {}
    npo = npf.make_overrides()
    npo["random"] = np.random
    fac["numpy"] = npf.Facade(np, npo)
    fac["numpy.linalg"] = npo["linalg"]
    mo = {}
    for n in ("exp", "log", "sqrt"):
        mo[n] = (lambda n: lambda x, *a: core.fn(n, x) if isinstance(x, SymBase) and not a else getattr(math, n)(x, *a))(n)
    mo["sqrt"] = lambda x: core.fn("sqrt", x) if isinstance(x, SymBase) else core.irrational("sqrt", x)
    mo["floor"] = lambda x: core.floor(x)
    mo["ceil"] = lambda x: -core.floor(-x)
    mo["trunc"] = lambda x: core.trunc(x) if isinstance(x, SymBase) else math.trunc(x)
    mo["fabs"] = lambda x: abs(x)
    mo["fmod"] = lambda x, y: (x - y * core.trunc(core.divide(x, y))) if isinstance(x, SymBase) or isinstance(y, SymBase) else math.fmod(x, y)
    mo["modf"] = lambda x: npf.s_modf(x)
    mo["isnan"] = lambda x: False if isinstance(x, SymBase) else math.isnan(x)
    mo["isinf"] = lambda x: False if isinstance(x, SymBase) else math.isinf(x)
    mo["isfinite"] = lambda x: True if isinstance(x, SymBase) else math.isfinite(x)
    mo["prod"] = lambda it_, start=1: functools.reduce(operator.mul, it_, start)
    mo["erf"] = lambda x: core.fn("erf", x) if isinstance(x, SymBase) else math.erf(x)
    mo["fsum"] = sc_sum
    mo["hypot"] = lambda *a: core.fn("sqrt", npf.sum_list([x * x for x in a])) if any(isinstance(x, SymBase) for x in a) else math.hypot(*a)
    mo["pow"] = lambda a, b: core.to_real(a**b) if isinstance(a, SymBase) or isinstance(b, SymBase) else math.pow(a, b)
    mo["dist"] = lambda p, q: core.fn("sqrt", npf.sum_list([(x - y) * (x - y) for x, y in zip(p, q)])) if npf.has_sym([list(p), list(q)]) else math.dist(p, q)
    mo["copysign"] = lambda x, y: core.ite(core.CTX.settle(core._tobool(y < 0)), -abs(x), abs(x)) if isinstance(x, SymBase) or isinstance(y, SymBase) else math.copysign(x, y)
    mo["isclose"] = lambda a, b, rel_tol=1e-09, abs_tol=0.0: (
        core.bool_or2(abs(a - b) <= rel_tol * abs(a), core.bool_or2(abs(a - b) <= rel_tol * abs(b), abs(a - b) <= abs_tol))
        if isinstance(a, SymBase) or isinstance(b, SymBase) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    fac["math"] = npf.Facade(math, mo)
    spo = npf.sp_overrides()
    fac["scipy.sparse"] = npf.Facade(scipy.sparse, spo)
    fac["scipy.linalg"] = npf.Facade(scipy.linalg, {"block_diag": npf.block_diag_dense})

    def erf(x, *a, **k):
        if isinstance(x, SymBase):
            return core.fn("erf", x)
        if npf._deep_obj(x):
            return npf.wrap(np.frompyfunc(lambda e: core.fn("erf", e) if isinstance(e, SymBase) else float(scipy.special.erf(e)), 1, 1)(npf.raw(x)))
        return scipy.special.erf(x, *a, **k)

    def erfc(x):
        return 1 - erf(x)

    fac["scipy.special"] = npf.Facade(scipy.special, {"erf": erf, "erfc": erfc})
    fac["scipy"] = npf.Facade(scipy, {"sparse": fac["scipy.sparse"], "linalg": fac["scipy.linalg"], "special": fac["scipy.special"]})

    def to_numpy_array(G, nodelist=None, dtype=None, order=None, multigraph_weight=sum, weight="weight", nonedge=0.0):
        nodes = list(G) if nodelist is None else list(nodelist)
        if set(nodes) - set(G):
            raise nx.NetworkXError("Nodes in nodelist is not in G")
        if len(set(nodes)) != len(nodes):
            raise nx.NetworkXError("nodelist contains duplicates")
        idx = {u: i for i, u in enumerate(nodes)}
        kind = int if dtype is not None and npf.dkind(dtype) in "iub" else float
        r = npf._create((len(nodes), len(nodes)), 0, dtype if kind is int else float)
        if nonedge != 0.0:
            r[...] = nonedge
        for u, v, d in G.edges(data=True):
            if u in idx and v in idx:
                w = d.get(weight, 1) if weight is not None else 1
                if kind is int:
                    w = npf.cast_elem(w, "i")
                else:
                    w = npf.cast_elem(w, "f")
                r[idx[u], idx[v]] = w
                r[idx[v], idx[u]] = w
        return r

    def to_scipy_sparse_array(G, nodelist=None, dtype=None, weight="weight", format="csr"):
        if len(G) == 0:
            raise nx.NetworkXError("Graph has no nodes or edges")
        return npf.SymSparse(to_numpy_array(G, nodelist, dtype, weight=weight))

    def adjacency_matrix(G, nodelist=None, dtype=None, weight="weight"):
        return to_scipy_sparse_array(G, nodelist, dtype, weight)

    fac["networkx"] = npf.Facade(nx, {"to_numpy_array": to_numpy_array, "to_scipy_sparse_array": to_scipy_sparse_array,
                                      "adjacency_matrix": adjacency_matrix})
    fac["rustworkx"] = graphlib.facade()
    return fac


FACADES = None


def sc_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.startswith("flamingpy.cpp"):
        m = builtins.__import__(name, globals, locals, fromlist, level)
        if "flamingpy.cpp.lemonpy" in sys.modules:
            graphlib.wrap_lemon(sys.modules["flamingpy.cpp.lemonpy"])
        return m
    if level == 0 and name.split(".")[0] in ("numpy", "math", "scipy", "networkx", "rustworkx"):
        if fromlist:
            f = FACADES.get(name)
            if f is not None:
                builtins.__import__(name)
                return f
            return builtins.__import__(name, globals, locals, fromlist, level)
        if "." not in name and name in FACADES:
            return FACADES[name]
        m = builtins.__import__(name, globals, locals, fromlist, level)
        top = name.split(".")[0]
        # `import a.b as c` resolves attribute by attribute from the top module
        return FACADES.get(top, m)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d["__import__"] = sc_import
    d.update(
        __sc_enter__=sc_enter, __sc_int__=sc_int, __sc_float__=sc_float, __sc_npcast__=sc_npcast, __sc_dtype__=sc_dtype, __sc_bool__=sc_bool, __sc_round__=sc_round,
        __sc_isinstance__=sc_isinstance, __sc_min__=_minmax(min, "min"), __sc_max__=_minmax(max, "max"), __sc_sum__=sc_sum,
        __sc_any__=sc_any, __sc_all__=sc_all, __sc_map__=sc_map, __sc_pow__=sc_pow,
    )
    return d


class SymLoader(importlib.abc.Loader):
    def __init__(self, path, name, ispkg):
        self.path, self.name, self.ispkg = path, name, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf8") as f:
            src = f.read()
        SOURCES[self.name] = (self.path, hashlib.sha256(src.encode()).hexdigest()[:16])
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.name, bound_names(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)
        stable_hashes(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "flamingpy" and not name.startswith("flamingpy."):
            return None
        rel = os.path.join(REPO, *name.split("."))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            spec = importlib.util.spec_from_loader(name, SymLoader(p, name, True), origin=p, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        if os.path.exists(rel + ".py"):
            return importlib.util.spec_from_loader(name, SymLoader(rel + ".py", name, False), origin=rel + ".py")
        return None


_counter = itertools.count()
_salt = [0]


def reset_hash(salt=0):
    global _counter
    _counter = itertools.count()
    _salt[0] = salt


def _stable_hash(self):
    h = self.__dict__.get("_sc_h")
    if h is None:
        n = next(_counter)
        h = self.__dict__["_sc_h"] = ((n + 1) * (1 if not _salt[0] else 2654435761 * (2 * _salt[0] + 1))) % (2**31 - 1)
    return h


def stable_hashes(module):
    """Identity-hashed classes get creation-order hashes: set order becomes reproducible."""
    for v in list(vars(module).values()):
        if isinstance(v, type) and v.__module__ == module.__name__ and "__slots__" not in v.__dict__:
            if v.__hash__ is object.__hash__ and not issubclass(v, BaseException):
                v.__hash__ = _stable_hash


BUILTINS = None


def install():
    global FACADES, BUILTINS
    if FACADES is None:
        FACADES = _facades()
        BUILTINS = make_builtins()
        for m in [m for m in sys.modules if m == "flamingpy" or m.startswith("flamingpy.")]:
            del sys.modules[m]
        sys.meta_path.insert(0, Finder())
