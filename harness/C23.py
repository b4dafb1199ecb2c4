"""Monte Carlo tallies and stored records."""
import csv
import inspect
import os
import re
import shutil
import tempfile

from symcheck.api import Task

BOUNDS = ("0 to 6 (quick) / 9 (thorough) trials on 1 to 4 workers, with and without MPI, the verdict of every trial symbolic (and 600, thorough 3000, trials whose verdicts repeat any pattern of three); records of up to 3 consecutive simulations for listed "
          "values of the arguments (numbers, tuples, dictionaries, None, strings with commas, quotes and line breaks), new and existing files, default and given file name; two consecutive runs of the command line with three sets of arguments and every accepted spelling of the decoders")
ASSUMPTIONS = ["noise and correction are replaced by stand-ins that log the call and return an arbitrary verdict (their behaviour is the subject of other properties)",
               "MPI is replaced by a sequential stand-in whose Reduce combines the buffers of all ranks with the requested operation",
               "a generator's draws are identified by its seed and position"]


class Proxy:
    """An object with some attributes replaced."""

    def __init__(self, base, **over):
        self.__dict__.update(over)
        self._base = base

    def __getattr__(self, a):
        return getattr(self._base, a)


class Gen:
    """A generator: its draws are identified by seed and position."""

    def __init__(self, seed):
        self.seed, self.pos = seed, 0


class Comm:
    def __init__(self, size):
        self.size, self.rank, self.sent, self.H = size, 0, {}, None

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Barrier(self):
        pass

    barrier = Barrier

    def combine(self, op):
        vals = [self.sent[r] for r in sorted(self.sent)]
        if op in ("sum", None):
            return sum(vals[1:], vals[0])
        if op == "prod":
            t = 1
            for v in vals:
                t = t * v
            return t
        return {"max": max, "min": min}[op](vals)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        self.sent[self.rank] = sendbuf[0]
        if self.rank == root:
            recvbuf[0] = self.combine(op)

    def reduce(self, sendobj, op=None, root=0):
        self.sent[self.rank] = sendobj
        return self.combine(op) if self.rank == root else None


class MPI:
    SUM, MAX, MIN, PROD = "sum", "max", "min", "prod"


class World:
    """The patched simulation module."""

    period = 10**6

    def __init__(self, H, mpi, size, decoder, opts):
        self.H, self.mpi, self.size, self.decoder, self.opts = H, mpi, size, decoder, opts
        self.sim = sim = H.mod("simulations")
        self.results, self.draws, self.pending = [], [], None
        self.code = self.noise = None
        sig = inspect.signature(H.mod("decoders.decoder").correct)

        def correct(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            b = b.arguments
            H.check(b["code"] is self.code, "the given code is corrected")
            H.check(b["decoder"] == self.decoder, "the requested decoder is used")
            H.check((b["weight_options"] or {}) == (self.opts or {}), "the requested weight options are used")
            H.check(self.pending is not None, "noise is applied before each correction")
            self.pending = None
            r = H.bit("v%d" % (len(self.results) % self.period))
            self.results.append(r)
            return r == 1

        H.patch(sim, "correct", correct)
        base = sim.np
        H.patch(sim, "np", Proxy(base, random=Proxy(base.random, default_rng=lambda seed=None: Gen(seed))))
        H.patch(sim, "default_rng", lambda seed=None: Gen(seed))
        H.patch(sim, "int_time", H.int("time", 0))
        if mpi:
            self.comm = Comm(size)
            m = MPI()
            m.COMM_WORLD = self.comm
            H.patch(sim, "MPI", m, create=True)
        elif hasattr(sim, "MPI"):
            raise NotImplementedError("MPI is installed")

    def apply(self, rng):
        H = self.H
        H.check(self.pending is None, "one correction for each application of noise")
        self.pending = True
        if rng is None or not isinstance(rng, Gen):
            return
        for g, pos in self.draws:
            if g is rng:
                H.check(pos != rng.pos, "no two trials use the same draws")
            else:
                H.check(H.not_(H.all([g.seed == rng.seed, pos == rng.pos])) if g.seed is not None and rng.seed is not None else True, "no two trials use the same draws")
        self.draws.append((rng, rng.pos))
        rng.pos += 1


def stub_noise(W):
    class Noise:
        def __init__(self, code=None, **kw):
            self.code, self.kw = code, kw
            W.noise = self

        def apply_noise(self, rng=None):
            W.apply(rng)

    return Noise


def stub_code(W):
    class Code:
        def __init__(self, **kw):
            self.kw = kw
            W.code = self

    return Code


def tally(H, maxtrials, mpi, decoder="MWPM", opts=None):
    n = H.choose("trials", list(range(maxtrials + 1)))
    size = H.choose("size", [1, 2, 3, 4]) if mpi else 1
    W = World(H, mpi, size, decoder, opts)
    code = stub_code(W)()
    noise = stub_noise(W)(code)
    args = {"weight_opts": opts}
    err = None
    for rank in range(size - 1, -1, -1):
        if mpi:
            W.comm.rank = rank
            err = W.sim.ec_monte_carlo(n, code, noise, decoder, args, W.comm, rank, size)
        elif H.concrete(H.bit("explicit")):
            err = W.sim.ec_monte_carlo(n, code, noise, decoder, args, None, 0, 1)
        else:
            err = W.sim.ec_monte_carlo(n, code, noise, decoder, args)
    H.check(len(W.results) == n, "every trial is run by exactly one worker")
    H.check(err == H.total([1 - r for r in W.results]), "the number of errors is the number of failed trials")


def many(H, n, period, mpi):
    """Long simulations; the verdicts repeat with an arbitrary pattern."""
    size = 3 if mpi else 1
    W = World(H, mpi, size, "MWPM", None)
    W.period = period
    W.apply = lambda rng: setattr(W, "pending", True)
    code = stub_code(W)()
    noise = stub_noise(W)(code)
    for rank in range(size - 1, -1, -1):
        if mpi:
            W.comm.rank = rank
        err = W.sim.ec_monte_carlo(n, code, noise, "MWPM", {"weight_opts": None}, W.comm if mpi else None, rank, size)
    H.check(len(W.results) == n, "every trial is run by exactly one worker")
    H.check(err == H.total([(1 - r) * len(range(k, n, period)) for k, r in enumerate(W.results[:period])]), "the number of errors is the number of failed trials")


def trial(H):
    """A single trial returns the verdict of its correction."""
    opts = {"method": "uniform"}
    W = World(H, False, 1, "UF", opts)
    code = stub_code(W)()
    noise = stub_noise(W)(code)
    for k in range(2):
        r = W.sim.ec_mc_trial(code, noise, "UF", opts, Gen(5 + k)) if k else W.sim.ec_mc_trial(code, noise, "UF", opts)
        H.check(len(W.results) == k + 1, "one correction per trial")
        H.check(H.iff(r, W.results[k] == 1), "the verdict is that of the correction")


ARGS = {
    "plain": ({"distance": 3, "ec": "primal"}, {"delta": 0.09, "p_swap": 0}, {"weight_opts": {"method": "uniform"}}),
    "tuple": ({"distance": (3, 2, 4), "ec": "dual", "boundaries": ("open", "toric")}, {"delta": 1e-12}, {"weight_opts": {"method": "blueprint", "integer": True, "multiplier": 100}, "backend": "networkx"}),
    "text": ({"ec": 'say "x", y', "boundaries": ""}, {"error_probability": 0.1, "note": "a;b\tc 'd'"}, {"weight_opts": None, "label": " lead, trail "}),
    "lines": ({"ec": "two\nlines"}, {"note": 'q"'}, {"weight_opts": {}}),
    "order": ({"z": 1, "ec": "dual", "distance": 3, "Boundaries": "open"}, {"p_swap": 0.5, "delta": 0.1, "alpha": 2}, {"weight_opts": {"integer": True, "delta": 0.1, "method": "blueprint"}, "backend": "lemon", "a": 0}),
    "none": ({}, {}, {"weight_opts": {"delta": None}}),
    "list": ({"polarity": [1, -1], "n": None}, {"states": {"p": [0, 1, 2]}}, {"weight_opts": {"a": (1, 2)}}),
}


def record(H, which, runs, maxtrials, mpi, default=False, existing=False):
    ca, na, da = ARGS[which]
    size = H.choose("size", [1, 3]) if mpi else 1
    W = World(H, mpi, size, "UF", da["weight_opts"])
    Code, Noise = stub_code(W), stub_noise(W)
    folder = tempfile.mkdtemp(prefix="c23-")
    cwd = os.getcwd()
    try:
        os.chdir(folder)
        if default:
            os.makedirs("flamingpy/.sims_data")
            fname, where = None, "flamingpy/.sims_data/sims_results.csv"
        else:
            where = fname = os.path.join(folder, "out.csv")
        old = ""
        if existing:
            old = "an,earlier,header\n1,2,3\n"
            with open(where, "w", encoding="utf8") as f:
                f.write(old)
        want = []
        for r in range(runs):
            n = H.choose("trials%d" % r, list(range(maxtrials + 1)))
            first, start = len(W.results), dict(ca)
            for rank in range(size - 1, -1, -1):
                if mpi:
                    W.comm.rank = rank
                W.draws = []
                W.sim.run_ec_simulation(n, Code, dict(ca), Noise, dict(na), "UF", dict(da), *([] if default else [fname]))
                H.check(W.code.kw == ca and W.noise.kw == na and W.noise.code is W.code, "code and noise are built from the arguments")
                if rank:
                    H.check(count(where) == len(want) + (bool(want)) + (2 if existing else 0) - (bool(want) and existing), "only one worker writes the record")
            if mpi:
                W.comm.sent = {}
            H.check(len(W.results) - first == n, "every trial is run by exactly one worker")
            want.append((n, H.concrete(H.total([1 - v for v in W.results[first:]]))))
        with open(where, newline="", encoding="utf8") as f:
            text = f.read()
        H.check(text.startswith(old) and text.endswith("\n"), "earlier content of the file is kept")
        rows = list(csv.reader(text[len(old):].splitlines(keepends=True)))
        head = ["code", *ca, "noise", *na, "decoder", *da, "errors", "trials", "current_time", "simulation_time", "mpi_size"]
        if not existing:
            H.check(rows[0] == head, "the header names every column")
            rows = rows[1:]
        H.check(len(rows) == runs, "one row per simulation")
        for row, (n, e) in zip(rows, want):
            H.check(len(row) == len(head), "one value per column")
            vals = ["Code", *map(str, ca.values()), "Noise", *map(str, na.values()), "UF", *map(str, da.values()), str(e), str(n)]
            H.check(row[: len(vals)] == vals, "the values are those of the header's columns")
            H.check(re.fullmatch(r"\d\d:\d\d:\d\d", row[-3]) is not None and float(row[-2]) >= 0 and row[-1] == str(size), "time and number of workers are recorded")
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)


SPELL = {"MWPM": ["MWPM", "mwpm", "Minimum Weight Perfect Matching"], "UF": ["UF", "uf", "unionfind", "Union-Find", "union find"]}


def command(H, decoder, which, noise, maxtrials):
    """The command line: one process of the script for each simulation."""
    ca, na, da = ARGS[which]
    W = World(H, False, 1, decoder, da["weight_opts"])
    Code, Noise = stub_code(W), stub_noise(W)
    Code.__name__, Noise.__name__ = "SurfaceCode", noise
    H.patch(H.mod("codes"), "SurfaceCode", Code)
    for n in ("CVLayer", "CVMacroLayer", "IidNoise"):
        H.patch(H.mod("noise"), n, Noise if n == noise else stub_noise(W))
    H.patch(H.mod("decoders.decoder"), "correct", W.sim.correct)
    # outside of the main program's own module
    W.apply = lambda rng: setattr(W, "pending", True)
    folder = tempfile.mkdtemp(prefix="c23-")
    cwd = os.getcwd()
    try:
        os.chdir(folder)
        os.makedirs("flamingpy/.sims_data")
        want = []
        for k in range(2):
            first = len(W.results)
            n = H.choose("trials%d" % k, list(range(1, maxtrials + 1)))
            word = SPELL[decoder][-1] if k else H.choose("decoder", SPELL[decoder])
            opts = [("-code", "SurfaceCode"), ("-code_args", repr(ca)), ("-noise", noise), ("-noise_args", repr(na)), ("-decoder", word), ("-decoder_args", repr(da)), ("-trials", str(n))]
            if k:
                opts.reverse()
            H.script("simulations", [x for o in opts for x in o])
            H.check(type(W.noise).__name__ == noise and type(W.code) is Code, "the requested code and noise are simulated")
            H.check(W.code.kw == ca and W.noise.kw == na and W.noise.code is W.code, "code and noise are built from the arguments")
            H.check(len(W.results) - first == n, "the requested number of trials is run")
            want.append((n, H.concrete(H.total([1 - v for v in W.results[first:]]))))
        with open("flamingpy/.sims_data/sims_results.csv", newline="", encoding="utf8") as f:
            rows = list(csv.reader(f))
        H.check(len(rows) == 3, "one row per simulation")
        for row, (n, e) in zip(rows[1:], want):
            vals = ["SurfaceCode", *map(str, ca.values()), noise, *map(str, na.values()), decoder, *map(str, da.values()), str(e), str(n)]
            H.check(row[: len(vals)] == vals, "the values are those of the header's columns")
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)


def count(path):
    if not os.path.exists(path):
        return 0
    with open(path, newline="", encoding="utf8") as f:
        return len(list(csv.reader(f)))


def tasks(tier):
    q = tier == "quick"
    n = 6 if q else 9
    o = {"concrete_str": True}
    T = [Task("tally-single", tally, maxtrials=n, mpi=False, opts={"cost": 3}), Task("trial", trial)]
    T.append(Task("tally-single-opts", tally_opts, maxtrials=3, mpi=False, decoder="UF"))
    T.append(Task("tally-mpi", tally, split=2, maxtrials=n, mpi=True, opts={"cost": 6}))
    T.append(Task("tally-mpi-opts", tally_opts, maxtrials=4, mpi=True, decoder="UF"))
    for mpi in (False, True):
        T.append(Task("many-%d" % mpi, many, n=600 if q else 3000, period=3, mpi=mpi, opts={"cost": 5}))
    for w in ARGS:
        T.append(Task("record-%s" % w, record, which=w, runs=2, maxtrials=2 if q else 3, mpi=False, opts=o))
        T.append(Task("record-mpi-%s" % w, record, which=w, runs=2, maxtrials=2 if q else 4, mpi=True, opts=o))
        T.append(Task("record-existing-%s" % w, record, which=w, runs=2, maxtrials=2, mpi=False, existing=True, opts=o))
    T.append(Task("record-default", record, which="plain", runs=3, maxtrials=1, mpi=False, default=True, opts=o))
    for d in SPELL:
        for w, nz in (("tuple", "CVMacroLayer"), ("plain", "IidNoise"), ("text", "CVLayer")):
            T.append(Task("command-%s-%s" % (d, w), command, decoder=d, which=w, noise=nz, maxtrials=2 if q else 3, opts=o))
    T.append(Task("record-many", record, which="tuple", runs=1, maxtrials=n, mpi=True, opts=o))
    return T


def tally_opts(H, maxtrials, mpi, decoder):
    tally(H, maxtrials, mpi, decoder, {"method": "blueprint", "prob_precomputed": True})
