"""Exploration of one task."""
import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from symcheck import core, loader
from symcheck.api import SymH
from symcheck.core import AbortPath, Context, Inconclusive, Stats, Unsupported, Violation, set_ctx

PY = sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.detail = ""
        self.stats = {}
        self.samples = []
        self.witnesses = []
        self.violation = None
        self.known = []
        self.nonrepro = []
        self.functions = {}
        self.signature = None
        self.validated = 0
        self.sampled = 0
        self.validation_mismatch = 0
        self.wall = 0.0


def sig_of(prefix):
    return hashlib.sha256(repr([(core.show_bool(b), v) for b, v in prefix]).encode()).hexdigest()


def run_task(prop, task, shard, outdir, tier, seed, deadline, known):
    loader.install()
    res = Result(task.name + ("" if task.split == 1 else "#%d" % shard))
    st = Stats()
    t0 = time.time()
    opts = {"seed": seed}
    opts.update(task.opts)
    work = [[]]
    salt = task.params.get("salt", 0)
    models = []
    rnd = random.Random(seed)
    undecided = []

    def one(prefix):
        """Run one path; returns alternatives."""
        loader.reset_hash(salt)
        try:
            ctx = Context(prefix, st, opts)
        except AbortPath:
            st.aborted += 1
            return []
        set_ctx(ctx)
        H = SymH(ctx, st)
        before = st.reached
        try:
            try:
                task.func(H, **task.params)
            except Exception as e:  # crash of the code under test
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f for f in reversed(tb) if "/flamingpy/" in f.filename), tb[-1])
                ms = ctx.any_model()
                if ms is None:
                    raise AbortPath()
                raise Violation("unexpected %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(where.filename), where.name), ms, "exception:" + type(e).__name__)
            st.paths += 1
            if st.reached > before and len(models) < 400:
                if ctx.solver is None and not ctx.nonlin:
                    models.append(("gf2", ctx))
                elif len(models) < 6 or rnd.random() < 0.02:
                    models.append(("z3", ctx))
        except AbortPath:
            st.aborted += 1
        except Violation as v:
            st.paths += 1
            handle(v, ctx)
        except (Unsupported, Inconclusive) as e:
            # the other branches may still be decided, or violate the property
            undecided.append(str(e) + "\n" + traceback.format_exc()[-2500:])
            if len(undecided) >= (60 if isinstance(e, Unsupported) else 4):
                raise
        finally:
            H.unpatch()
            set_ctx(None)
        return ctx.alts

    def handle(v, ctx):
        for k in known:
            if k["property"] == prop and k.get("task", task.name) == task.name and k["msg"] in v.msg:
                if k["what"] not in res.known:
                    res.known.append(k["what"])
                return
        for n, m in enumerate(v.models):
            path = os.path.join(outdir, "%s-%s-%d-%d.json" % (prop, safe(task.name), shard, len(res.nonrepro) * 10 + n))
            rec = {"property": prop, "task": task.name, "tier": tier, "message": v.msg, "kind": v.kind, "inputs": m,
                   "params": repr(task.params)}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            rc, out = replay(path)
            if rc == 1:
                res.violation = path
                res.status = "violation"
                res.detail = v.msg + " | replay: " + out.strip().splitlines()[-1][:300]
                raise StopIteration
        res.nonrepro.append(v.msg + " :: " + out.strip()[-600:])
        if len(res.nonrepro) >= 6:
            res.status = "nonrepro"
            raise StopIteration

    try:
        # frontier shared by all shards
        if task.split > 1:
            queue = [[]]
            first = True
            while queue and len(queue) < 8 * task.split:
                p = queue.pop(0)
                save = (st.__dict__.copy(), list(models), list(res.known))
                alts = one(p)
                if shard != 0:
                    st.__dict__.update(save[0])
                    models[:] = save[1]
                queue.extend(alts)
                if time.time() > deadline:
                    raise Inconclusive("time budget")
            res.signature = hashlib.sha256("".join(sorted(sig_of(p) for p in queue)).encode()).hexdigest()
            work = queue[shard::task.split]
        while work:
            if time.time() > deadline:
                raise Inconclusive("time budget exhausted with %d open branches after %d paths" % (len(work), st.paths))
            work.extend(one(work.pop()))
        if undecided:
            res.status, res.detail = "unsupported", undecided[0]
        elif res.nonrepro:
            res.status, res.detail = "nonrepro", res.nonrepro[0]
        elif st.reached == 0 and shard == 0 and not res.known and task.split == 1:
            res.status, res.detail = "vacuous", "no path reached a check"
    except StopIteration:
        if res.status == "nonrepro":
            res.detail = res.nonrepro[0]
    except Inconclusive as e:
        res.status, res.detail = "inconclusive", str(e)
    except Unsupported as e:
        res.status, res.detail = "unsupported", str(e) + "\n" + traceback.format_exc()[-2500:]
    except Exception as e:
        res.status, res.detail = "error", traceback.format_exc()[-2500:]
    if res.status in ("unsupported", "error", "inconclusive", "nonrepro") and tier == "quick":
        degrade(prop, task, shard, outdir, tier, seed, deadline, res, known)
    # validate some explored paths on the real code
    if res.status == "ok" and models:
        rnd.shuffle(models)
        recs = []
        for kind, ctx in models[: opts.get("validate", 3)]:
            try:
                m = ctx.some_model()
                if m is not None:
                    recs.append(m)
            except core.EngineControl:
                pass
        for i, m in enumerate(recs):
            has_real = any(a.kind == "r" for a in models[0][1].inputs.values()) or any(isinstance(v, list) for v in m.values())
            res.witnesses.append({"property": prop, "task": task.name, "tier": tier, "message": "validation", "kind": "check",
                                  "inputs": m, "real": has_real, "shard": shard})
        if recs:
            res.samples = [{"task": task.name, "inputs": dict(list(recs[0].items())[:40])}]
    res.stats = st.as_dict()
    res.functions = {"%s:%s" % k: v for k, v in loader.FUNCS_SEEN.items()}
    res.sources = dict(loader.SOURCES)
    res.wall = time.time() - t0
    return res


def degrade(prop, task, shard, outdir, tier, seed, deadline, res, known):
    """A task the engine could not decide: look for violations with concrete runs, and say so."""
    if shard:
        return
    path = os.path.join(outdir, "%s-%s-s.json" % (prop, safe(task.name)))
    secs = max(2, min(10, deadline - time.time()))
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "replay.py"), "--sample", prop, tier, task.name, str(seed), str(secs), path],
                           capture_output=True, text=True, timeout=secs + 60, env=replay_env(), cwd=ROOT)
    except subprocess.TimeoutExpired:
        return
    line = (p.stdout.strip().splitlines() or [""])[-1]
    if p.returncode == 1 and line.startswith("SAMPLED") and os.path.exists(path):
        msg = json.load(open(path))["message"]
        if any(k["property"] == prop and k.get("task", task.name) == task.name and k["msg"] in msg for k in known):
            return
        rc, out = replay(path)
        if rc == 1:
            res.status, res.violation = "violation", path
            res.detail = "(found by a concrete run; the task was not encodable: %s) %s" % (res.detail.splitlines()[0][:200], msg)
    elif p.returncode == 0 and line.startswith("SAMPLED"):
        res.sampled = int(line.split()[1])


def safe(s):
    return "".join(c if c.isalnum() or c in "-_." else "_" for c in s)


def replay_env():
    return dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")


def replay(path, timeout=200):
    env = replay_env()
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "replay.py"), path], capture_output=True, text=True, timeout=timeout, env=env, cwd=ROOT)
    except subprocess.TimeoutExpired:
        return 3, "replay timed out"
    return p.returncode, p.stdout + p.stderr[-1500:]
