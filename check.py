"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
for k, v in dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1").items():
    if os.environ.get(k) != v:
        os.environ.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.path.insert(0, ROOT)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

WALL = {"quick": 780, "thorough": 6 * 3600}


def child(prop, task, shard, outdir, tier, seed, deadline, known, path):
    from symcheck import engine

    sys.setrecursionlimit(20000)
    try:
        r = engine.run_task(prop, task, shard, outdir, tier, seed, deadline, known)
    except BaseException:
        import traceback

        r = engine.Result(task.name)
        r.status, r.detail = "error", traceback.format_exc()[-3000:]
    with open(path, "wb") as f:
        pickle.dump(r, f)
    os._exit(0)


def validate(prop, results, outdir, jobs, deadline):
    """Run witnesses of explored paths on the unmodified code."""
    from symcheck import engine
    import subprocess

    items = [(r, w) for r in results for w in r.witnesses]
    items.sort(key=lambda x: x[0].name)
    n = max(1, min(jobs, (len(items) + 3) // 4))
    procs = []
    for k in range(n):
        part = items[k::n]
        path = os.path.join(outdir, "%s-validate-%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump([w for _, w in part], f)
        procs.append((part, path, subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(ROOT, "replay.py"), path], cwd=ROOT,
                                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for part, path, p in procs:
        try:
            out, err = p.communicate(timeout=max(30, min(400, deadline - time.time() + 60)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        os.unlink(path)
        for line in out.splitlines():
            if not line.startswith("BATCH "):
                continue
            _, k, verdict = line.split(" ", 3)[:3]
            r, w = part[int(k)]
            if verdict == "ok":
                r.validated += 1
            elif verdict == "fail":
                r.validation_mismatch += 1
                if not w["real"] and r.status == "ok":
                    # no rounding involved: the real code contradicts the checks
                    vp = os.path.join(outdir, "%s-%s-%d-v%s.json" % (prop, engine.safe(w["task"]), w["shard"], k))
                    with open(vp, "w") as f:
                        json.dump(dict(w, message=line), f)
                    rc, o = engine.replay(vp)
                    if rc == 1:
                        r.status, r.violation, r.detail = "violation", vp, line


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--task", default=None)
    ap.add_argument("-j", type=int, default=int(os.environ.get("SYMCHECK_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in WALL else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("harness." + prop)
    tasks = mod.tasks(tier)
    assert len({t.name for t in tasks}) == len(tasks), "duplicate task names"
    if a.task:
        tasks = [t for t in tasks if a.task in t.name]
    evdir = os.environ.get("SYMCHECK_EVIDENCE", os.path.join(ROOT, "evidence"))
    outdir = os.path.join(evdir, "replay")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(outdir, f))
    try:
        known = json.load(open(os.path.join(ROOT, "known-findings.json")))["known"]
    except FileNotFoundError:
        known = []
    deadline = t0 + WALL[tier]
    jobs = [(t, s) for t in tasks for s in range(t.split)]
    jobs.sort(key=lambda j: -j[0].opts.get("cost", 0))
    tmp = tempfile.mkdtemp(prefix="symcheck")
    ctx = mp.get_context("fork")
    running, results, violated = {}, [], False
    i = 0
    while (i < len(jobs) or running) and not violated:
        while i < len(jobs) and len(running) < a.j:
            t, s = jobs[i]
            path = os.path.join(tmp, "%d.pkl" % i)
            p = ctx.Process(target=child, args=(prop, t, s, outdir, tier, seed, deadline, known, path))
            p.start()
            running[i] = (p, path, t, s)
            i += 1
        time.sleep(0.01)
        for k, (p, path, t, s) in list(running.items()):
            if p.is_alive():
                continue
            p.join()
            del running[k]
            try:
                r = pickle.load(open(path, "rb"))
            except Exception:
                from symcheck.engine import Result

                r = Result(t.name)
                r.status, r.detail = "error", "worker died (exit %s)" % p.exitcode
            r.task = t.name
            results.append(r)
            if a.v:
                print("  %-40s %-10s %6.1fs paths=%s obl=%s z3=%s val=%d %s" % (r.name, r.status, r.wall, r.stats.get("paths"), r.stats.get("obligations"), r.stats.get("z3_queries"), r.validated, r.detail[:1500] if r.status != "ok" else ""), flush=True)
            if r.status == "violation":
                violated = True
    for p, *_ in running.values():
        p.kill()
        p.join()
    if not violated and all(r.status == "ok" for r in results):
        validate(prop, results, outdir, a.j, deadline)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    # shards of one task must agree on the frontier
    sigs = {}
    for r in results:
        if r.signature:
            sigs.setdefault(r.task, set()).add(r.signature)
    for n, v in sigs.items():
        if len(v) > 1 and not violated:
            results[0].status, results[0].detail = "error", "shards of %s disagree" % n
    tot = {}
    for r in results:
        for k, v in r.stats.items():
            tot[k] = tot.get(k, 0) + v
    funcs, srcs = {}, {}
    for r in results:
        for k, v in r.functions.items():
            funcs[k] = funcs.get(k, 0) + v
        srcs.update(getattr(r, "sources", {}))
    bad = [r for r in results if r.status not in ("ok", "violation")]
    # tasks the engine could not decide do not make the others worthless
    undecided = bad if bad and any(r.status == "ok" for r in results) and all(r.status in ("unsupported", "error", "inconclusive", "nonrepro") for r in bad) and tier == "quick" else []
    viol = [r for r in results if r.status == "violation"]
    knownseen = sorted({k for r in results for k in r.known})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other" if undecided else "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": sum(r.validated for r in results),
            "samples": [s for r in results for s in r.samples][:5] or [{"task": t.name, "params": repr(t.params)} for t in tasks[:3]],
            "obligations": tot.get("obligations", 0),
            "obligations_constant": tot.get("obl_const", 0),
            "obligations_gf2": tot.get("obl_gf2", 0),
            "obligations_z3": tot.get("obl_z3", 0),
            "forks": tot.get("forks", 0),
            "paths_cut_by_assumptions": tot.get("aborted", 0),
            "solver_queries": tot.get("z3_queries", 0),
            "solver_time_s": round(tot.get("z3_time", 0.0), 3),
            "validation_mismatches": sum(r.validation_mismatch for r in results),
            "tasks": [{"task": r.name, "status": r.status, "paths": r.stats.get("paths"), "obligations": r.stats.get("obligations"), "wall_s": round(r.wall, 2)} for r in results],
            "undecided_tasks": [{"task": r.name, "status": r.status, "reason": r.detail[:300], "concrete_runs_instead": r.sampled} for r in undecided],
            "functions_encoded": funcs,
            "sources_sha256": {k: v[1] for k, v in srcs.items()},
            "bounds": getattr(mod, "BOUNDS", ""),
            "explanation": "states = symbolic paths explored to the end; transitions = branch decisions on symbolic conditions; every obligation is path condition => assertion, decided for all values",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not a.task:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in knownseen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d tasks, %d paths, %d obligations (%d by z3), %d queries, %.1fs solver, %.1fs wall" % (
        prop, tier, len(results), tot.get("paths", 0), tot.get("obligations", 0), tot.get("obl_z3", 0), tot.get("z3_queries", 0), tot.get("z3_time", 0), time.time() - t0))
    if viol:
        r = viol[0]
        print("  %s: %s" % (r.name, r.detail))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(r.violation, ROOT)))
        return 1
    if undecided:
        for r in undecided:
            print("  UNDECIDED %s: %s: %s (%d concrete runs instead, none violates)" % (r.name, r.status, r.detail.splitlines()[0][:300] if r.detail else "", r.sampled))
        return 0
    if bad:
        for r in bad:
            print("  ERROR %s: %s: %s" % (r.name, r.status, r.detail[:2500]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
