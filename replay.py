"""Re-run one counterexample (or a batch of witnesses) on unmodified flamingpy.

usage: replay.py FILE.json     exit 1: the violation is reproduced
"""
import importlib
import itertools
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("SYMCHECK_REPO", "/repo")
sys.path.insert(0, REPO)

from symcheck.api import ConcH, NotApplicableInput, Reproduced  # noqa: E402


HASHES = [itertools.count(), 0]


def stable_hash(self):
    v = self.__dict__.get("_sc_h")
    if v is None:
        n, salt = next(HASHES[0]), HASHES[1]
        v = self.__dict__["_sc_h"] = ((n + 1) * (1 if not salt else 2654435761 * (2 * salt + 1))) % (2**31 - 1)
    return v


def stable_hashes():
    """Reproducible iteration order of sets of identity-hashed objects."""

    for name, m in list(sys.modules.items()):
        if name.startswith("flamingpy") and m is not None:
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == name and "__slots__" not in v.__dict__:
                    if v.__hash__ is object.__hash__ and not issubclass(v, BaseException):
                        v.__hash__ = stable_hash


def run(task, inputs, H=None):
    import flamingpy  # noqa: F401

    H = ConcH(inputs) if H is None else H
    real_mod = H.mod

    def mod(name):
        m = real_mod(name)
        stable_hashes()
        return m

    H.mod = mod
    H.rewind = lambda: HASHES.__setitem__(0, itertools.count())
    HASHES[:] = [itertools.count(), task.params.get("salt", 0)]
    try:
        task.func(H, **task.params)
    finally:
        H.unpatch()
    return H


def find(prop, tier, name, cache={}):
    if (prop, tier) not in cache:
        cache[prop, tier] = {t.name: t for t in importlib.import_module("harness." + prop).tasks(tier)}
    return cache[prop, tier][name]


def sample(prop, tier, name, seed, seconds, out):
    """Random concrete runs of a task that could not be encoded; exit 1 if one violates it."""
    import random
    import time

    from symcheck.api import RandH

    task = find(prop, tier, name)
    rnd = random.Random(seed)
    end = time.time() + seconds
    n = tried = 0
    real = []  # violations that depend on rounded real inputs have to recur
    while time.time() < end and tried < 2000 and n < 300:
        tried += 1
        H = RandH(rnd, rnd.choice([0.0, 0.03, 0.1, 0.3, 0.5]) if tried > 1 else 0.0, tried % 2 == 0)
        bad = kind = None
        try:
            run(task, None, H)
            n += 1
        except NotApplicableInput:
            pass
        except Reproduced as e:
            bad, kind = str(e), "check"
        except Exception as e:
            bad, kind = "unexpected %s: %s" % (type(e).__name__, e), "exception:" + type(e).__name__
        if bad is not None and H.has_real:
            n += 1
            if H.generic:
                real.append((bad, kind, H.values))
            if len(real) < 3 or real[-1][0] not in (r[0] for r in real[:-1]):
                continue
        if bad is not None:
            with open(out, "w") as f:
                json.dump({"property": prop, "task": name, "tier": tier, "message": bad, "kind": kind, "inputs": H.values, "params": repr(task.params)}, f, indent=1)
            print("SAMPLED %d VIOLATION %s" % (n, bad))
            return 1
    print("SAMPLED %d" % n)
    return 0


def batch(items):
    """Run witnesses of explored paths; one result line each."""
    for k, rec in enumerate(items):
        try:
            H = run(find(rec["property"], rec["tier"], rec["task"]), rec["inputs"])
            print("BATCH %d ok %d" % (k, H.checks))
        except NotApplicableInput as e:
            print("BATCH %d skip %s" % (k, e))
        except Reproduced as e:
            print("BATCH %d fail %s" % (k, e))
        except Exception as e:
            print("BATCH %d fail %s: %s" % (k, type(e).__name__, str(e).replace("\n", " ")))
    return 0


def main():
    if sys.argv[1] == "--sample":
        return sample(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), float(sys.argv[6]), sys.argv[7])
    rec = json.load(open(sys.argv[1]))
    if isinstance(rec, list):
        return batch(rec)
    task = find(rec["property"], rec["tier"], rec["task"])
    try:
        run(task, rec["inputs"])
    except Reproduced as e:
        print("REPRODUCED", e)
        return 1
    except NotApplicableInput as e:
        print("NOT-APPLICABLE", e)
        return 4
    except Exception as e:
        import traceback

        traceback.print_exc()
        if rec["kind"] == "exception:" + type(e).__name__:
            print("REPRODUCED %s: %s" % (type(e).__name__, e))
            return 1
        print("DIFFERENT %s: %s" % (type(e).__name__, e))
        return 5
    print("NOT-REPRODUCED: all checks hold")
    return 0


if __name__ == "__main__":
    sys.exit(main())
