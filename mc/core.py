"""Exhaustive exploration of finite cell spaces on the real library.

A check is a finite list of *groups*; each group is a finite list of *cells*
(points of a bounded alphabet: parameters, operation sequences, schedules ...)
and a function that executes the library on one cell and compares everything
observable with the reference model.  Every cell of every group is executed;
nothing is sampled.  See DESIGN.md.
"""
import importlib
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_PKG = os.path.join(os.path.realpath(REPO), "kerrgeopy") + os.sep
CELL_TIMEOUT = 300
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

# development only (tools/mutate.py): stop at the first violation
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))

_lib = None


def lib():
    """The library under check, imported from /repo's working tree."""
    global _lib
    if _lib is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import kerrgeopy

            for m in ("constants", "frequencies", "initial_conditions", "orbit",
                      "plunge", "spacetime", "stable", "units"):
                importlib.import_module("kerrgeopy." + m)
        src = os.path.realpath(kerrgeopy.__file__)
        if not src.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("imported kerrgeopy from %s" % src)
        warnings.simplefilter("ignore")
        _lib = kerrgeopy
    return _lib


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("no answer within %d s" % CELL_TIMEOUT)


def _js(v):
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, complex):
        return repr(v)
    if isinstance(v, float) and not math.isfinite(v):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [_js(q) for q in v]
    if isinstance(v, dict):
        return {str(k): _js(q) for k, q in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return repr(v)


class Ctx:
    """Collects what one cell covered and what it found."""

    def __init__(self, group, cell):
        self.group, self.cell = group, cell
        self.states = 0       # model/implementation states visited
        self.transitions = 0  # library operations executed
        self.traces = 0       # complete model traces compared with the library
        self.checks = 0
        self.failures = []
        self.margin = {}
        self.outcomes = set()
        self.note = None

    # -- counting
    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        self.outcomes.add(o)

    # -- judging
    def fail(self, name, **info):
        self.failures.append((name, _js(info)))

    def true(self, name, cond, **info):
        self.checks += 1
        if not bool(cond):
            self.fail(name, **info)
            return False
        return True

    def close(self, name, got, want, tol, **info):
        """|got-want| <= tol elementwise; shapes must agree; nan never agrees."""
        self.checks += 1
        try:
            g = np.asarray(got)
            if g.dtype.kind not in "fiub":
                if g.dtype.kind == "c" and np.all(g.imag == 0):
                    g = g.real
                else:
                    raise TypeError("not a real number: %r" % (got,))
            g = g.astype(float)
            w = np.asarray(want, dtype=float)
            if g.shape != w.shape:
                self.fail(name, got_shape=g.shape, want_shape=w.shape, **info)
                return False
        except (TypeError, ValueError) as ex:
            self.fail(name, error=repr(ex), got=repr(got)[:200], want=repr(want)[:200], **info)
            return False
        t = np.broadcast_to(np.asarray(tol, float), w.shape)
        d = np.abs(g - w)
        with np.errstate(all="ignore"):
            ratio = np.where(g == w, 0.0, d / t)
        ratio = np.where(np.isfinite(ratio), ratio, np.inf)
        m = float(np.max(ratio)) if ratio.size else 0.0
        if m > self.margin.get(name, (-1,))[0]:
            self.margin[name] = (m,)
        if m > 1:
            k = np.unravel_index(int(np.argmax(ratio)), ratio.shape) if ratio.ndim else ()
            self.fail(name, got=g[k], want=w[k], diff=d[k], tol=t[k], index=list(map(int, k)), **info)
            return False
        return True

    def raises(self, name, exc, fn, *args, **kw):
        """fn must refuse the input with one of the documented exceptions."""
        self.checks += 1
        self.step()
        try:
            v = fn(*args, **kw)
        except exc:
            return True
        except Hang:
            raise
        except Exception as ex:  # noqa: BLE001
            self.fail(name, raised=type(ex).__name__, message=str(ex)[:200])
            return False
        self.fail(name, returned=repr(v)[:200])
        return False


def run_cell(prop, group, cell, fn):
    ctx = Ctx(group, cell)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CELL_TIMEOUT)
    t0 = time.time()
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(cell, ctx)
    except Hang as ex:
        ctx.fail("hang", error=str(ex))
    except MemoryError:
        raise
    except Exception as ex:  # noqa: BLE001
        tb = traceback.extract_tb(ex.__traceback__)
        where = [
            "%s:%s" % (os.path.basename(f.filename), f.name) for f in tb if "kerrgeopy" in f.filename
        ]
        ctx.fail("raised", error="%s: %s" % (type(ex).__name__, str(ex)[:300]), where=where[-3:],
                 tb=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.wall = time.time() - t0
    return ctx


# --------------------------------------------------------------------------
_MOD = None


def _worker_init(modname):
    global _MOD
    sys.stderr = open(os.devnull, "w")
    _MOD = importlib.import_module(modname)


def _work(args):
    gname, cells = args
    fn = _MOD.GROUPS[gname]
    out = []
    for i, cell in cells:
        c = run_cell(_MOD.PROPERTY, gname, cell, fn)
        out.append((i, c.states, c.transitions, c.traces, c.checks, c.failures, c.margin,
                    sorted(map(str, c.outcomes)), c.wall, c.note))
    return gname, out


def cell_key(group, cell, name):
    return "%s|%s|%s" % (group, json.dumps(_js(cell)), name)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    out = []
    if os.path.exists(path):
        for f in json.load(open(path)).get("known", []):
            if f["property"] == prop:
                out.append(f)
    return out


def match_known(known, key):
    for f in known:
        for k in f["keys"]:
            if k == key or (k.startswith("re:") and re.fullmatch(k[3:], key)):
                return f
    return None


def run_property(prop, tier, seed, verbose=False):
    t0 = time.time()
    modname = "mc.props." + prop
    mod = importlib.import_module(modname)
    plan = mod.plan(tier)
    total = {"states": 0, "transitions": 0, "traces": 0, "checks": 0}
    per_group, margins, outcomes, failures, samples = {}, {}, {}, [], []
    slow = []
    jobs = []
    weights = getattr(mod, "CHUNK", {})
    for g, cells in plan:
        cells = list(enumerate(cells))
        per_group[g] = {"cells": len(cells), "states": 0, "transitions": 0, "traces": 0}
        n = weights.get(g, max(1, min(40, len(cells) // (WORKERS * 6) or 1)))
        # deal round-robin so that a costly corner of the lattice is shared out
        k = max(1, -(-len(cells) // n))
        for j in range(k):
            part = cells[j::k]
            if part:
                jobs.append((g, part))
    allcells = {g: list(cs) for g, cs in plan}
    notes = []
    known = load_known(prop)
    import_error = None
    try:
        lib()
    except Exception as ex:  # noqa: BLE001
        import_error = "%s: %s" % (type(ex).__name__, ex)
    if import_error:
        failures.append(("import", -1, None, "import", {"error": import_error}))
    else:
        with ProcessPoolExecutor(WORKERS, initializer=_worker_init, initargs=(modname,)) as ex:
            stop = False
            if FAILFAST:
                random.Random(1).shuffle(jobs)
            futs = {ex.submit(_work, j): j for j in jobs}
            for f in as_completed(futs):
                try:
                    g, res = f.result()
                except BrokenProcessPool:
                    g, part = futs[f]
                    failures.append((g, part[0][0], part[0][1], "worker-died", {"cells": [_js(c) for _, c in part[:5]]}))
                    continue
                for (i, s, t, tr, ch, fl, mg, oc, wall, note) in res:
                    pg = per_group[g]
                    pg["states"] += s
                    pg["transitions"] += t
                    pg["traces"] += tr
                    total["states"] += s
                    total["transitions"] += t
                    total["traces"] += tr
                    total["checks"] += ch
                    slow.append((wall, g, i))
                    for k, (m,) in mg.items():
                        if m > margins.get((g, k), (-1, 0))[0]:
                            margins[(g, k)] = (m, i)
                    for o in oc:
                        outcomes.setdefault(g, set()).add(o)
                    if note is not None:
                        notes.append((g, i, note))
                    for name, info in fl:
                        failures.append((g, i, allcells[g][i], name, info))
                        if FAILFAST and match_known(known, cell_key(g, allcells[g][i], name)) is None:
                            stop = True
                if FAILFAST and stop:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
    order = {g: n for n, (g, _) in enumerate(plan)}
    failures.sort(key=lambda f: (order.get(f[0], -1), f[1]))
    new, hit = [], {}
    for f in failures:
        k = match_known(known, cell_key(f[0], f[2], f[3]))
        if k is None:
            new.append(f)
        else:
            hit.setdefault(k["id"], []).append(f)
    for g, cells in plan:
        if len(cells):
            samples.append({"group": g, "first": _js(cells[0]), "last": _js(cells[-1])})
    wall = time.time() - t0
    worst = sorted(((m, g, k, i) for (g, k), (m, i) in margins.items()), reverse=True)
    cov = {
        "states": total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "evaluations": total["checks"],
        "cells": sum(len(c) for _, c in plan),
        "groups": per_group,
        "distinct_outcomes": {g: len(o) for g, o in outcomes.items()},
        "worst_error_over_tolerance": [
            {"ratio": round(m, 6), "group": g, "check": k, "cell": _js(allcells[g][i])} for m, g, k, i in worst[:8]
        ],
        "exhaustive": True,
        "bounds": getattr(mod, "BOUNDS", ""),
        "rule": getattr(mod, "RULE", ""),
        "samples": samples,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(_js(ev), fh, indent=1)
        fh.write("\n")
    print("%s %s: %d cells, %d states, %d transitions, %d traces, %d comparisons, %.1f s" % (
        prop, tier, cov["cells"], total["states"], total["transitions"], total["traces"], total["checks"], wall))
    if verbose:
        for g, pg in per_group.items():
            print("   ", g, pg, "outcomes", len(outcomes.get(g, ())), "cpu %.0f" % sum(w for w, h, _ in slow if h == g))
        for m, g, k, i in worst[:25]:
            print("    margin %.3g %s %s %s" % (m, g, k, json.dumps(_js(allcells[g][i]))))
        slow.sort(reverse=True)
        for w, g, i in slow[:3]:
            print("    slow %.2f %s %s" % (w, g, json.dumps(_js(allcells[g][i]))))
        print("    cpu %.1f" % sum(w for w, _, _ in slow))
        for n in notes[:20]:
            print("    note", n)
    for k in known:
        # a listed finding is announced whether or not this tier reached it
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not new:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (prop, tier))
    with open(path, "w") as fh:
        json.dump({"property": prop, "tier": tier,
                   "replay_cmd": "cd /verif && ./run.sh replay %s" % path,
                   "failures": [
                       {"group": f[0], "index": f[1], "cell": _js(f[2]), "check": f[3],
                        "key": cell_key(f[0], f[2], f[3]), "detail": f[4]} for f in new[:200]
                   ]}, fh, indent=1)
    lim = 20 if verbose else 6
    for f in new[:lim]:
        info = dict(f[4])
        tb = info.pop("tb", None)
        print("  broken: %s cell=%s check=%s %s" % (f[0], json.dumps(_js(f[2])), f[3], json.dumps(info)[:300]))
    if len(new) > lim:
        print("  ... and %d more" % (len(new) - lim))
    if verbose:
        byname = {}
        for f in new:
            byname.setdefault((f[0], f[3]), []).append(f)
        for k, v in byname.items():
            print("  count", k, len(v))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("mc.props." + d["property"])
    known = load_known(d["property"])
    bad, seen = 0, set()
    for f in d["failures"]:
        if f["index"] < 0:
            lib()
            continue
        cid = (f["group"], json.dumps(f["cell"]))
        if cid in seen:
            continue
        seen.add(cid)
        cells = dict(mod.plan(d["tier"]))[f["group"]]
        cell = list(cells)[f["index"]]
        ctx = run_cell(d["property"], f["group"], cell, mod.GROUPS[f["group"]])
        for name, info in ctx.failures:
            if match_known(known, cell_key(f["group"], cell, name)) is None:
                bad += 1
                print("broken:", f["group"], json.dumps(_js(cell)), name)
                info = dict(info)
                tb = info.pop("tb", None)
                print("   ", json.dumps(info))
                if tb:
                    print(tb)
    print("replayed %d cells, %d failures" % (len(seen), bad))
    return 1 if bad else 0


def main(argv):
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return run_property(prop, tier, seed, verbose="-v" in argv)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
