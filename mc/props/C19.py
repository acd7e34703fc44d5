"""C19: two threads may use the library at the same time."""
import functools

import numpy as np

from .. import forktree, kit, threads
from . import C18

PROPERTY = "C19"
RULE = ("two threads, one operation each, all schedules with one preemption of the first thread by the whole second operation (quick) "
        "and with one preemption of each (thorough), in both orders. Preemption points are the lines of the library that can touch "
        "anything but the thread's own locals; the others commute. Operations on one shared orbit of every kind, on functions it handed "
        "out, on orbits that share all parameters but one, constructions, and module functions at neighbouring parameters. Both results, the "
        "attributes of the orbit and the results of both operations repeated afterwards are compared with results obtained alone")
BOUNDS = "2 threads; preemption bound 1 per schedule (quick), 2 (thorough); 1 operation per thread"
ASSUMPTIONS = ["a thread is only switched between lines of the library, not inside numpy and scipy or in the middle of a line",
               "each schedule runs in a forked process from the same initial state", "plotting is left out: pyplot is not meant for threads"]

LAM2 = np.array([-0.4, 2.2, 7.7])


def evaluating(get, lam):
    def op(env):
        return C18.evaluate(get(env), lam)

    return op


def on(name, op):
    return lambda env: C18.OPS[op](env["objects"][name])[1]


def creating(name):
    """the constructor and everything that shows what it made"""
    def op(env):
        o = C18.make(name)
        return np.concatenate([C18.attributes(o)[1], C18.evaluate(o.trajectory()).ravel()])

    return op


def handed_out(name, what, lam):
    def op(env):
        return C18.evaluate(env["functions"][name, what], lam)

    return op


def lookup(key):
    kind = key[0]
    if kind == "on":
        return on(*key[1:])
    if kind == "create":
        return creating(key[1])
    if kind == "handed out":
        return handed_out(key[1], key[2], LAM2 if key[3] else C18.LAM)
    k = key[2]
    return lambda env: env["module"][k]()


GET = {"trajectory": lambda o: o.trajectory(), "velocity": lambda o: o.four_velocity(), "deltas": lambda o: o.trajectory_deltas(),
       "numerical": lambda o: o.numerical_four_velocity()}


def setup(keys):
    """the state both threads start from"""
    names = sorted({k[1] for k in keys if k[0] in ("on", "create", "handed out")})
    env = {"objects": {}, "functions": {}, "module": {}}
    for n in sorted({k[1] for k in keys if k[0] in ("on", "handed out")}):
        env["objects"][n] = C18.make(n)
    for k in keys:
        if k[0] == "handed out" and k[1:3] not in env["functions"]:
            env["functions"][k[1:3]] = GET[k[2]](env["objects"][k[1]])
    for k in keys:
        if k[0] == "module":
            env["module"].update(C18.function_ops(k[1]))
    return env


def prepare(keys):
    C18.prepare([k[1] for k in keys if k[0] in ("on", "create", "handed out")])


def alone(keys, k):
    """result, number of points and attributes, of operation k run alone"""
    env = setup(keys)
    op = lookup(keys[k])
    n = threads.points(lambda: op(env))
    env = setup(keys)
    res = op(env)
    return res, n, {o: C18.attributes(v)[1] for o, v in env["objects"].items()}


_ALONE = {}


def references(ctx, keys):
    k = repr(keys)
    if k not in _ALONE:
        prepare(keys)
        out = []
        for i in (0, 1):
            r = forktree.isolated(lambda: alone(keys, i))
            if r[0] != "ok":
                ctx.fail("raised", error=r[1], tb=r[2], operations=keys)
                return None
            out.append(r[1])
        _ALONE.clear()
        _ALONE[k] = out
    return _ALONE[k]


def tol(key, want):
    if key[0] == "on":
        return C18.tolerance(key[2], want)
    if key[0] == "handed out" and key[2] == "numerical":
        return C18.tolerance("numerical", want)
    return C18.tolerance("", want)


def one(keys, env, stops):
    ops = [functools.partial(lookup(k), env) for k in keys]
    res = threads.execute(ops, stops)
    again = []
    for o in ops:
        try:
            again.append(("ok", o()))
        except Exception as ex:  # noqa: BLE001
            again.append(("error", repr(ex)[:300]))
    return res, again, {o: C18.attributes(v)[1] for o, v in env["objects"].items()}


def schedules(cell, ctx):
    keys, bound, part, of = cell
    keys = [tuple(tuple(q) if isinstance(q, list) else q for q in k) for k in keys]
    keys = [(k[0], k[1], (k[2][0], tuple(k[2][1]) if isinstance(k[2][1], (list, tuple)) else k[2][1])) if k[0] == "module" else k for k in keys]
    threads.warm()
    ref = references(ctx, keys)
    if ref is None:
        return
    n = ref[0][1]
    if bound == 1:
        todo = [([i], []) for i in range(1, n + 1)] or [([], [])]
    else:
        todo = [([i], [j]) for i in range(1, n + 1) for j in range(1, ref[1][1] + 1)]
    ctx.outcome("%d points" % n)

    def root():
        env = setup(keys)
        out = []
        for stops in todo[part::of]:
            out.append((stops, forktree.isolated(lambda: one(keys, env, stops))))
            if len(out) >= 40 and all(r[0] != "ok" for _, r in out[-40:]):
                break
        return out

    runs = forktree.isolated(root, 800)
    if runs[0] != "ok":
        ctx.fail("raised", error=runs[1], tb=runs[2], operations=keys)
        return
    for stops, r in runs[1]:
        ctx.state()
        ctx.step(2)
        if r[0] != "ok":
            ctx.fail("raised", error=r[1], tb=r[2], operations=keys, preempted_at=stops)
            continue
        res, again, attrs = r[1]
        for k in (0, 1):
            want = ref[k][0]
            for what, got in (("result under preemption", res[k]), ("result afterwards", again[k])):
                if got is None or got[0] != "ok":
                    ctx.fail(what, error=None if got is None else got[1], operations=keys, preempted_at=stops, thread=k)
                else:
                    C18.same(ctx, what, got[1], want, tol(keys[k], want), operations=keys, preempted_at=stops, thread=k)
        for o, v in attrs.items():
            C18.same(ctx, "attributes afterwards", v, ref[0][2][o], 1e-12 * (1 + np.abs(np.nan_to_num(v))), operations=keys, preempted_at=stops)
        ctx.trace()
        if len(ctx.failures) > 60:
            return


GROUPS = {"one orbit": schedules, "two orbits": schedules, "functions handed out": schedules, "creating": schedules, "module functions": schedules,
          "both preempted": schedules}
CHUNK = {g: 1 for g in GROUPS}
KINDS = ["stable", "plunge", "plunge, four real roots", "from stable", "from plunge"]
OPS = ["trajectory", "trajectory, phases", "velocity, phases", "deltas, phases", "trajectory, units"]


def plan(tier):
    q = tier == "quick"
    one_, two, held, create, mod, both = [], [], [], [], [], []
    for n in KINDS:
        slow = n in ("stable", "from stable")
        ops = OPS if not q else (OPS[:4] if not slow else ["trajectory, phases", "velocity, phases", "deltas, phases"])
        if not q:
            ops = OPS + ["velocity", "deltas", "numerical, phases", "constants", "frequencies", "refused", "visible"]
        for u in ops:
            for v in ops:
                if slow and q and u == v:
                    continue
                one_.append(([("on", n, u), ("on", n, v)], 1, 0, 1))
    for a, b in C18.TWINS:
        for u, v in ((a, b), (b, a)):
            if q and ("from" in u or "from" in v):
                continue
            for o in (["trajectory, phases", "velocity, phases"] if q else ["trajectory, phases", "velocity, phases", "deltas", "numerical, phases"]):
                two.append(([("on", u, o), ("on", v, o)], 1, 0, 1))
            if not q or (a, b) in (("plunge", "plunge, other side"), ("plunge, four real roots", "bound twin of four real roots")):
                create += [([("create", u), ("create", v)], 1, i, 6) for i in range(6)]
    for n in KINDS:
        for w in GET:
            held.append(([("handed out", n, w, 0), ("handed out", n, w, 1)], 1, 0, 1))
            if not q:
                for w2 in GET:
                    held.append(([("handed out", n, w, 1), ("handed out", n, w2, 0)], 1, 0, 1))
    P, C = C18.PARAMS, C18.CONSTS
    fn = [("constants", "constants_of_motion", P), ("constants", "stable_radial_roots", P), ("frequencies", "mino_frequencies", P), ("frequencies", "gamma", P),
          ("more frequencies", "fundamental_frequencies", P), ("constants to parameters", "plunging_mino_frequencies", C),
          ("constants to parameters", "plunging_radial_roots", C), ("trajectories", "plunging_trajectory", C), ("trajectories", "stable_trajectory", P),
          ("separatrix", "spacetime", P[3:5])]
    if not q:
        fn += [("constants", "energy", P), ("frequencies", "r_frequency", P), ("more frequencies", "theta_frequency", P), ("more frequencies", "phi_frequency", P), ("separatrix", "separatrix", P), ("separatrix", "spacetime", P)]
    for s, f, par in fn:
        pairs = [(par[0], par[1]), (par[1], par[0])] if q else [(u, v) for u in par for v in par if u != v]
        if f == "stable_trajectory" and not q:
            pairs = pairs[:14]
        for u, v in pairs:
            mod.append(([("module", s, (f, u)), ("module", s, (f, v))], 1, 0, 1))
    if not q:
        for n, ops in (("plunge", ["trajectory, phases", "deltas, phases", "velocity, phases"]), ("plunge, four real roots", ["trajectory, phases", "deltas, phases", "velocity, phases"]),
                       ("from plunge", ["trajectory, phases", "deltas, phases"]), ("stable", ["deltas, phases", "deltas", "constants", "frequencies"])):
            for u in ops:
                for v in ops:
                    both += [([("on", n, u), ("on", n, v)], 2, i, 4) for i in range(4)]
    return [("one orbit", one_), ("two orbits", two), ("functions handed out", held), ("creating", create), ("module functions", mod), ("both preempted", both)]
