"""C18: no operation changes the answer of a later one."""
import contextlib
import itertools
import os
import warnings


import numpy as np

from .. import draw, forktree, kit

PROPERTY = "C18"
RULE = ("all sequences of operations up to a depth: on one orbit of every kind; on two orbits that share all parameters but one "
        "(created lazily, so in every order); on the module functions at parameters that differ in one value or sign. After every "
        "operation its result is compared with the result of the same operation executed first in a fresh process, and every "
        "function handed out earlier in the sequence is evaluated again. Results are overwritten by the caller after each use. "
        "Arguments, documented attributes and global settings must stay as they were")
BOUNDS = "depth 3 on one orbit and on functions, depth 3 on twins with fewer operations (quick); depth 4 / 3 / 4 (thorough)"
ASSUMPTIONS = ["each node of the tree of sequences is a forked process that executed exactly its prefix",
               "equality to 1e-9, numerical derivatives to 1e-3"]

LAM = np.array([0.13, 0.9, -1.7, 4.2])
PH2 = (5.0, 2.5, 0.6, -3.0)

# name -> (constructor, parameters, keywords)
ORBITS = {
    "stable": ("StableOrbit", (0.9, 6.0, 0.3, 0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "stable, other phases": ("StableOrbit", (0.9, 6.0, 0.3, 0.6), dict(initial_phases=(0.7, 2.1, 0.9, -0.4), M=1e6, mu=10.0)),
    "stable, other mass": ("StableOrbit", (0.9, 6.0, 0.3, 0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=2e6, mu=30.0)),
    "stable, other side": ("StableOrbit", (0.9, 9.0, 0.3, -0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "stable, far": ("StableOrbit", (0.9, 9.0, 0.3, 0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "stable, negative spin": ("StableOrbit", (-0.9, 9.0, 0.3, 0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "stable, defaults": ("StableOrbit", (0.9, 6.0, 0.3, 0.6), {}),
    "stable, no spin": ("StableOrbit", (0.0, 9.0, 0.3, 0.6), {}),
    "plunge": ("PlungingOrbit", (0.9, 0.94, 1.0, 8.0), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "plunge, other phases": ("PlungingOrbit", (0.9, 0.94, 1.0, 8.0), dict(initial_phases=(0.7, 4.1, 1.9, -0.4), M=1e6, mu=10.0)),
    "plunge, other side": ("PlungingOrbit", (0.9, 0.94, -1.0, 8.0), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "plunge, defaults": ("PlungingOrbit", (0.9, 0.94, 1.0, 8.0), {}),
    "plunge, four real roots": ("PlungingOrbit", (0.9, 0.914462149668166, 2.1381056698447907, 2.619218536317081), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "bound twin of four real roots": ("StableOrbit.from_constants", (0.9, 0.914462149668166, 2.1381056698447907, 2.619218536317081), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "plunge, other spin": ("PlungingOrbit", (0.5, 0.94, 1.0, 8.0), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "stable, other spin": ("StableOrbit", (0.3, 9.0, 0.3, 0.6), dict(initial_phases=(0.7, 1.1, 2.9, -0.4), M=1e6, mu=10.0)),
    "from stable": ("Orbit", ("stable", 0.9), dict(M=1e6, mu=10.0)),
    "from stable, far": ("Orbit", ("stable, far", 0.9), dict(M=1e6, mu=10.0)),
    "from plunge": ("Orbit", ("plunge", 0.9), dict(M=1e6, mu=10.0)),
    "from plunge, four real roots": ("Orbit", ("plunge, four real roots", 0.9), dict(M=1e6, mu=10.0)),
}
TWINS = [("stable", "stable, other phases"), ("stable", "stable, other mass"), ("stable, far", "stable, other side"),
         ("stable", "stable, far"), ("stable, other side", "stable, negative spin"), ("stable", "stable, defaults"), ("stable, far", "stable, no spin"),
         ("plunge", "plunge, other phases"), ("plunge", "plunge, other side"), ("plunge", "plunge, defaults"),
         ("plunge, four real roots", "bound twin of four real roots"), ("from stable", "stable"), ("from plunge", "plunge"),
         ("from stable", "from stable, far"), ("from stable", "from plunge"), ("plunge", "plunge, four real roots"), ("stable, far", "stable, other spin"), ("plunge", "plunge, other spin")]

# initial data of the orbits created from it, computed once in a child of its own
_INITIAL = {}


def initial(name):
    if name not in _INITIAL:
        res = forktree.isolated(lambda: (lambda o: (tuple(map(float, o.initial_position)), tuple(map(float, o.initial_velocity))))(make(name)))
        if res[0] != "ok":
            raise RuntimeError(res[1])
        _INITIAL[name] = res[1]
    return _INITIAL[name]


def make(name):
    kg = kit.kg()
    cls, par, kw = ORBITS[name]
    if cls == "Orbit":
        return kg.Orbit(par[1], *_INITIAL[par[0]], **kw)
    if cls == "StableOrbit.from_constants":
        return kg.StableOrbit.from_constants(*par, **kw)
    return getattr(kg, cls)(*par, **kw)


def prepare(names):
    for n in names:
        if ORBITS[n][0] == "Orbit":
            initial(ORBITS[n][1][0])


ATTR = ("a", "p", "e", "x", "E", "L", "Q", "M", "mu", "initial_phases", "initial_position", "initial_velocity", "stable", "upsilon_r",
        "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi")


def attributes(o):
    out = []
    for k in ATTR:
        v = getattr(o, k, None)
        out += [np.nan if q is None else float(q) for q in (v if isinstance(v, (tuple, list, np.ndarray)) else (v,))]
    return [], np.array(out)


def evaluate(fns, lam=LAM):
    out = np.array([np.array(f(lam), float) for f in fns])
    return out


def held(get):
    def op(o):
        fns = get(o)
        return list(fns), evaluate(fns)

    return op


def value(get):
    def op(o):
        return [], np.concatenate([np.atleast_1d(np.array(v, float)).ravel() for v in get(o)])

    return op


def scribble(o):
    """the caller overwrites everything it was given"""
    out = []
    for f in list(o.trajectory()) + list(o.four_velocity()):
        lam = LAM.copy()
        v = f(lam)
        out.append(np.array(v, float))
        v = np.asarray(v)
        if v.flags.writeable:
            v[...] = 1e99
        lam[...] = -5.0
    return [], np.array(out)


def refused(o):
    """operations that fail leave nothing behind"""
    for f in (lambda: o.trajectory(distance_units="nonsense")[1](0.1), lambda: o.constants_of_motion(units="nonsense"),
              lambda: o.trajectory(initial_phases=(1, 2))[0](0.1), lambda: o.four_velocity(initial_phases=3)[0](0.1)):
        try:
            f()
        except Exception:  # noqa: BLE001
            pass
    return [], np.zeros(1)


def plot(o):
    import matplotlib.pyplot as plt

    n = len(plt.get_fignums())
    fig, ax = o.plot(0, 1.5, point_density=12, elevation=10, azimuth=20)
    new = len(plt.get_fignums()) - n
    seg = []
    for c in ax.collections:
        s = getattr(c, "_segments3d", None)
        if s is not None:
            seg.append(np.nan_to_num(np.array(s, float)).ravel())
    lim = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
    plt.close(fig)
    return [], np.concatenate(seg + [np.ravel(lim), [float(new)]])


def plot_other(o):
    """with phases and options of its own"""
    import matplotlib.pyplot as plt

    fig, ax = o.plot(0.5, 1.5, point_density=12, initial_phases=PH2, tau=0.7, lw=3, color="blue", grid=False, axes=False)
    seg = draw.segments(draw.find(ax, draw.Line3DCollection)[0])
    plt.close(fig)
    return [], np.nan_to_num(np.array(seg, float)).ravel()


def animate(o):
    def snapshot(fig, kw):
        ax = [a for a in fig.axes if hasattr(a, "get_zlim3d")][0]
        return np.concatenate([np.ravel(draw.marker(ax)), [ax.elev, ax.azim, ax.roll], np.ravel(draw.limits(ax))])

    frames, figures, written = draw.record(o, dict(lambda0=0.5, lambda1=0.6, initial_phases=PH2, tail_length=0.05, background_color="black", roll=lambda l: 10 * l), snapshot)
    return [], np.array(frames).ravel()


OPS = {
    "trajectory": held(lambda o: o.trajectory()),
    "trajectory, phases": held(lambda o: o.trajectory(initial_phases=PH2)),
    "trajectory, units": held(lambda o: o.trajectory(distance_units="km" if o.M else "natural", time_units="days" if o.M else "natural")),
    "velocity": held(lambda o: o.four_velocity()),
    "velocity, phases": held(lambda o: o.four_velocity(initial_phases=PH2)),
    "deltas": held(lambda o: o.trajectory_deltas()),
    "deltas, phases": held(lambda o: o.trajectory_deltas(initial_phases=PH2)),
    "numerical": held(lambda o: o.numerical_four_velocity()),
    "numerical, phases": held(lambda o: o.numerical_four_velocity(initial_phases=PH2, dx=0.3)),
    "constants": value(lambda o: [o.constants_of_motion()] + ([o.constants_of_motion(units="mks")] if o.M else [])),
    "frequencies": value(lambda o: [o.mino_frequencies(), o.fundamental_frequencies()] + ([o.mino_frequencies(units="mks"), o.fundamental_frequencies(units="mHz")] if o.M else [])
                         if hasattr(o, "mino_frequencies") else [[o.upsilon_r, o.upsilon_theta]]),
    "attributes": attributes,
    "visible": lambda o: ([], o.is_visible(np.array([[3.0, 0, 0], [-3.0, 0, 0], [0.1, 0, 0], [-3.0, 3, 0]]), 20, 30).astype(float)),
    "overwrite": scribble,
    "refused": refused,
    "plot": plot,
    "plot, phases": plot_other,
    "animate": animate,
}
SMALL = ["trajectory", "trajectory, phases", "velocity", "deltas", "constants", "attributes", "trajectory, units"]
SETS_OF_OPS = {"all": list(OPS), "small": SMALL, "few": SMALL[:5],
               "middle": ["trajectory", "trajectory, phases", "velocity", "velocity, phases", "deltas", "deltas, phases", "overwrite"]}


def unheard(*_):
    pass


@contextlib.contextmanager
def unusual_settings():
    """floating point errors and warnings handled as nobody else would, so that every change of the handling shows"""
    with np.errstate(all="call", call=unheard), warnings.catch_warnings(record=True):
        warnings.simplefilter("default")
        yield


def settings():
    import random

    import matplotlib as mpl

    import sys

    import scipy.special

    st = np.random.get_state()
    return (sorted(np.geterr().items()), np.geterrcall(), sorted(scipy.special.geterr().items()), sys.getrecursionlimit(),
            [str(f[:3]) for f in warnings.filters if f[1] is None and f[2] in (Warning, RuntimeWarning)], tuple(st[1][:5]), st[2], os.getcwd(), hash(frozenset(os.environ.items())),
            hash(repr(sorted((k, v) for k, v in mpl.rcParams.items() if isinstance(v, (str, int, float, bool))))), hash(random.getstate()), np.get_printoptions()["precision"])


def tolerance(op, want):
    w = np.nan_to_num(want)
    if op.startswith("numerical"):
        return (1e-6 if op == "numerical" else 1e-8) * (1 + np.abs(w))
    if op.startswith("plot") or op == "animate":
        return 1e-6 * (1 + np.abs(w))
    return 1e-9 * (1 + np.abs(w))


def same(ctx, name, got, want, tol, **info):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape == want.shape:
        both = np.isnan(got) & np.isnan(want)
        got, want = np.where(both, 0, got), np.where(both, 0, want)
    ctx.close(name, got, want, tol, **info)


_FRESH = {}


def first_results(ctx, keys, fn):
    """results of operations executed first in a process of their own; this
    process itself never executes any"""
    for k in keys:
        if k not in _FRESH:
            res = forktree.isolated(fn(k))
            if res[0] != "ok":
                ctx.fail("raised", error=res[1], tb=res[2], path=[k])
                return None
            _FRESH[k] = res[1]
    return _FRESH


def sequences_below(ctx, names, opnames, depth, first):
    """the sequences of the given depth that start with one operation"""
    prepare(names)
    ops = [(n, o) for n in names for o in opnames]
    fresh = first_results(ctx, ops, lambda k: (lambda: OPS[k[1]](make(k[0]))[1]))
    if fresh is None:
        return
    live = {"objects": {}, "held": []}

    def run(path, op):
        with unusual_settings():
            judge(path, op)

    def judge(path, op):
        n, o = op
        before = settings()
        if n not in live["objects"]:
            live["objects"][n] = make(n)
        fns, got = OPS[o](live["objects"][n])
        same(ctx, "as if executed first", got, fresh[op], tolerance(o, fresh[op]), path=path + (op,))
        for fo, ff in live["held"]:
            same(ctx, "function handed out earlier", evaluate(ff), fresh[fo], tolerance(fo[1], fresh[fo]), path=path + (op,), function_of=fo)
            ctx.step()
        if fns:
            live["held"] = live["held"] + [(op, fns)]
        ctx.true("global settings", settings() == before, path=path + (op,))

    def root():
        forktree.reset(ctx)
        ctx.state()
        ctx.step()
        run((), first)
        if depth > 1:
            forktree.explore(ctx, ops, depth - 1, run, (first,))
        return forktree.pack(ctx)

    res = forktree.isolated(root)
    if res[0] == "ok":
        forktree.Report.merge(ctx, res[1])
    else:
        ctx.fail("raised", error=res[1], tb=res[2], path=[first])


def twins(cell, ctx):
    names, ops, depth, first = cell
    sequences_below(ctx, tuple(names), SETS_OF_OPS[ops], depth, tuple(first))


def one(cell, ctx):
    name, ops, depth, first = cell
    sequences_below(ctx, (name,), SETS_OF_OPS[ops], depth, (name, first))


# ---- module functions
PARAMS = [(0.9, 9.0, 0.3, 0.6), (0.9, 9.0, 0.3, -0.6), (-0.9, 9.0, 0.3, 0.6), (0.5, 9.0, 0.3, 0.6), (0.9, 10.0, 0.3, 0.6), (0.9, 9.0, 0.0, 0.6), (0.0, 9.0, 0.3, 0.6), (0.9, 9.0, 0.3, 1.0)]
CONSTS = [(0.9, 0.94, 1.0, 8.0), (0.9, 0.94, -1.0, 8.0), (0.9, 0.914462149668166, 2.1381056698447907, 2.619218536317081), (0.5, 0.94, 1.0, 8.0)]


def _events():
    kg = kit.kg()
    s = kg.StableOrbit(0.9, 9.0, 0.3, 0.6, initial_phases=(1, 2, 3, 4))
    q = kg.PlungingOrbit(0.9, 0.94, 1.0, 8.0, initial_phases=(1, 2, 3, 4))
    return [tuple(tuple(float(v) for v in w) for w in (o.initial_position, o.initial_velocity)) for o in (s, q)]


def function_ops(which):
    kg = kit.kg()
    from kerrgeopy.plunge import plunging_trajectory
    from kerrgeopy.stable import stable_trajectory

    ops = {}
    pos = lambda a: a if a >= 0 else -a

    def flat(v):
        out = []
        for q in (v if isinstance(v, (tuple, list)) else (v,)):
            q = np.asarray(q)
            out += list(np.concatenate([np.real(q).ravel(), np.imag(q).ravel()]).astype(float))
        return np.array(out)

    sets = {"constants": ("constants_of_motion", "energy", "stable_radial_roots"), "frequencies": ("mino_frequencies", "r_frequency", "gamma"),
            "more frequencies": ("theta_frequency", "phi_frequency", "fundamental_frequencies")}
    if which in sets:
        for f in sets[which]:
            for p in PARAMS:
                ops[(f, p)] = lambda f=f, p=p: flat(getattr(kg, f)(*p))
    if which == "separatrix":
        for p in PARAMS:
            ops[("separatrix", p)] = lambda p=p: flat(kg.separatrix(pos(p[0]), p[2], p[3]))
            ops[("is_stable", p)] = lambda p=p: flat(float(kg.constants.is_stable(pos(p[0]), p[1] * 0.5, p[2], p[3])))
            ops[("spacetime", p)] = lambda p=p: flat(kg.KerrSpacetime(p[0]).metric(0.0, p[1], 1.0, 0.3))
    if which == "trajectories":
        for p in PARAMS:
            ops[("stable_trajectory", p)] = lambda p=p: flat([f(LAM) for f in stable_trajectory(*p, initial_phases=PH2)])
            ops[("stable_trajectory, default phases", p)] = lambda p=p: flat([f(LAM) for f in stable_trajectory(*p)])
        for c in CONSTS:
            ops[("plunging_trajectory", c)] = lambda c=c: flat([f(LAM) for f in plunging_trajectory(*c, initial_phases=PH2)])
            ops[("plunging_trajectory, default phases", c)] = lambda c=c: flat([f(LAM) for f in plunging_trajectory(*c)])
    if which == "constants to parameters":
        for c in CONSTS:
            ops[("plunging_radial_roots", c)] = lambda c=c: flat(kg.plunging_radial_roots(*c))
            ops[("plunging_mino_frequencies", c)] = lambda c=c: flat(kg.plunging_mino_frequencies(*c))
        for p in PARAMS:
            if p[0] >= 0:
                ops[("apex", p)] = lambda p=p: flat(kg.apex_from_constants(p[0], *kg.constants_of_motion(*p)))
        ev = forktree.isolated(_events)[1]
        for i, (x, u) in enumerate(ev):
            ops[("constants_from_initial_conditions", i)] = lambda x=x, u=u: flat(kg.constants_from_initial_conditions(0.9, x, u))
            ops[("is_stable", i)] = lambda x=x, u=u: flat(float(kg.initial_conditions.is_stable(0.9, x, u)))
            ops[("phases", i)] = lambda x=x, u=u, i=i: flat((kg.stable_orbit_initial_phases, kg.plunging_orbit_initial_phases)[i](0.9, x, u))
    if which == "spacetimes":
        # objects made once per process, and objects made for each question
        ev = [0.0, 7.0, 1.0, 0.3]
        shared = {}
        for a in (0.9, 0.9 + 1e-7, 0.3, 0.0):
            def st(a=a, again=True):
                if again and a in shared:
                    return shared[a]
                shared[a] = kg.KerrSpacetime(a)
                return shared[a]

            for e, x in ((0.3, 0.6), (0.3, -0.6), (0.3 + 1e-7, 0.6), (0.0, 1.0)):
                ops[("separatrix", a, e, x)] = lambda st=st, e=e, x=x: flat(st().separatrix(e, x))
                for p in (4.5, 9.0):
                    ops[("is_stable", a, p, e, x)] = lambda st=st, p=p, e=e, x=x: flat(float(st().is_stable(p, e, x)))
            ops[("metric", a)] = lambda st=st: flat(st().metric(*ev))
            ops[("metric, elsewhere", a)] = lambda st=st: flat(st().metric(1.0, 5.0, 2.0, 1.3))
            ops[("norm", a)] = lambda st=st: flat(st().norm(*ev, [1.3, 0.01, 0.02, 0.05]))
            ops[("new separatrix", a)] = lambda st=st: flat(st(again=False).separatrix(0.3, 0.6))
            for ph in (PH2, (1.0, 0.5, 0.2, 0.1)):
                def vel(st=st, a=a, ph=ph):
                    c, u = kg.constants_of_motion(a, 9.0, 0.3, 0.6), kg.mino_frequencies(a, 9.0, 0.3, 0.6)
                    t = stable_trajectory(a, 9.0, 0.3, 0.6, initial_phases=ph)
                    return flat([f(LAM) for f in st().four_velocity(*t, c, u[0], u[1], ph)])

                ops[("four_velocity", a, ph)] = vel
    if which == "equal values":
        # values that compare equal but are not the same: zeros of both signs, and numbers of several types
        some = [(z, 9.0, e, x) for z in (0.0, -0.0, 0) for e in (0.3,) for x in (0.6, -0.6)]
        some += [(z, 9.0, e, 0.6) for z in (0.0, -0.0) for e in (0.0, -0.0)] + [(0.9, 9.0, e, x) for e in (0.0, -0.0, 0) for x in (1.0, 1, np.float64(1))]
        some += [(0.9, p, 0.3, 0.6) for p in (9.0, 9, np.int64(9), np.float64(9))]
        for i, q in enumerate(some):
            for f in ("constants_of_motion", "angular_momentum", "mino_frequencies"):
                ops[(f, i, repr(q))] = lambda f=f, q=q: flat(getattr(kg, f)(*q))
        for i, q in enumerate(some[:10]):
            ops[("stable_trajectory", i, repr(q))] = lambda q=q: flat([f(LAM) for f in stable_trajectory(*q, initial_phases=PH2)])
        for i, a in enumerate((0.0, -0.0)):
            ops[("metric", i)] = lambda a=a: flat(kg.KerrSpacetime(a).metric(0.0, 7.0, 1.0, 0.3))
    if which.startswith("neighbours"):
        # requests that differ by very little are different requests
        d = 1e-7
        A, P, E, X = 0.9, 9.0, 0.3, 0.6
        near = [(A, P, E, X), (A + d, P, E, X), (A, P + d, E, X), (A, P, E + d, X), (A, P, E, X + d), (A, P, E, -X), (A, P, E, -X - d), (A, P, 0.0, X), (A, P, d, X), (A, P, 0.0, X + d)]
        if which == "neighbours":
            near += [(A, P, E, 1.0), (A + d, P, E, 1.0), (A, P + d, E, 1.0), (0.0, P, E, X), (d, P, E, X)]
            for f in ("constants_of_motion", "stable_radial_roots", "stable_polar_roots", "mino_frequencies", "fundamental_frequencies"):
                for q in near:
                    ops[(f, q)] = lambda f=f, q=q: flat(getattr(kg, f)(*q))
        else:
            for q in near:
                ops[("separatrix", q)] = lambda q=q: flat(kg.separatrix(q[0], q[2], q[3]))
            for x in (0.0, 1.0, -1.0):
                for a, e in ((A, E), (A + d, E), (A, E + d)):
                    ops[("separatrix", a, e, x)] = lambda a=a, e=e, x=x: flat(kg.separatrix(a, e, x))
            for q in near[:5]:
                ops[("stable_trajectory", q)] = lambda q=q: flat([f(LAM) for f in stable_trajectory(*q, initial_phases=PH2)])
            ops[("stable_trajectory, phases", near[0])] = lambda q=near[0]: flat([f(LAM) for f in stable_trajectory(*q, initial_phases=tuple(v + d for v in PH2))])
            near = [(A, 0.94, 1.0, 8.0), (A + d, 0.94, 1.0, 8.0), (A, 0.94 + d, 1.0, 8.0), (A, 0.94, 1.0 + d, 8.0), (A, 0.94, 1.0, 8.0 + d)]
            for q in near:
                ops[("plunging_radial_roots", q)] = lambda q=q: flat(kg.plunging_radial_roots(*q))
                ops[("plunging_mino_frequencies", q)] = lambda q=q: flat(kg.plunging_mino_frequencies(*q))
                ops[("plunging_trajectory", q)] = lambda q=q: flat([f(LAM) for f in plunging_trajectory(*q, initial_phases=PH2)])
    if which == "units":
        u = __import__("kerrgeopy.units", fromlist=["u"])
        for f in ("distance_in_km", "time_in_days", "energy_in_ergs", "angular_momentum_in_cgs", "carter_constant_in_mks", "frequency_in_mHz", "time2_in_seconds2"):
            for v in ((1.0, 1e6), (2.0, 1e6), (1.0, 2e6)):
                ops[(f, v)] = lambda f=f, v=v: flat(getattr(u, f)(*v))
        ops[("scale_constants", 1)] = lambda: flat(kg.scale_constants((0.9, 2.0, 3.0), 1e6, 10.0))
        ops[("scale_constants", 2)] = lambda: flat(kg.scale_constants([0.9, 2.0, 3.0], 1.0, 1e-5))
    return ops


SETS = ["constants", "frequencies", "more frequencies", "separatrix", "trajectories", "constants to parameters", "units", "spacetimes", "neighbours", "neighbours (more)", "equal values"]


def functions(cell, ctx):
    which, depth, first, of = cell
    ops = function_ops(which)
    keys = sorted(ops, key=repr)
    fresh = first_results(ctx, keys, ops.get)
    if fresh is None:
        return

    def run(path, k):
        with unusual_settings():
            judge(path, k)

    def judge(path, k):
        before = settings()
        same(ctx, "as if executed first", ops[k](), fresh[k], 1e-10 * (1 + np.abs(np.nan_to_num(fresh[k]))), path=path + (k,))
        ctx.true("global settings", settings() == before, path=path + (k,))

    def root(k):
        def go():
            forktree.reset(ctx)
            ctx.state()
            ctx.step()
            run((), k)
            if depth > 1:
                forktree.explore(ctx, keys, depth - 1, run, (k,))
            return forktree.pack(ctx)

        return go

    for k in keys[first::of]:
        res = forktree.isolated(root(k))
        if res[0] == "ok":
            forktree.Report.merge(ctx, res[1])
        else:
            ctx.fail("raised", error=res[1], tb=res[2], path=[k])


def arguments(cell, ctx):
    """nothing that is passed in is modified, whatever container it comes in"""
    name, typ = cell
    kg = kit.kg()
    typ = {"list": list, "array": np.array}[typ]
    prepare((name,))
    cls, par, kw = ORBITS[name]

    def check():
        ctx_args = {}

        def give(k, v):
            ctx_args[k] = (typ(v), typ(v))
            return ctx_args[k][0]

        o = None
        if cls == "Orbit":
            o = kg.Orbit(par[1], give("position", _INITIAL[par[0]][0]), give("velocity", _INITIAL[par[0]][1]))
        else:
            k2 = dict(kw)
            k2["initial_phases"] = give("phases", kw.get("initial_phases", (0.1, 0.2, 0.3, 0.4)))
            o = (kg.StableOrbit.from_constants if "." in cls else getattr(kg, cls))(*par, **k2)
        ph = give("overriding phases", PH2)
        lam = give("times", LAM) if typ is np.array else LAM
        for get in (o.trajectory, o.four_velocity, o.trajectory_deltas, o.numerical_four_velocity):
            for f in get(initial_phases=ph):
                f(lam)
            for f in get():
                f(lam)
        c = give("constants", o.constants_of_motion())
        kg.scale_constants(c, 2.0, 3.0)
        pts = np.array([[3.0, 0, 0], [-3.0, 0, 0], [0.1, 0, 0]])
        p2 = pts.copy()
        o.is_visible(pts, 20, 30)
        ok = {k: np.array_equal(np.asarray(u), np.asarray(v)) for k, (u, v) in ctx_args.items()}
        ok["points"] = np.array_equal(pts, p2)
        if o.stable:
            a, p, e, x = o.a, o.p, o.e, o.x
            for f in ("r_frequency", "theta_frequency", "phi_frequency", "gamma", "stable_radial_roots", "stable_polar_roots"):
                getattr(kg, f)(a, p, e, x, constants=c)
        ok["constants"] = np.array_equal(np.asarray(ctx_args["constants"][0]), np.asarray(ctx_args["constants"][1]))
        pos, vel = give("event", [float(q) for q in o.initial_position]), give("event velocity", [float(q) for q in o.initial_velocity])
        kg.constants_from_initial_conditions(o.a, pos, vel)
        kg.initial_conditions.is_stable(o.a, pos, vel)
        (kg.stable_orbit_initial_phases if o.stable else kg.plunging_orbit_initial_phases)(o.a, pos, vel, constants=c)
        kg.KerrSpacetime(o.a).norm(*pos, vel)
        for k, (u, v) in ctx_args.items():
            ok[k] = ok.get(k, True) and np.array_equal(np.asarray(u), np.asarray(v))
        return ok

    res = forktree.isolated(check)
    ctx.state()
    ctx.step(20)
    ctx.trace()
    if res[0] != "ok":
        ctx.fail("raised", error=res[1], tb=res[2])
        return
    for k, v in res[1].items():
        ctx.true("argument left alone", v, argument=k)


GROUPS = {"one orbit": one, "two orbits": twins, "functions": functions, "arguments": arguments}
CHUNK = {"one orbit": 1, "two orbits": 1, "functions": 1}


def plan(tier):
    q = tier == "quick"
    singles = ["stable", "plunge", "plunge, four real roots", "from stable", "from plunge", "stable, defaults"]
    if not q:
        singles = list(ORBITS)
    cells1 = []
    for n in singles:
        cells1 += [(n, "all", 2 if q else 3, f) for f in OPS]
        if q:
            cells1 += [(n, "middle", 3, f) for f in SETS_OF_OPS["middle"]]
    tw = "few" if q else "small"
    cells2 = [(t, tw, 2 if q else 3, (n, f)) for t in TWINS for n in t for f in SETS_OF_OPS[tw]]
    of = 4 if q else 8
    cells3 = [(w, 2 if q else 3, i, of) for w in SETS for i in range(of)]
    cells4 = [(n, t) for n in ORBITS for t in ("list", "array")]
    return [("one orbit", cells1), ("two orbits", cells2), ("functions", cells3), ("arguments", cells4)]
