"""C17: evaluating on an array is evaluating at each of its elements, whatever its shape, layout and number type."""
import itertools

import numpy as np

from .. import kit, ref
from . import C10
from .C08 import sane

PROPERTY = "C17"
RULE = ("every function of Mino time an orbit offers (trajectory, four-velocity, numerical four-velocity, trajectory deltas; "
        "stable and plunging functions and all three classes) is evaluated on every container of the alphabet (Python and "
        "numpy scalars, 0-d, empty, one-element, 1-d, 2-d, 3-d, reversed, strided, transposed, read-only, integer, shuffled "
        "arrays, every subset of a grid of critical points) and compared with element-by-element evaluation; orbital "
        "parameters are given as every combination of integer, float and numpy number types")
BOUNDS = "orbits: fixed representative of every branch (quick) / k=1 alphabets (thorough); all containers, all subsets of 6 critical points, all type combinations"
ASSUMPTIONS = ["values at the exact quarter periods agree to 1e-6 (the library's elliptic functions keep half of the digits there)"]

PH = (0.7, 1.1, 2.9, -0.4)


def orbits(tier):
    st = [(0.9, 0.3, 0.6, 0.5), (0.5, 0.2, -0.6, 2.0), (0.0, 0.3, 0.7, 1.0), (0.9, 0.0, 1.0, 0.5), (0.7, 0.0, -0.4, 1.0), (0.3, 0.6, 1.0, 0.1)]
    pl = [(0.9, 0.94, 1.0, 8.0), (0.5, 0.8, -1.0, 3.0), (0.9, 0.94, 1.0, 0.0), (0.3, 0.97, 3.0, 0.1)]
    dp = [(0.9, 0.3, 0.6, 0.5), (0.9, 0.3, 1.0, 0.5), (0.5, 0.5, -0.6, 1.0)]
    if tier != "quick":
        st += [c for c in kit.grid4(1, keep=lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3 and e < 0.98) if np.copysign(1, c[0]) > 0]
        pl += [c for c in kit.plunges(1) if kit.plunge_geo(*c) is not None and c[0] > 1e-4]
    out = []
    for a, e, x, d in st:
        out.append(("stable", (a, kit.p_of(a, e, x, d), e, x)))
    for c in pl:
        out.append(("plunge", c))
    for a, e, x, d in dp:
        out.append(("plunge", (a,) + tuple(kit.deep_constants(a, e, x, d))))
    return [(k, tuple(float(q) for q in s)) for k, s in out]


def build(kind, par, ph=PH):
    kg = kit.kg()
    return (kg.StableOrbit if kind == "stable" else kg.PlungingOrbit)(*par, initial_phases=ph)


def functions(o, ups):
    """name -> (function, True if its argument is an angle)"""
    out = {}
    for nm, f in zip(("t", "r", "theta", "phi"), o.trajectory()):
        out[nm] = f
    for nm, f in zip(("t", "r", "theta", "phi"), o.four_velocity()):
        out["u_" + nm] = f
    for nm, f in zip(("t_r", "t_theta", "phi_r", "phi_theta"), o.trajectory_deltas()):
        out["delta " + nm] = f
    for nm, f in zip(("t", "r", "theta", "phi"), o.numerical_four_velocity()):
        out["numerical u_" + nm] = f
    return out


def critical(o):
    u1, u2 = abs(o.upsilon_r), abs(o.upsilon_theta)
    return np.array([0.0, 0.37, (np.pi - PH[1]) / u1, (2 * np.pi - PH[1]) / u1, (np.pi / 2 - PH[2]) / u2, (np.pi - PH[2]) / u2,
                     -1.3, 5.5, -11.0, (-np.pi - PH[1]) / u1])


def containers(n):
    """(name, container builder from a base vector, index of each element)"""
    k = n - n % 2
    rev = list(range(n))[::-1]
    shuf = [(3 * i + 1) % n if n % 3 else (i * (n - 1) + 1) % n for i in range(n)]
    yield "1-d", lambda b: b.copy(), np.arange(n)
    yield "list of one", lambda b: b[:1].copy(), np.arange(1)
    yield "reversed view", lambda b: b[::-1], np.array(rev)
    yield "strided view", lambda b: np.repeat(b, 3)[::3], np.arange(n)
    yield "2-d", lambda b: b[:k].reshape(2, k // 2), np.arange(k).reshape(2, k // 2)
    yield "transposed", lambda b: b[:k].reshape(2, k // 2).T, np.arange(k).reshape(2, k // 2).T
    yield "column", lambda b: b.reshape(n, 1), np.arange(n).reshape(n, 1)
    yield "row", lambda b: b.reshape(1, n), np.arange(n).reshape(1, n)
    yield "3-d", lambda b: b[:8].reshape(2, 2, 2), np.arange(8).reshape(2, 2, 2)
    yield "3-d, axes turned", lambda b: b[:8].reshape(2, 1, 4).transpose(2, 0, 1), np.arange(8).reshape(2, 1, 4).transpose(2, 0, 1)
    yield "4-d, axes exchanged", lambda b: b[:8].reshape(2, 2, 1, 2).swapaxes(0, 3), np.arange(8).reshape(2, 2, 1, 2).swapaxes(0, 3)
    yield "scalar in an array", lambda b: np.array(b[3]), np.array(3)
    yield "no extent in one direction", lambda b: b[:0].reshape(0, 3), np.arange(0).reshape(0, 3)
    yield "fortran order", lambda b: np.asfortranarray(b[:k].reshape(2, k // 2)), np.arange(k).reshape(2, k // 2)
    yield "shuffled", lambda b: b[shuf], np.array(shuf)
    yield "repeated", lambda b: np.concatenate([b, b]), np.concatenate([np.arange(n)] * 2)
    yield "empty", lambda b: b[:0], np.arange(0)

    def ro(b):
        c = b.copy()
        c.flags.writeable = False
        return c

    yield "read-only", ro, np.arange(n)


def pointwise(fn, lam):
    return np.array([float(fn(float(v))) for v in lam])


def allowed(nm, want, crit):
    """tolerance by quantity; angles and times near quarter periods keep half of the digits"""
    s = 1 + np.abs(want)
    if nm.startswith("numerical"):
        # finite differences amplify the rounding error of the last evaluation
        return 1e-3 * (np.max(np.abs(want)) + s) * 100
    if nm.startswith("u_"):
        return 1e-5 * (1 + np.max(np.abs(want)) * 1e-3) * s
    return 1e-6 * s


def shapes(cell, ctx):
    kind, par = cell
    o = build(kind, par)
    fns = functions(o, None)
    lam = critical(o)
    for nm, fn in fns.items():
        arg = lam * abs(o.upsilon_r) if nm.startswith("delta") else lam
        base = pointwise(fn, arg)
        if not np.isfinite(base).all():
            continue  # an exact horizon or pole; C08-C11 decide whether that is right
        tol = allowed(nm, base, arg)
        if nm.startswith("numerical"):
            # turning points and horizons make difference quotients rough
            gentle = np.abs(base) < 1e3
        else:
            gentle = np.ones(len(base), bool)
        ctx.state(len(arg))
        for cname, make, idx in containers(len(arg)):
            b = make(arg)
            keep = b.copy()
            got = fn(b)
            ctx.step()
            ctx.trace()
            ctx.true("shape", np.shape(got) == np.shape(b), container=cname, function=nm, got=np.shape(got))
            if np.shape(got) == np.shape(b):
                w = base[idx]
                ctx.close("value", np.where(gentle[idx], got, w), w, tol[idx], container=cname, function=nm)
            ctx.true("argument untouched", np.array_equal(b, keep), container=cname, function=nm)
        # scalars of every type
        for v in (0, 2, -3):
            ref_ = float(fn(float(v)))
            if not np.isfinite(ref_) or (nm.startswith("numerical") and abs(ref_) > 1e3):
                continue
            t = allowed(nm, np.array([ref_]), None)[0]
            for typ in (int, np.int64, np.int32, np.float64, np.float32, np.array):
                got = fn(typ(v))
                ctx.step()
                ctx.true("scalar shape", np.ndim(got) == 0, type=typ.__name__, function=nm)
                if np.ndim(got) == 0:
                    # single precision arguments may be computed in single precision
                    k = 1e4 if typ is np.float32 else 1.0
                    if typ is np.float32 and nm.startswith("numerical"):
                        continue
                    ctx.close("scalar value", float(got), ref_, t * k, type=typ.__name__, function=nm, at=v)
        ints = np.array([0, 2, -3, 7])
        want = pointwise(fn, ints.astype(float))
        if np.isfinite(want).all():
            ok = np.abs(want) < 1e3 if nm.startswith("numerical") else np.ones(4, bool)
            got = fn(ints)
            ctx.step()
            ctx.true("integer shape", np.shape(got) == (4,), function=nm)
            if np.shape(got) == (4,):
                ctx.close("integer array", np.where(ok, got, want), want, allowed(nm, want, None), function=nm)
        ctx.outcome((nm, np.sign(base[1])))


def subsets(cell, ctx):
    """which other points are evaluated at the same time does not matter"""
    kind, par = cell
    o = build(kind, par)
    lam = critical(o)[:6]
    for nm, fn in functions(o, None).items():
        if nm.startswith("numerical"):
            continue
        arg = lam * abs(o.upsilon_r) if nm.startswith("delta") else lam
        base = pointwise(fn, arg)
        if not np.isfinite(base).all():
            continue
        tol = allowed(nm, base, arg)
        for n in range(1, 7):
            for sub in itertools.permutations(range(6), n) if n <= 3 else itertools.combinations(range(6), n):
                idx = np.array(sub)
                got = fn(arg[idx])
                ctx.state()
                ctx.step()
                ctx.trace()
                ctx.close("in company", got, base[idx], tol[idx], function=nm, subset=sub)


def from_initial(cell, ctx):
    """the same through an orbit given by initial conditions"""
    kind, par = cell
    kg = kit.kg()
    base = build(kind, par)
    vals = np.array(base.initial_position + base.initial_velocity, float)
    if not np.isfinite(vals).all() or par[0] < 0:
        return
    o = kg.Orbit(par[0], base.initial_position, base.initial_velocity)
    lam = np.array([0.0, 0.37, -1.3, 5.5, 2.2, -4.1, 0.9, 8.8])
    for nm, fn in functions(o, None).items():
        b = pointwise(fn, lam)
        if not np.isfinite(b).all():
            continue
        gentle = np.abs(b) < 1e3 if nm.startswith("numerical") else np.ones(len(b), bool)
        for cname, make, idx in containers(len(lam)):
            got = fn(make(lam))
            ctx.state(len(lam))
            ctx.step()
            ctx.trace()
            ctx.true("shape", np.shape(got) == idx.shape, container=cname, function=nm)
            if np.shape(got) == idx.shape:
                ctx.close("value", np.where(gentle[idx], got, b[idx]), b[idx], allowed(nm, b, None)[idx], container=cname, function=nm)
    # initial data in every container
    want = [f(lam) for f in o.trajectory()]
    for typ in (tuple, list, np.array):
        o2 = kg.Orbit(np.float64(par[0]), typ(base.initial_position), typ(base.initial_velocity))
        ctx.step(5)
        for nm, f, w in zip(("t", "r", "theta", "phi"), o2.trajectory(), want):
            ctx.close("initial data as " + typ.__name__, f(lam), w, 1e-9 * (1 + np.abs(w)), function=nm)
    for typ in (tuple, list, np.array):
        o3 = type(base)(*par, initial_phases=typ(PH))
        for nm, f, w in zip(("t", "r", "theta", "phi"), o3.trajectory(), [g(lam) for g in base.trajectory()]):
            ctx.close("phases as " + typ.__name__, f(lam), w, 1e-9 * (1 + np.abs(w)), function=nm)
        for nm, f, w in zip(("t", "r", "theta", "phi"), base.trajectory(initial_phases=typ((1, 2, 3, 4))), [g(lam) for g in base.trajectory(initial_phases=(1.0, 2.0, 3.0, 4.0))]):
            ctx.close("overriding phases as " + typ.__name__, f(lam), w, 1e-9 * (1 + np.abs(w)), function=nm)
        # the dense points of the velocity: away from turning points
        for what in ("four_velocity", "trajectory_deltas", "numerical_four_velocity"):
            ctx.step()
            for k, (f, w) in enumerate(zip(getattr(base, what)(initial_phases=typ((1, 2, 3, 4))), getattr(base, what)(initial_phases=(1.0, 2.0, 3.0, 4.0)))):
                w = w(lam)
                ctx.close(what + " with phases as " + typ.__name__, f(lam), w, 1e-9 * (1 + np.abs(w)), function=k)


LONG = (1000, 1024, 1025, 4096, 10001, 65537, 100001)


def long_arrays(cell, ctx):
    """no length switches to another answer: long arrays agree with the points evaluated by the hundred"""
    kind, par, n = cell
    o = build(kind, par)
    ctx.outcome((kind, n))
    short = critical(o)
    period = 2 * np.pi / abs(o.upsilon_r)
    lam = np.linspace(-3.3 * period, 4.1 * period, n)
    # the critical points at the start, in the middle and at the end
    k = len(short)
    for s in (0, n // 2, n - k):
        lam[s:s + k] = short
    idx = np.unique(np.concatenate([np.arange(0, 64), n // 2 + np.arange(32), n - 1 - np.arange(64), np.arange(0, n, max(1, n // 61))]))
    for nm, fn in functions(o, None).items():
        arg = lam * abs(o.upsilon_r) if nm.startswith("delta") else lam
        want = fn(arg[idx])
        keep = arg.copy()
        got = fn(arg)
        ctx.state(n)
        ctx.step(2)
        ctx.trace()
        ctx.true("shape", np.shape(got) == (n,), function=nm, length=n, got=np.shape(got))
        ctx.true("argument untouched", np.array_equal(arg, keep), function=nm, length=n)
        if np.shape(got) != (n,):
            continue
        ok = np.isfinite(want)
        if nm.startswith("numerical"):
            ok &= np.abs(want) < 1e3
        ctx.true("finite in the same places", np.array_equal(np.isfinite(got[idx]), np.isfinite(want)), function=nm, length=n)
        if not ok.any():
            continue
        ok &= np.isfinite(got[idx])
        ctx.close("long array", got[idx][ok], want[ok], allowed(nm, want[ok], None), function=nm, length=n)
        if not nm.startswith("numerical"):
            # all of it, by chunks of other lengths
            chunks = np.concatenate([fn(c) for c in np.array_split(arg, 7)])
            ok = np.isfinite(chunks) & np.isfinite(got)
            ctx.step(7)
            ctx.close("by sevenths", got[ok], chunks[ok], allowed(nm, chunks[ok], None), function=nm, length=n)


TYPES = {"int": int, "float": float, "int64": np.int64, "float64": np.float64}
BIG = {"int": int, "int64": np.int64, "int32": np.int32, "float64": np.float64}


def large_integers(cell, ctx):
    """distant orbits whose p is an integer of every width that holds it"""
    par, name = cell
    kg = kit.kg()
    a, p, e, x = par
    typed, plain = (a, BIG[name](p), e, x), (a, float(p), e, x)
    ctx.outcome((name, p))
    fns = {nm: getattr(kg, nm) for nm in ("constants_of_motion", "energy", "angular_momentum", "carter_constant", "stable_radial_roots", "stable_polar_roots")}
    if x != 0:
        fns.update({nm: getattr(kg, nm) for nm in ("mino_frequencies", "fundamental_frequencies", "r_frequency", "theta_frequency", "phi_frequency", "gamma")})
    for nm, f in fns.items():
        got, want = np.array(f(*typed), float), np.array(f(*plain), float)
        ctx.state()
        ctx.step(2)
        ctx.trace()
        if nm == "stable_polar_roots":
            # the outer root may be infinite
            got, want = got[:1], want[:1]
        ctx.close(nm, got, want, 1e-12 * (1 + np.abs(want)), type=name)
    ctx.true("is_stable", bool(kg.constants.is_stable(*typed)) == bool(kg.constants.is_stable(*plain)), type=name)
    o1, o2 = kg.StableOrbit(*typed), kg.StableOrbit(*plain)
    lam = np.array([0.0, 1e-3, 0.01])
    for nm, f, g in zip(("t", "r", "theta", "phi") * 2, o1.trajectory() + o1.four_velocity(), o2.trajectory() + o2.four_velocity()):
        w = g(lam)
        ctx.close(nm, f(lam), w, 1e-9 * (1 + np.abs(w)), type=name)


def types(cell, ctx):
    """every number type for every integer-valued parameter"""
    par, names = cell
    kg = kit.kg()
    typed, plain = [], [float(v) for v in par]
    for v, n in zip(par, names):
        typed.append(TYPES[n](v) if float(v).is_integer() else (np.float64(v) if n in ("float64", "int64") else v))
    a, p, e, x = typed
    fa, fp, fe, fx = plain
    ctx.outcome(names)

    def both(nm, f, tol=1e-12):
        got, want = np.array(f(*typed), float), np.array(f(*plain), float)
        ctx.state()
        ctx.step(2)
        ctx.trace()
        if nm == "polar roots" and got.shape == want.shape:
            # the outer root is infinite or undefined without spin
            got, want = got[:1], want[:1]
        ctx.close(nm, got, want, tol * (1 + np.abs(want)), types=names)

    both("constants", kg.constants_of_motion)
    both("energy", kg.energy)
    both("angular_momentum", kg.angular_momentum)
    both("carter_constant", kg.carter_constant)
    if fe < 1:
        both("radial roots", kg.stable_radial_roots)
        both("polar roots", kg.stable_polar_roots)
    if fa >= 0:
        # these two document 0 <= a < 1
        both("is_stable", lambda a, p, e, x: float(kit.kg().constants.is_stable(a, p, e, x)))
        both("separatrix", lambda a, p, e, x: kg.separatrix(a, e, x))
    if fe < 1 and fx != 0:
        both("mino", kg.mino_frequencies)
        both("fundamental", kg.fundamental_frequencies)
        for nm in ("r_frequency", "theta_frequency", "phi_frequency", "gamma"):
            both(nm, getattr(kg, nm))
        lam = np.array([0.0, 1.0, -2.5, 7.0])
        for iph in ((0, 0, 0, 0), (1, 2, 3, 4)):
            o1 = kg.StableOrbit(*typed, initial_phases=iph)
            o2 = kg.StableOrbit(*plain, initial_phases=tuple(float(q) for q in iph))
            ctx.step(16)
            for k, nm in enumerate(("t", "r", "theta", "phi")):
                w = o2.trajectory()[k](lam)
                ctx.close(nm, o1.trajectory()[k](lam), w, 1e-9 * (1 + np.abs(w)), types=names)
                w = o2.four_velocity()[k](lam)
                ctx.close("u_" + nm, o1.four_velocity()[k](lam), w, 1e-6 * (1 + np.abs(w)), types=names)
            w = np.array(o2.initial_position + o2.initial_velocity)
            ctx.close("initial values", o1.initial_position + o1.initial_velocity, w, 1e-6 * (1 + np.abs(w)), types=names)


def plunge_types(cell, ctx):
    par, names = cell
    kg = kit.kg()
    typed = [TYPES[n](v) if float(v).is_integer() else v for v, n in zip(par, names)]
    plain = [float(v) for v in par]
    lam = np.array([0.0, 1.0, -0.5, 3.0])
    for iph in ((0, 0, 0, 0), (1, 2, 3, 4)):
        o1 = kg.PlungingOrbit(*typed, initial_phases=iph)
        o2 = kg.PlungingOrbit(*plain, initial_phases=tuple(float(q) for q in iph))
        ctx.state()
        ctx.step(16)
        ctx.trace()
        for k, nm in enumerate(("t", "r", "theta", "phi")):
            w = o2.trajectory()[k](lam)
            ctx.close(nm, o1.trajectory()[k](lam), w, 1e-9 * (1 + np.abs(w)), types=names)
    ctx.close("roots", np.abs(kg.plunging_radial_roots(*typed)), np.abs(kg.plunging_radial_roots(*plain)), 1e-9)
    ctx.close("frequencies", kg.plunging_mino_frequencies(*typed), kg.plunging_mino_frequencies(*plain), 1e-9)


GROUPS = {"shapes": shapes, "subsets": subsets, "initial conditions": from_initial, "types": types, "plunge types": plunge_types,
          "long arrays": long_arrays, "large integers": large_integers}
CHUNK = {"shapes": 1, "subsets": 1, "long arrays": 1}


def plan(tier):
    obs = orbits(tier)
    params = [(0, 10, 0, 1), (0, 12, 0.3, -1), (0.5, 10, 0, 1), (0.9, 6, 0.5, 1), (0.9, 12, 0.25, -0.5), (0, 20, 1, 1), (0.5, 14, 1, -1), (0.5, 12, 0, 0), (-0.5, 12, 0, 1)]
    names = list(TYPES)
    if tier == "quick":
        combos = [(n,) * 4 for n in names] + [tuple("float" if i != j else n for i in range(4)) for j in range(4) for n in names]
        combos = list(dict.fromkeys(combos))
    else:
        combos = list(itertools.product(names, repeat=4))
    pc = [(0.9, 0.94, 1, 8), (0.5, 0.9, -1, 0), (0.9, 0.8, 2, 3)]
    return [("shapes", obs), ("subsets", orbits("quick")), ("initial conditions", obs),
            ("types", [(p, c) for p in params for c in combos]),
            ("plunge types", [(p, c) for p in pc for c in ([(n,) * 4 for n in names] if tier == "quick" else combos)]),
            ("long arrays", [o + (n,) for o in orbits("quick") for n in (LONG[2:6] if tier == "quick" else LONG)]),
            ("large integers", [((a, p, e, x), n) for a in ((0.5,) if tier == "quick" else (0.0, 0.5, 0.9)) for p in (100, 300, 1000, 30000, 100000, 10**6, 10**7)
                                for e in (0, 0.25) for x in ((1, 0.6) if tier == "quick" else (1, 0.6, -1, -0.3)) for n in BIG])]
