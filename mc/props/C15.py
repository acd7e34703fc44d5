"""C15: physical units are the geometrized values times the right powers of M, mu, G and c."""
import itertools

import numpy as np

from .. import kit, lattice
from .C08 import sane

PROPERTY = "C15"
RULE = ("every conversion function x every mass x every value (and arrays of them), against the dimensional formula written "
        "with independent SI constants and against each other; every class x every pair of distance and time units x mass x "
        "phases, every unit of constants and frequencies; every way of asking for units without the masses or for a unit "
        "that does not exist")
BOUNDS = "complete over the alphabets in both tiers; orbits: 5 (quick) / all with k=1 (thorough)"
ASSUMPTIONS = ["SI values of G, c, solar mass, au and light year to 2e-4 (the library uses rounded ones); ratios between units exact"]

G, C, SUN, YEAR = 6.6743e-11, 299792458.0, 1.98841e30, 365.25 * 86400
AU, LY = 149597870700.0, 9.4607304725808e15
MASSES = [1.0, 10.0, 4.3e6, 0.5, 1e10, 1, 30]
MUS = [1.0, 1e-2, 10.0, 1.4, 1]
VALUES = [1.0, 0.0, -2.5, 3.7e4, 6.1e-3, 2, -7]

# name -> (powers of [G, c, M], extra factor, approximate?)
FUNCS = {
    "mass_in_kg": None,
    "distance_in_meters": ((1, -2, 1), 1.0), "distance_in_cm": ((1, -2, 1), 100.0), "distance_in_km": ((1, -2, 1), 1e-3),
    "distance_in_au": ((1, -2, 1), 1 / AU), "distance_in_lightyears": ((1, -2, 1), 1 / LY),
    "time_in_seconds": ((1, -3, 1), 1.0), "time2_in_seconds2": ((2, -6, 2), 1.0), "time_in_days": ((1, -3, 1), 1 / 86400),
    "energy_in_joules": ((0, 2, 1), 1.0), "energy_in_ergs": ((0, 2, 1), 1e7),
    "angular_momentum_in_mks": ((1, -1, 2), 1.0), "angular_momentum_in_cgs": ((1, -1, 2), 1e7),
    "carter_constant_in_mks": ((2, -2, 4), 1.0), "carter_constant_in_cgs": ((2, -2, 4), 1e14),
    "frequency_in_Hz": ((-1, 3, -1), 1.0), "frequency_in_mHz": ((-1, 3, -1), 1e3),
}


def factor(name, M):
    (g, c, m), k = FUNCS[name]
    return k * G**g * C**c * (SUN * M) ** m


def functions(cell, ctx):
    name, M = cell
    u = __import__("kerrgeopy.units", fromlist=["units"])
    f = getattr(u, name)
    if name == "mass_in_kg":
        ctx.step(2)
        ctx.state()
        ctx.close("kg", f(M), SUN * M, 2e-4 * SUN * M)
        ctx.close("linear in M", f(3 * M), 3 * f(M), 1e-12 * f(3 * M))
        return
    one = f(1.0, M)
    want = factor(name, M)
    ctx.close("value of one unit", one / want, 1.0, 1e-3)
    for v in VALUES:
        ctx.state()
        ctx.step()
        ctx.trace()
        ctx.close("linear", f(v, M), v * one, 1e-12 * abs(v * one))
    arr = np.array(VALUES, float)
    ctx.step(3)
    ctx.close("array", f(arr, M), arr * one, 1e-12 * np.abs(arr * one))
    ctx.close("2-d array", f(arr[:6].reshape(2, 3), M), (arr * one)[:6].reshape(2, 3), 1e-12 * np.abs(arr * one)[:6].reshape(2, 3) )
    ctx.close("integer array", f(np.array([1, 2, -3]), M), one * np.array([1.0, 2, -3]), 1e-12 * abs(one) * np.array([1, 2, 3]))
    (_, _, m), _ = FUNCS[name]
    ctx.close("power of M", f(1.0, 2 * M) / one, 2.0**m, 1e-12 * 2.0**m)


def relations(cell, ctx):
    """ratios between units do not depend on any physical constant"""
    M, v = cell
    u = __import__("kerrgeopy.units", fromlist=["units"])
    ctx.state()
    ctx.step(16)
    ctx.trace()

    def same(name, a, b):
        ctx.close(name, a, b, 1e-12 * abs(b))

    same("cm per m", u.distance_in_cm(v, M), 100 * u.distance_in_meters(v, M))
    same("km per m", u.distance_in_km(v, M), u.distance_in_meters(v, M) / 1000)
    same("days", u.time_in_days(v, M), u.time_in_seconds(v, M) / 86400)
    same("light travel time", u.distance_in_meters(v, M), C * u.time_in_seconds(v, M))
    same("squared time", u.time2_in_seconds2(v * v, M), u.time_in_seconds(v, M) ** 2)
    same("erg per J", u.energy_in_ergs(v, M), 1e7 * u.energy_in_joules(v, M))
    same("cgs L", u.angular_momentum_in_cgs(v, M), 1e7 * u.angular_momentum_in_mks(v, M))
    same("cgs Q", u.carter_constant_in_cgs(v, M), 1e14 * u.carter_constant_in_mks(v, M))
    same("Q is L squared", u.carter_constant_in_mks(v * v, M), u.angular_momentum_in_mks(v, M) ** 2)
    same("mHz", u.frequency_in_mHz(v, M), 1e3 * u.frequency_in_Hz(v, M))
    if v:
        same("frequency is inverse time", u.frequency_in_Hz(v, M) * u.time_in_seconds(1 / v, M), 1.0)
        same("L is energy times time", u.angular_momentum_in_mks(v, M), u.energy_in_joules(v, M) * u.time_in_seconds(1.0, M))


DIST = {"natural": None, "mks": "distance_in_meters", "cgs": "distance_in_cm", "au": "distance_in_au", "km": "distance_in_km"}
TIME = {"natural": None, "mks": "time_in_seconds", "cgs": "time_in_seconds", "days": "time_in_days"}
LAM = np.array([0.0, 0.3, -1.7, 5.2])
PH = (3.3, 0.8, 2.0, -1.0)
PH2 = (-20.0, 4.4, 5.0, 0.3)


def build(spec, M, mu, ph=PH):
    kg = kit.kg()
    kind, par = spec[0], tuple(spec[1])
    if kind == "stable":
        return kg.StableOrbit(*par, initial_phases=ph, M=M, mu=mu)
    if kind == "stable from constants":
        a, p, e, x = par
        return kg.StableOrbit.from_constants(a, *kg.constants_of_motion(a, p, e, x), initial_phases=ph, M=M, mu=mu)
    if kind == "plunge":
        return kg.PlungingOrbit(*par, initial_phases=ph, M=M, mu=mu)
    base = build((kind[5:], par), None, None, ph)
    return kg.Orbit(par[0], base.initial_position, base.initial_velocity, M=M, mu=mu)


def specs(tier):
    out = []
    st = [(0.9, 6.0, 0.3, 0.6), (0.5, 9.0, 0.2, -0.8)]
    pl = [(0.9, 0.94, 1.0, 8.0), (0.9,) + tuple(kit.deep_constants(0.9, 0.3, 0.8, 0.5))]
    if tier != "quick":
        st += [(a, kit.p_of(a, e, x, d), e, x) for a, e, x, d in kit.grid4(1, keep=lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-2 and 0.01 <= e < 0.98 and np.copysign(1, a) > 0 and abs(x) > 0.05)]
        pl += [c for c in kit.plunges(1) if c[0] > 1e-3 and kit.plunge_geo(*c) is not None]
    for s in st:
        out += [("stable", s), ("stable from constants", s), ("from stable", s)]
    for s in pl:
        out += [("plunge", s), ("from plunge", s)]
    return [(k, tuple(float(q) for q in s)) for k, s in out]


def trajectories(cell, ctx):
    kind, par, M = cell
    o = build((kind, par), M, None)
    t0, r0, th0, f0 = [g(LAM) for g in o.trajectory()]
    ctx.step(4)
    u = __import__("kerrgeopy.units", fromlist=["units"])
    for du, tu in itertools.product(DIST, TIME):
        ctx.state(len(LAM))
        ctx.step(4)
        ctx.trace()
        kd = 1.0 if DIST[du] is None else getattr(u, DIST[du])(1.0, M)
        kt = 1.0 if TIME[tu] is None else getattr(u, TIME[tu])(1.0, M)
        for tag, kw, ref in (("", {}, (t0, r0, th0, f0)), (" (phases overridden)", {"initial_phases": PH2}, None)):
            if ref is None:
                ref = [g(LAM) for g in o.trajectory(initial_phases=PH2)]
            t, r, th, f = o.trajectory(distance_units=du, time_units=tu, **kw)
            info = dict(distance=du, time=tu)
            ctx.close("time" + tag, t(LAM), kt * ref[0], 1e-10 * kt * (1 + np.max(np.abs(ref[0]))), **info)
            ctx.close("radius" + tag, r(LAM), kd * ref[1], 1e-10 * kd * (1 + ref[1]), **info)
            ctx.close("theta" + tag, th(LAM), ref[2], 1e-10, **info)
            ctx.close("phi" + tag, f(LAM), ref[3], 1e-10 * (1 + np.abs(ref[3])), **info)
            ctx.close("scalar radius" + tag, r(0.3), kd * ref[1][1], 1e-10 * kd * (1 + ref[1][1]), **info)
    # the trajectory functions take the mass as an argument
    if kind in ("stable", "plunge"):
        fn = getattr(__import__("kerrgeopy." + kind, fromlist=[kind]), "stable_trajectory" if kind == "stable" else "plunging_trajectory")
        for du, tu in itertools.product(DIST, TIME):
            kd = 1.0 if DIST[du] is None else getattr(u, DIST[du])(1.0, M)
            kt = 1.0 if TIME[tu] is None else getattr(u, TIME[tu])(1.0, M)
            t, r, th, f = fn(*par, initial_phases=PH, M=M, distance_units=du, time_units=tu)
            ctx.step(4)
            ctx.close("function time", t(LAM), kt * t0, 1e-10 * kt * (1 + np.max(np.abs(t0))), distance=du, time=tu)
            ctx.close("function radius", r(LAM), kd * r0, 1e-10 * kd * (1 + r0), distance=du, time=tu)
    # the four-velocity and the deltas stay in geometrized units
    n = build((kind, par), None, None)
    for a_, b_, nm in zip(o.four_velocity(), n.four_velocity(), "t r theta phi".split()):
        ctx.close("u_%s unchanged by M" % nm, a_(LAM), b_(LAM), 1e-10 * (1 + np.abs(b_(LAM))))


def quantities(cell, ctx):
    kind, par, M, mu = cell
    o = build((kind, par), M, mu)
    n = build((kind, par), None, None)
    ctx.state()
    ctx.step(6)
    ctx.trace()
    E, L, Q = n.constants_of_motion()
    ctx.close("E, L, Q attributes unchanged", (o.E, o.L, o.Q), (E, L, Q), 1e-12 * np.abs((E, L, Q)))
    ctx.close("natural", o.constants_of_motion(), (E, L, Q), 1e-12 * np.abs((E, L, Q)))
    ctx.close("natural, named", o.constants_of_motion(units="natural"), (E, L, Q), 1e-12 * np.abs((E, L, Q)))
    m, big = mu * SUN, M * SUN
    mks = np.array([E * m * C**2, L * G * m * big / C, Q * (G * m * big / C) ** 2])
    # Q of an equatorial orbit is a rounding error
    tol = 1e-3 * np.abs(mks) + np.array([0, 0, 1e-13]) * (G * m * big / C) ** 2
    got = o.constants_of_motion(units="mks")
    ctx.close("mks", got, mks, tol)
    ctx.close("cgs", o.constants_of_motion(units="cgs"), np.array(got) * [1e7, 1e7, 1e14], 1e-12 * np.abs(np.array(got) * [1e7, 1e7, 1e14]))
    kg = kit.kg()
    for c in ((E, L, Q), (0.9, -2.0, 3.0)):
        s = kg.scale_constants(c, M, mu)
        ctx.close("scale_constants", s, (c[0] * mu, c[1] * mu * M, c[2] * mu**2 * M**2), 1e-12 * np.abs((c[0] * mu, c[1] * mu * M, c[2] * mu**2 * M**2)))
    # mass ratio does not matter to the motion
    for k in ("upsilon_r", "upsilon_theta"):
        ctx.close(k, getattr(o, k), getattr(n, k), 1e-12 * abs(getattr(n, k)))
    if not hasattr(o, "mino_frequencies"):
        return
    ctx.step(8)
    T = G * big / C**3
    U, O = np.array(n.mino_frequencies()), np.array(n.fundamental_frequencies())
    ctx.close("mino natural", o.mino_frequencies(), U, 1e-12 * np.abs(U))
    ctx.close("fundamental natural", o.fundamental_frequencies(), O, 1e-12 * np.abs(O))
    ctx.close("ratios", O, U[:3] / U[3], 1e-12 * np.abs(O))
    fm, ff = np.array(o.mino_frequencies(units="mks")), np.array(o.fundamental_frequencies(units="mks"))
    ctx.close("mino mks", fm, U * [T, T, T, T * T], 1e-3 * np.abs(U * [T, T, T, T * T]))
    ctx.close("mino cgs", o.mino_frequencies(units="cgs"), fm, 1e-12 * np.abs(fm))
    ctx.close("fundamental mks", ff, O / T, 1e-3 * np.abs(O / T))
    ctx.close("fundamental is mino over dilation", ff, fm[:3] / fm[3], 1e-12 * np.abs(ff))
    ctx.close("fundamental cgs", o.fundamental_frequencies(units="cgs"), ff, 1e-12 * np.abs(ff))
    ctx.close("fundamental mHz", o.fundamental_frequencies(units="mHz"), 1e3 * ff, 1e-9 * np.abs(ff))
    # phase advance in physical units: Omega t = Upsilon lambda over many periods
    if "stable" in kind:
        t = o.trajectory(time_units="mks")[0]
        lam = 2000 * 2 * np.pi / abs(U[0])
        ctx.close("mean motion", ff[0] * (t(lam) - t(0.0)) / (U[0] * lam), 1.0, 1e-2)


BAD = ["", "furlongs", "MKS", "Natural", "si", "parsec", "s", "m", None, 3]


def nomass(cell, ctx):
    kind, par, mM, mmu = cell
    o = build((kind, par), mM, mmu)
    ctx.state()
    ctx.outcome((mM is None, mmu is None))

    def evaluate(i, **kw):
        return o.trajectory(**kw)[i](0.2)

    exc = ValueError if mM is None else (ValueError, KeyError, TypeError)
    if mM is None:
        for du, tu in itertools.product(DIST, TIME):
            if (du, tu) != ("natural", "natural"):
                ctx.raises("trajectory without M", ValueError, lambda: o.trajectory(distance_units=du, time_units=tu))
        if hasattr(o, "mino_frequencies"):
            for un in ("mks", "cgs"):
                ctx.raises("mino without M", ValueError, o.mino_frequencies, units=un)
            for un in ("mks", "cgs", "mHz"):
                ctx.raises("fundamental without M", ValueError, o.fundamental_frequencies, units=un)
    if mM is None or mmu is None:
        for un in ("mks", "cgs"):
            ctx.raises("constants without masses", ValueError, o.constants_of_motion, units=un)
    for b in BAD:
        ctx.raises("unknown distance unit", exc, evaluate, 1, distance_units=b)
        ctx.raises("unknown time unit", exc, evaluate, 0, time_units=b)
        ctx.raises("unknown constants unit", ValueError, o.constants_of_motion, units=b)
        if hasattr(o, "mino_frequencies"):
            ctx.raises("unknown mino unit", ValueError, o.mino_frequencies, units=b)
            ctx.raises("unknown fundamental unit", ValueError, o.fundamental_frequencies, units=b)
    if hasattr(o, "mino_frequencies"):
        ctx.raises("mHz is no unit of Mino frequencies", ValueError, o.mino_frequencies, units="mHz")
    # natural units never need masses
    t, r, th, f = o.trajectory(distance_units="natural", time_units="natural")
    ctx.true("natural works", np.isfinite([t(0.2), r(0.2), th(0.2), f(0.2)]).all())


GROUPS = {"functions": functions, "relations": relations, "trajectories": trajectories, "quantities": quantities, "refusals": nomass}


def plan(tier):
    s, s5 = specs(tier), specs("quick")
    masses = [1.0, 4.3e6, 0.5] if tier == "quick" else MASSES
    return [
        ("functions", list(itertools.product(FUNCS, MASSES))),
        ("relations", list(itertools.product(MASSES, VALUES))),
        ("trajectories", [c + (m,) for c in s for m in masses]),
        ("quantities", [c + m for c in s for m in itertools.product(MASSES, MUS)]),
        ("refusals", [c + m for c in s5 for m in itertools.product([None, 1.0, 1e6], [None, 10.0])]),
    ]
