"""C03: parameters outside the documented domain are refused, inside are answered."""
import itertools

import numpy as np

from .. import kit, lattice

PROPERTY = "C03"
RULE = ("every entry point that takes orbital parameters x every single invalid coordinate and every pair of invalid "
        "coordinates x every base orbit, with and without optional arguments; and every valid cell of the alphabet")
BOUNDS = "quick: all refusals, valid cells with k=2; thorough: valid cells with k=3"
ASSUMPTIONS = ["a refusal is a ValueError, as documented by the error messages and the test suite"]

NAN, INF = float("nan"), float("inf")
BAD_A = [1, 1.0, -1, -1.0, 1 + 1e-9, -1 - 1e-9, 1.5, -2.0, 10, NAN, INF, -INF]
BAD_E = [-1e-9, -0.3, -1, 1 + 1e-9, 1.5, 2, 100.0, NAN, INF, -INF]
BAD_X = [1 + 1e-9, -1 - 1e-9, 1.5, -2, 30, NAN, INF, -INF]
# factors of the separatrix
BAD_P = [1 - 1e-5, 0.99, 0.9, 0.7, 0.5, 0.1, 0, -1, -1e6, NAN, -INF]
BASES = [(a, e, x) for a in (0.0, 0.5, -0.5, 0.998, 1e-3) for e in (0.0, 0.3, 0.9) for x in (1.0, -1.0, 0.6, -0.2)]


def entry_points(kg):
    C, F = kg.constants, kg.frequencies
    full = {
        "energy": C.energy,
        "angular_momentum": C.angular_momentum,
        "angular_momentum(E)": lambda a, p, e, x: C.angular_momentum(a, p, e, x, 0.95),
        "carter_constant": C.carter_constant,
        "carter_constant(E,L)": lambda a, p, e, x: C.carter_constant(a, p, e, x, 0.95, 3.0),
        "constants_of_motion": C.constants_of_motion,
    }
    con = (0.95, 3.0, 1.0)
    freq = {
        "r_frequency": F.r_frequency,
        "r_frequency(c)": lambda a, p, e, x: F.r_frequency(a, p, e, x, con),
        "theta_frequency": F.theta_frequency,
        "theta_frequency(c)": lambda a, p, e, x: F.theta_frequency(a, p, e, x, con),
        "phi_frequency": F.phi_frequency,
        "phi_frequency(c,u)": lambda a, p, e, x: F.phi_frequency(a, p, e, x, con, 2.0, 3.0),
        "gamma": F.gamma,
        "gamma(c,u)": lambda a, p, e, x: F.gamma(a, p, e, x, con, 2.0, 3.0),
        "mino_frequencies": F.mino_frequencies,
        "fundamental_frequencies": F.fundamental_frequencies,
        "StableOrbit": kg.StableOrbit,
        "stable_trajectory": kg.stable.stable_trajectory,
    }
    return full, freq


def refuse_cell(cell, ctx):
    """one base orbit: every invalid single coordinate and pair"""
    a, e, x = cell
    kg = kit.kg()
    full, freq = entry_points(kg)
    p0 = kit.p_of(a, e, x, 0.7)
    bad = []
    ps = kit.psep(a, e, x)
    for v in BAD_A:
        bad.append((v, p0, e, x))
    for v in BAD_E:
        bad.append((a, p0, v, x))
    for v in BAD_X:
        bad.append((a, p0, e, v))
    for v in BAD_P:
        bad.append((a, ps * v, e, x))
    for va, ve in itertools.product(BAD_A[1:4], BAD_E[1:5:3]):
        bad.append((va, p0, ve, x))
    for ve, vx in itertools.product(BAD_E[1:5:3], BAD_X[:3]):
        bad.append((a, p0, ve, vx))
    for va, vp in itertools.product(BAD_A[1:4], BAD_P[:4]):
        bad.append((va, ps * vp, e, x))
    # the sign of a invalid parameter pair must not cancel
    bad += [(-1.2, p0, e, -1.2), (1.2, p0, e, 1.2), (-1.0, p0, e, -x), (1.0, 1e6, 0.0, 1.0)]
    for args in bad:
        ctx.state()
        for nm, f in list(full.items()) + list(freq.items()):
            ctx.raises("%s refuses" % nm + " %r" % (args,), ValueError, f, *args)
    # polar and marginally bound orbits have constants but no frequencies
    pe1, px0 = kit.p_of(a, 1.0, x, 0.7), kit.p_of(a, e, 0.0, 0.7)
    for args in ((a, pe1, 1.0, x), (a, pe1, 1, x), (a, px0, e, 0.0), (a, px0, e, 0), (a, px0, e, -0.0)):
        ctx.state()
        for nm, f in freq.items():
            ctx.raises("%s refuses" % nm + " %r" % (args,), ValueError, f, *args)
        for nm, f in full.items():
            ctx.step()
            ctx.true("%s answers" % nm, np.all(np.isfinite(f(*args))), args=args)
    st = abs(a)
    sep = {"separatrix": kg.separatrix, "spacetime.separatrix": lambda a_, e_, x_: kg.KerrSpacetime(a_).separatrix(e_, x_),
           "is_stable": lambda a_, e_, x_: kg.constants.is_stable(a_, p0, e_, x_),
           "spacetime.is_stable": lambda a_, e_, x_: kg.KerrSpacetime(a_).is_stable(p0, e_, x_)}
    for nm, f in sep.items():
        for v in [1, 1.0, -0.3, 1 + 1e-9, -1.0, 2.0, NAN, INF]:
            ctx.raises("%s refuses a=%r" % (nm, v), ValueError, f, v, e, x)
        for v in BAD_E:
            ctx.raises("%s refuses e=%r" % (nm, v), ValueError, f, st, v, x)
        for v in BAD_X:
            ctx.raises("%s refuses x=%r" % (nm, v), ValueError, f, st, e, v)
        ctx.step()
        ctx.true("%s answers" % nm, np.isfinite(f(st, e, x)))
    ctx.trace()


def valid_params_cell(cell, ctx):
    a, e, x = cell
    kg = kit.kg()
    ctx.state()
    ctx.step()
    want = bool(0 <= a <= 1 and 0 <= e <= 1 and -1 <= x <= 1)
    got = kg.valid_params(a, e, x)
    ctx.true("valid_params", bool(got) == want and isinstance(got, (bool, np.bool_)), got=got)
    ctx.trace()


def answer_cell(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    full, freq = entry_points(kg)
    p = kit.p_of(a, e, x, d)
    ctx.state()
    ctx.trace()
    for nm, f in list(full.items()) + list(freq.items()):
        if nm not in ("constants_of_motion", "mino_frequencies", "fundamental_frequencies"):
            continue
        ctx.step()
        ctx.true("%s answers" % nm, np.all(np.isfinite(f(a, p, e, x))))
    o = kg.StableOrbit(a, p, e, x)
    ctx.step()
    vals = [o.E, o.L, o.Q, o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma, o.omega_r, o.omega_theta, o.omega_phi,
            *o.initial_position, *o.initial_velocity]
    ctx.true("StableOrbit attributes", np.all(np.isfinite(vals)), vals=vals)
    ctx.true("stable flag", o.stable is True)
    lam = np.linspace(-3, 3, 7) / max(1.0, p**0.5)
    for nm, f in zip("t r theta phi".split(), o.trajectory()):
        ctx.step()
        ctx.true("trajectory %s" % nm, np.all(np.isfinite(f(lam))))


def plunge_cell(cell, ctx):
    E, L, Q = cell
    kg = kit.kg()
    ctx.state()
    ctx.trace()
    ctx.raises("PlungingOrbit refuses a=0", ValueError, kg.PlungingOrbit, 0, E, L, Q)
    ctx.raises("PlungingOrbit refuses a=0.0", ValueError, kg.PlungingOrbit, 0.0, E, L, Q)
    # radial infall into a Schwarzschild hole from rest at r0
    for r0 in (10.0, 20.0):
        E0 = np.sqrt(1 - 2 / r0)
        ctx.raises("Orbit refuses a Schwarzschild plunge", ValueError, kg.Orbit, 0, (0, r0, np.pi / 2, 0), (1 / E0, 0, 0, 0))
        ctx.raises("Orbit refuses a Schwarzschild plunge", ValueError, kg.Orbit, 0.0, (0, r0, 1.0, 0.3), (1 / E0, 0, 0, 0))


GROUPS = {"refused": refuse_cell, "valid_params": valid_params_cell, "answered": answer_cell, "plunge": plunge_cell}
CHUNK = {"refused": 1}


def plan(tier):
    AE = BAD_A + [0, 0.0, 0.5, 1, 1e-12, -1e-12, -0.5]
    EE = BAD_E + [0, 0.5, 1, 1.0, 1e-12]
    XX = BAD_X + [0, 1, -1, 0.5, -0.5]
    return [("refused", BASES), ("plunge", [(0.9, 0.1, 12), (0.94, 0.1, 12), (0.95, -1.0, 5.0)]),
            ("valid_params", list(itertools.product(AE, EE, XX))),
            ("answered", kit.grid4(2 if tier == "quick" else 3))]
