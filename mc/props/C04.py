"""C04: constants of motion and orbital parameters are inverse to each other."""
import numpy as np

from .. import kit, lattice, ref

PROPERTY = "C04"
RULE = ("every (spin, distance outside the separatrix, eccentricity, inclination) of the alphabet with at most k "
        "boundary-layer coordinates: shape -> constants -> shape through the functions and through the alternative "
        "constructor, and reference constants -> shape -> constants")
BOUNDS = "k=3 (quick), k=4 = full grid (thorough) for the functions; k=2 / k=3 for the constructor; orbits within r < 1e5; nearly polar orbits to |x| = 1e-7"
ASSUMPTIONS = ["spins are non-negative: with a negative spin the shape uses the flipped convention and the constants do not"]

A_POS = (lattice.A[0], [a for a in lattice.A[1] if np.copysign(1, a) > 0])


def tol(a, p, e, x, d):
    """Two close turning points react to the square root of a rounding error."""
    rmax = p / (1 - e)
    big = 1e-13 * (1 + 0.03 * rmax) * (1 + 1e-3 / d)
    e_tol = big / (e + np.sqrt(big))
    flat = 1e-11 * (1 + 1e-2 / d) * (1 + 1 / (1 - e) ** 2)
    return e_tol * 100 + flat, 2e-9 + 1e-12 / abs(x)


def sane(a, e, x, d):
    return kit.p_of(a, e, x, d) / (1 - e) < 1e5


def roundtrip(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    te, tx = tol(a, p, e, x, d)
    ctx.state()
    C = kit.fl(ref.constants(a, p, e, x))
    ctx.outcome((a == 0, e == 0, abs(x) == 1, x > 0))
    for nm, cst in (("library constants", kg.constants_of_motion(a, p, e, x)), ("reference constants", C)):
        ctx.step(2)
        got = kg.apex_from_constants(a, *cst)
        ctx.trace()
        ctx.true("four real numbers (%s)" % nm, len(got) == 4 and all(np.isreal(v) for v in got), got=got)
        ctx.close("a (%s)" % nm, got[0], a, 0.0)
        ctx.close("p (%s)" % nm, got[1] / p, 1.0, te)
        ctx.close("e (%s)" % nm, got[2], e, te)
        ctx.close("x (%s)" % nm, got[3], x, tx)
        ctx.true("0<=e<1 (%s)" % nm, 0 <= got[2] < 1, got=got)


def constructor(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    te, tx = tol(a, p, e, x, d)
    kE, kL = kit.cond(p, max(e, te), d)
    C = kit.fl(ref.constants(a, p, e, x))
    ctx.state()
    o = kg.StableOrbit.from_constants(a, *C)
    ctx.step()
    ctx.trace()
    ctx.close("p", o.p / p, 1.0, te)
    ctx.close("e", o.e, e, te)
    ctx.close("x", o.x, x, tx)
    for nm, g, w in zip("ELQ", (o.E, o.L, o.Q), C):
        ctx.close(nm, g, w, 1e-8 + 1e-10 * kL * (1 + abs(w)) + 1e-10 * (1 + C[1] ** 2) + 30 * te * abs(w))
    ctx.true("stable", o.stable is True)
    # defaults, and everything else the constructor accepts
    ctx.true("default phases and masses", tuple(o.initial_phases) == (0, 0, 0, 0) and o.M is None and o.mu is None)
    ph = (3.0, 0.7, 2.0, -1.0)
    ctx.step()
    o = kg.StableOrbit.from_constants(a, *C, initial_phases=ph, M=1e6, mu=10.0)
    ctx.true("phases and masses passed on", tuple(o.initial_phases) == ph and o.M == 1e6 and o.mu == 10.0,
             got=(o.initial_phases, o.M, o.mu))
    ctx.close("starts at q_t0, q_phi0", [o.initial_position[0], o.initial_position[3]], [3.0, -1.0], 1e-9)


GROUPS = {"round trip": roundtrip, "constructor": constructor}


def plan(tier):
    k = 3 if tier == "quick" else 4
    # nearly polar orbits have little angular momentum, but it has a sign
    polar = [(a, e, s * x, d) for a in (0.0, 0.1, 0.9) for e in (0.0, 0.3) for x in (3e-3, 3e-4, 3e-5, 1e-6, 1e-7) for s in (1, -1) for d in (0.5, 20.0)]
    return [
        ("round trip", kit.grid4(k, a_axis=A_POS, keep=sane) + polar),
        ("constructor", kit.grid4(k - 1, a_axis=A_POS, keep=lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3 and e < .99)),
    ]
