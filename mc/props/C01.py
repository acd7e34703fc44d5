"""C01: the constants of motion are those of the orbit with the requested shape."""
import numpy as np

from .. import exact, kit, lattice, ref
from ..kit import LD

PROPERTY = "C01"
RULE = ("every (spin, distance outside the separatrix, eccentricity, inclination) of the alphabet with at most k "
        "boundary-layer coordinates, including polar (x=0) and marginally bound (e=1) orbits and negative spins; "
        "each is evaluated through every entry point that returns constants")
BOUNDS = "constants and turning points: full grid (k=4); every optional-argument form: k=2 (quick), k=3 (thorough); " \
          "parameters within 1e-300 of the special cases: k=2 (quick), full grid (thorough)"
ASSUMPTIONS = ["next to the special cases the same equations are solved with 1300 decimal digits",
               "reference constants solve R(r1)=R(r2)=0 with Q=z(a^2(1-E^2)+L^2/(1-z)) in extended precision"]

EA = (lattice.E[0], lattice.E[1] + [1.0])
XA = (lattice.X[0], lattice.X[1] + [0.0])


def constants_cell(cell, ctx, full=True):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    E, L, Q = kit.fl(ref.constants(aa, p, e, xx))
    ctx.state()
    ctx.outcome((a == 0, e == 0, e == 1, xx == 0, abs(xx) == 1, xx > 0))
    ctx.trace()
    # distance to the separatrix and smallness of |x| condition the problem
    kE, kL = kit.cond(p, e, d)
    tE, tL, tQ = 1e-10 * kE, 1e-10 * kL * (1 + abs(L)), (1e-10 * kL + (3e-14 / xx**2 if xx else 0)) * (1 + abs(Q) + L * L)
    gE, gL, gQ = kg.constants_of_motion(a, p, e, x)
    ctx.step()
    ctx.close("E", gE, E, tE)
    ctx.close("1-E", (1 - gE) * p, (1 - E) * p, 1e-10 * kL)
    ctx.close("L", gL, L, tL)
    ctx.close("Q", gQ, Q, tQ)
    ctx.true("sign(L)=sign(x)", np.sign(gL) == np.sign(xx), L=gL, x=xx)
    ctx.true("bound", (gE < 1) if e < 1 else gE == 1, E=gE)
    ctx.true("Q>=0", gQ >= -1e-14, Q=gQ)
    # the turning points of the motion that the returned constants generate
    c = ref.radial_coeffs(aa, gE, gL, gQ)
    der = [i * c[i] for i in range(1, 5)]
    for nm, r in (("rmin", LD(p) / (1 + LD(e))),) + ((("rmax", LD(p) / (1 - LD(e))),) if e < 1 else ()):
        R = ref.polyval(c, r)
        size = sum(abs(q) * r**i for i, q in enumerate(c))
        ctx.close("R(%s)=0" % nm, float(R / size), 0.0, 3e-11 * kL)
        ctx.step()
    if xx != 0:
        z = 1 - LD(xx) ** 2
        b = LD(aa) ** 2 * (1 - LD(gE) ** 2)
        V = LD(gQ) - (LD(gQ) + b + LD(gL) ** 2) * z + b * z * z
        ctx.close("polar turning point", float(V / (1 + abs(gQ) + gL * gL)), 0.0, 3e-11 * kL)
    if not full:
        return
    # single-quantity functions, with and without the values already known
    ctx.step(7)
    ctx.close("energy", kg.energy(a, p, e, x), E, tE)
    ctx.close("angular_momentum", kg.angular_momentum(a, p, e, x), L, tL)
    ctx.close("angular_momentum(E)", kg.angular_momentum(a, p, e, x, E), L, tL)
    ctx.close("carter", kg.carter_constant(a, p, e, x), Q, tQ)
    ctx.close("carter(E)", kg.carter_constant(a, p, e, x, E), Q, tQ)
    ctx.close("carter(E,L)", kg.carter_constant(a, p, e, x, E, L), Q, tQ)
    ctx.close("carter(L=)", kg.carter_constant(a, p, e, x, L=L), Q, tQ)


def entry_cell(cell, ctx):
    constants_cell(cell, ctx, full=False)


def extreme_cell(cell, ctx):
    """As close to a special case as doubles allow: full precision, not only continuity."""
    a, p, e, x = cell
    kg = kit.kg()
    w = exact.orbit(a, p, e, x)
    E, L, Q = (float(w[k]) for k in "ELQ")
    ctx.state()
    ctx.trace()
    ctx.step()
    ctx.outcome((e == 0, e == 1, x == 0, abs(x) == 1, a == 0))
    g = kg.constants_of_motion(a, p, e, x)
    ctx.close("E", g[0], E, 1e-14)
    # energies near one carry 1 - E ~ 1/p only to 1e-16 p
    t = 1e-13 + 5e-15 * p
    ctx.close("L/L", g[1] / L if L else float(g[1] == 0), 1.0, t)
    # 1 - x^2 is rounded near |x| = 1
    t += 2e-15 / (1 - x * x) if abs(x) < 1 else 0
    ctx.close("Q/Q", g[2] / Q if Q else float(g[2] == 0), 1.0, t)


GROUPS = {"all entry points": constants_cell, "constants": entry_cell, "extreme": extreme_cell}


def plan(tier):
    near = kit.grid4(2 if tier == "quick" else 3, e_axis=EA, x_axis=XA)
    full = kit.grid4(4, e_axis=EA, x_axis=XA)
    seen = set(near)
    axes = (lattice.FAR_A, lattice.FAR_P, (lattice.FAR_E[0], lattice.FAR_E[1] + [1.0]), (lattice.FAR_X[0], lattice.FAR_X[1] + [0.0]))
    return [("all entry points", near), ("constants", [c for c in full if c not in seen]),
            ("extreme", lattice.product(axes, 2 if tier == "quick" else 4))]
