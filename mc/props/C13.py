"""C13: initial data that is not a bound orbit of a Kerr black hole is refused, never answered with nonsense."""
import itertools

import numpy as np

from .. import kit, ref
from . import C10, C12
from .C08 import sane

PROPERTY = "C13"
RULE = ("for events of every orbit of the alphabets: the four-velocity times every scale of the alphabet, every component "
        "and pair of components changed by every factor of the alphabet, null and spacelike vectors; accepted exactly if "
        "the norm, evaluated independently in extended precision, is -1 within the documented 1e-6 (a decade either side "
        "is left open). Also every (a, constants) outside the supported domain, through every way of creating an orbit, and "
        "every event of the lattice with constants of unbound motion")
BOUNDS = "events: k=1 (quick) / 2 (thorough) orbits x 3 points; out-of-domain lattice complete in both tiers"
ASSUMPTIONS = ["a refusal is a ValueError"]

PI = np.pi
LD = np.longdouble


def norm(a, x, u):
    a, r, th = LD(a), LD(x[1]), LD(x[2])
    ut, ur, uth, uph = map(LD, u)
    S = r * r + a * a * np.cos(th) ** 2
    D = r * r - 2 * r + a * a
    s2 = np.sin(th) ** 2
    terms = (-(1 - 2 * r / S) * ut * ut, -4 * a * r * s2 / S * ut * uph, S / D * ur * ur, S * uth * uth,
             s2 * (r * r + a * a + 2 * a * a * r * s2 / S) * uph * uph)
    return float(sum(terms)), float(sum(abs(t) for t in terms))


def decide(ctx, kg, a, pos, u, what):
    n, size = norm(a, pos, u)
    ctx.state()
    ctx.step()
    off = abs(n + 1)
    if n >= 0 or off > 1e-5 + 1e-12 * size:
        ctx.raises("unphysical velocity refused: %s" % (what,), ValueError, kg.Orbit, a, pos, u)
        return "refused"
    if off < 1e-7 - 1e-13 * size:
        try:
            o = kg.Orbit(a, pos, u)
        except ValueError as ex:
            ctx.fail("unit velocity accepted: %s" % (what,), error=str(ex), norm=n)
            return "bad"
        ctx.checks += 1
        ctx.true("finite", np.all(np.isfinite([float(f(0.3)) for f in o.trajectory()])), what=what)
        return "accepted"
    return "open"


def velocities(cell, ctx):
    if cell[0] == "p" or cell[0] == "s":
        C, g = C10.geo(cell if cell[0] == "s" else cell[1:])
    else:
        a, e, x, d = cell
        p = kit.p_of(a, e, x, d)
        C, g = (a,), kit.stable_geo(a, p, e, x)
    if g is None or not (g.rad_ok and g.pol_ok):
        return
    a = C[0]
    kg = kit.kg()
    for qr, qt in ((1.3, 0.8), (PI, 2.2), (4.9, 3.9)):
        ph = (2.5, qr, qt, -0.7)
        pos, vel = C12.event(g, 0.0, ph)
        near = min(abs(pos[1] - g.rm), abs(pos[1] - g.rp)) / g.sep
        if near < 0.02 or pos[1] < 0.05 or abs(np.sin(pos[2])) < 0.01:
            continue
        ctx.trace()
        for s in (1.0, 0.0, 0.5, 1 - 1e-4, 1 + 1e-4, 1 - 1e-5, 1 + 1e-5, 1 + 1e-8, 2.0, 100.0, -0.5, -2.0):
            if s in (1.0, 1 + 1e-8) and near < 0.1:
                continue
            ctx.outcome(decide(ctx, kg, a, pos, tuple(s * v for v in vel), ("scaled", s)))
        for i in range(4):
            for f in (0.0, -1.0 if i == 0 else 0.9, 1.1, 1.01, 3.0, 1e3):
                if i == 0 and f == -1.0:
                    continue
                u = list(vel)
                u[i] = u[i] * f
                if u[i] == vel[i]:
                    u[i] += f
                n, size = norm(a, pos, u)
                if abs(n + 1) < 1e-5 + 1e-12 * size:
                    continue
                ctx.outcome(decide(ctx, kg, a, pos, tuple(u), ("component", i, f)))
        for i, j in itertools.combinations(range(4), 2):
            u = list(vel)
            u[i], u[j] = u[i] * 1.5 + 0.1, u[j] * 0.7 - 0.1
            n, size = norm(a, pos, u)
            if abs(n + 1) < 1e-5 + 1e-12 * size:
                continue
            ctx.outcome(decide(ctx, kg, a, pos, tuple(u), ("pair", i, j)))
        for i in range(1, 4):
            if near and pos[1] > g.rp:
                ctx.outcome(decide(ctx, kg, a, pos, tuple(float(k == i) for k in range(4)), ("spacelike", i)))


NAN, INF = float("nan"), float("inf")
CONST = list(itertools.product((0.3, 0.8, 0.95), (2.0, -1.0, 3.5), (0.0, 1.0, 10.0)))


def plunge_domain(cell, ctx):
    """PlungingOrbit outside its documented domain"""
    kg = kit.kg()
    for a in (0, 0.0, -0.0, 1, 1.0, -1, -1.0, 1 + 1e-12, 1.2, -3.0, 7, NAN, INF, -INF):
        for E, L, Q in CONST:
            ctx.state()
            ctx.raises("a=%r refused" % a, ValueError, kg.PlungingOrbit, a, E, L, Q)
    for a in (0.1, 0.5, -0.5, 0.998):
        for E in (1, 1.0, 1 + 1e-12, 1.0001, 1.5, 30.0, -1, -1.0, -1.2):
            for L, Q in itertools.product((2.0, -1.0, 0.1, 12.0), (0.0, 1.0, 10.0)):
                ctx.state()
                ctx.raises("E=%r refused" % E, ValueError, kg.PlungingOrbit, a, E, L, Q)
    # polar plunges have no azimuth; with a smaller Carter constant they stay clear of the axis
    for a in (0.1, 0.5, -0.5, 0.9, 0.998):
        for E in (0.3, 0.8, 0.95, np.float64(0.95)):
            for zero in (0, 0.0, -0.0, np.float64(0)):
                for Q in (1.0, 3.0, 12.0, 14.0, 20):
                    ctx.state()
                    ctx.raises("L=0 with Q=%r refused" % Q, ValueError, kg.PlungingOrbit, a, E, zero, Q)
                for f in (0.0, 0.1, 0.9):
                    o = kg.PlungingOrbit(a, E, zero, f * a * a * (1 - E * E))
                    ctx.state()
                    ctx.true("L=0 clear of the axis accepted", all(np.isfinite(float(q(0.01))) for q in o.trajectory()))


def velocity(a, E, L, Q, r, th, sr, st):
    S = r * r + a * a * np.cos(th) ** 2
    D = r * r - 2 * r + a * a
    H = E * (r * r + a * a) - a * L
    R = H * H - D * (r * r + (a * E - L) ** 2 + Q)
    z = np.cos(th)
    Z = Q - (Q + a * a * (1 - E * E) + L * L) * z * z + a * a * (1 - E * E) * z**4
    if abs(z) < 1e-15:
        Z = Q
    if R < 0 or Z < 0:
        return None
    s2 = np.sin(th) ** 2
    return (((r * r + a * a) * H / D - a * a * E * s2 + a * L) / S, sr * np.sqrt(R) / S,
            st * np.sqrt(Z) / np.sin(th) / S, (a * H / D + L / s2 - a * E) / S)


def events(cell, ctx):
    """events of unbound motion, of motion around an extreme hole, and Schwarzschild plunges"""
    kind, a = cell
    kg = kit.kg()
    Es = {"unbound": (1.0 + 1e-6, 1.0001, 1.1, 2.0), "extreme": (0.8, 0.95, 0.97), "schwarzschild": (0.8, 0.9, 0.93)}[kind]
    for E, L, Q, r, sr, st in itertools.product(Es, (1.0, 3.0, 5.0, -3.0, 8.0), (0.0, 1.0, 10.0), (1.5, 3.0, 6.0, 12.0, 50.0), (1, -1), (1, -1)):
        if Q == 0 and st < 0:
            continue
        if kind == "schwarzschild" and (r < 2.2 or _bound_stable(E, L, Q, r)):
            continue
        if a and abs(a) < 1 and abs(r * r - 2 * r + a * a) < 1e-3:
            continue
        th = PI / 2 - (0.1 if Q else 0)
        u = velocity(a, E, L, Q, r, th, sr, st)
        if u is None:
            continue
        ctx.state()
        ctx.trace()
        ctx.raises("%s refused" % kind, ValueError, kg.Orbit, a, (0.0, r, th, 0.0), u)


def _bound_stable(E, L, Q, r):
    """Schwarzschild: is r in the outer of two allowed regions (or too close to tell)?"""
    re, co = ref.classify_roots(0.0, E, L, Q)
    re = [float(v) for v in re]
    if len(co):
        return False
    return not (r < re[2] * (1 - 1e-2)) if len(re) == 4 else True


def accepted(cell, ctx):
    """Schwarzschild and every other supported spin: bound orbits are accepted (no over-refusal)"""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    g = kit.stable_geo(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    for ph in ((0.3, 1.0, 2.0, 0.1), (0.3, 4.0, 5.0, 0.1)):
        pos, vel = C12.event(g, 0.0, ph)
        if abs(norm(a, pos, vel)[0] + 1) < 1e-8 and not C12.snapped(g, pos[1], pos[2]):
            ctx.state()
            ctx.step()
            ctx.trace()
            o = kg.Orbit(a, pos, vel)
            ctx.true("accepted as stable", bool(o.stable))


GROUPS = {"velocities": velocities, "plunge domain": plunge_domain, "events": events, "bound orbits accepted": accepted}


def plan(tier):
    k = 1 if tier == "quick" else 2
    st = kit.grid4(k, keep=C12.keep)
    pl = [("p",) + c for c in C10.cells(k) if c[0] != "s" and c[0] > 1e-4] + [c for c in C10.cells(k) if c[0] == "s"]
    ev = ([("unbound", a) for a in (0.0, 0.1, 0.5, 0.9, 0.998)] + [("extreme", a) for a in (1.0, -1.0)]
          + [("schwarzschild", 0.0)])
    return [("velocities", st + pl), ("plunge domain", [0]), ("events", ev), ("bound orbits accepted", kit.grid4(k + 1, keep=C12.keep))]
