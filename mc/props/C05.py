"""C05: radial and polar roots are the roots, in the documented order."""
import numpy as np

from .. import exact, kit, lattice, ref
from ..kit import LD

PROPERTY = "C05"
RULE = ("every stable orbit (spin, distance, eccentricity, inclination) and every plunge (spin, energy, angular momentum, "
        "Carter constant; and the plunges sharing the constants of a stable orbit) of the alphabets with at most k "
        "boundary-layer coordinates; every returned root is compared with the exact root and with the ordering rule")
BOUNDS = "stable: k=3 (quick) / 4 (thorough); plunging: full grid of constants in both tiers; shared constants k=2 / k=4; ordering: 104 pairs (a, E) x 416 pairs (L, Q)"
ASSUMPTIONS = ["cells whose exact roots coincide to 1e-3 (relative) are left out for plunges: the kind of motion changes there"]


def stable_roots(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    E, L, Q = ref.constants(aa, p, e, xx)
    kE, kL = kit.cond(p, e, d)
    S, P = ref.other_roots(aa, E, L, Q, p, e)
    disc = S * S / 4 - P
    r3 = S / 2 + np.sqrt(disc) if disc > 0 else S / 2
    w3, w4 = float(r3), float(P / r3)
    b = LD(aa) ** 2 * (1 - E * E)
    zp = float((Q / (LD(1) - LD(x) ** 2) / b) if abs(x) < 0.9 else 1 + L * L / (b * LD(x) ** 2)) if aa else np.nan
    ctx.state()
    ctx.trace()
    given = kit.fl((E, L, Q))
    ctx.outcome((aa == 0, e == 0, abs(x) == 1))
    for nm, kw in (("", {}), (" (constants given)", {"constants": tuple(given)}), (" (constants given as an array)", {"constants": np.array(given, float)})):
        ctx.step(2)
        r = kg.stable_radial_roots(a, p, e, x, **kw)
        if not ctx.true("four real roots" + nm, len(r) == 4 and all(np.isreal(v) for v in r), got=r):
            continue
        ctx.close("r1 = p/(1-e)" + nm, r[0], p / (1 - e), 1e-13 * p / (1 - e))
        ctx.close("r2 = p/(1+e)" + nm, r[1], p / (1 + e), 1e-13 * p)
        # 2/(1-E^2) - r1 - r2 subtracts numbers of the size of the apoapsis
        t = 1e-11 * kL * (1 + p / (1 - e) / 10) * (1 + w3)
        tw = t * (1 + w3 / max(abs(w3 - w4), 1e-3))
        ctx.close("r3" + nm, r[2], w3, tw)
        ctx.close("r4" + nm, r[3], w4, tw)
        ctx.true("ordered" + nm, r[0] >= r[1] > r[2] - t and r[2] >= r[3] - t and r[3] >= -t, got=r)
        z = kg.stable_polar_roots(a, p, e, x, **kw)
        ctx.true("two roots" + nm, len(z) == 2)
        ctx.close("z-" + nm, z[0], float(1 - LD(x) ** 2), 1e-14)
        if aa:
            ctx.close("z+" + nm, z[1] / zp, 1.0, 1e-10 * kL * (1 + p / (1 - e)) )
            ctx.true("z- <= 1 <= z+" + nm, z[0] <= 1 <= z[1], got=z)


def check_plunge(a, E, L, Q, ctx):
    kg = kit.kg()
    g = kit.plunge_geo(a, E, L, Q)
    if g is None:
        ctx.outcome("left out")
        return
    ctx.outcome(g.kind)
    ctx.state()
    ctx.step()
    ctx.trace()
    r = kg.plunging_radial_roots(a, E, L, Q)
    if not ctx.true("four roots", len(r) == 4, got=r):
        return
    tol = 1e-9 / g.gap + 1e-9 * max(abs(v) for v in g.roots) / (1 if g.kind == "two complex roots" else 1)
    if g.kind == "two complex roots":
        ctx.true("two real, then a conjugate pair", np.isreal(r[0]) and np.isreal(r[1]) and np.iscomplex(r[2]) and np.iscomplex(r[3])
                 and abs(r[2] - np.conj(r[3])) < tol, got=r)
        ctx.close("r1", float(np.real(r[0])), g.rlo, tol)
        ctx.close("r2", float(np.real(r[1])), g.rhi, tol)
        ctx.close("pair, real part", float(np.real(r[2])), g.pair.real, tol)
        ctx.close("pair, size of imaginary part", abs(float(np.imag(r[2]))), abs(g.pair.imag), tol)
    else:
        ctx.true("all real", all(np.isreal(v) for v in r), got=r)
        want = [g.rhi, g.rlo] + sorted((v for v in g.roots if v not in (g.rhi, g.rlo)), reverse=True)
        ctx.close("motion between r1 and r2, rest in decreasing order", np.real(r), want, tol)
    rp = 1 + np.sqrt(1 - a * a)
    lo, hi = min(np.real(r[0]), np.real(r[1])), max(np.real(r[0]), np.real(r[1]))
    ctx.true("the motion crosses both horizons", lo <= 1 - np.sqrt(1 - a * a) + 1e-6 and hi >= rp - 1e-6, got=r)


def plunge_cell(cell, ctx):
    check_plunge(*cell, ctx)


def shared_cell(cell, ctx):
    check_plunge(cell[0], *kit.deep_constants(*cell), ctx)


def extreme_cell(cell, ctx):
    a, p, e, x = cell
    kg = kit.kg()
    w = exact.orbit(a, p, e, x)
    given = tuple(float(w[k]) for k in "ELQ")
    w3, w4, zp = (float(w[k]) if w[k] is not None else np.nan for k in ("r3", "r4", "z+"))
    ctx.state()
    ctx.trace()
    ctx.outcome((e == 0, abs(x) == 1, a == 0))
    for nm, kw in (("", {}), (" (constants given)", {"constants": given}), (" (constants given as a list)", {"constants": list(given)})):
        ctx.step(2)
        r = kg.stable_radial_roots(a, p, e, x, **kw)
        if not ctx.true("four real roots" + nm, len(r) == 4 and all(np.isreal(v) for v in r), got=r):
            continue
        ctx.close("r1" + nm, r[0] * (1 - e) / p, 1.0, 1e-13 + 1e-15 / (1 - e))
        ctx.close("r2" + nm, r[1] * (1 + e) / p, 1.0, 1e-13)
        # r3 and r4 come close where the discriminant vanishes
        t = (1e-13 + 5e-15 * p / (1 - e)) * (1 + w3 / max(w3 - w4, 1e-9))
        if t > 1e-4:
            ctx.outcome("r3, r4 left out: nearly coincident")
            continue
        ctx.close("r3" + nm, r[2] / w3, 1.0, t)
        # r4 is proportional to 1 - x^2, which doubles round near |x| = 1
        ctx.close("r4" + nm, r[3] / w4 if w4 else 1.0 + r[3], 1.0, t + (2e-15 / (1 - x * x) if abs(x) < 1 else 0))
        z = kg.stable_polar_roots(a, p, e, x, **kw)
        ctx.close("z-" + nm, z[0], 1 - x * x, 4e-15)
        if a and np.isfinite(zp):
            ctx.close("z+" + nm, z[1] / zp, 1.0, t + 2e-15 / x**2)


def ordering(cell, ctx):
    """Every kind of root pattern that bound constants can have, a fine lattice."""
    a, E = cell
    kg = kit.kg()
    rp, rm = 1 + np.sqrt(1 - a * a), a * a / (1 + np.sqrt(1 - a * a))
    for L in ORD_L:
        for Q in ORD_Q:
            rts = [complex(r) for r in ref.radial_roots_exact(a, E, L, Q)]
            gap = min(abs(u - v) / (abs(u) + abs(v) + 1e-3) for i, u in enumerate(rts) for v in rts[:i])
            # nearly coincident roots: the kind of motion changes there
            if gap < 1e-3:
                continue
            re, co = ref.classify_roots(a, E, L, Q)
            re = [float(v) for v in re]
            if len(re) == 4:
                # the motion lies between consecutive roots on both sides of the horizons
                pair = (re[3], re[2]) if re[2] < rm and re[3] > rp else (re[1], re[0]) if re[0] < rm and re[1] > rp else None
                want = None if pair is None else list(pair) + sorted((v for v in re if v not in pair), reverse=True)
            else:
                want = re if len(re) == 2 and re[0] < rm and re[1] > rp else None
            if want is None:
                continue
            ctx.state()
            ctx.step()
            ctx.trace()
            below = sum(v < rm for v in re)
            ctx.outcome((len(re), below))
            r = kg.plunging_radial_roots(a, E, L, Q)
            tol = 1e-9 / gap * (1 + max(abs(v) for v in rts))
            at = dict(L=L, Q=Q)
            if co:
                ctx.true("two real, then a conjugate pair", np.isreal(r[0]) and np.isreal(r[1]) and np.iscomplex(r[2])
                         and abs(r[2] - np.conj(r[3])) < tol and abs(min(abs(r[2] - complex(c)) for c in co)) < tol, got=r, **at)
                ctx.close("real roots, increasing", np.real(r[:2]), want, tol, **at)
            elif ctx.true("all real", all(np.isreal(v) for v in r), got=r, **at):
                ctx.close("motion between r1 and r2, rest decreasing", np.real(r), want, tol, **at)


ORD_A = [0.1, 0.5, 0.9, 0.97, 0.998, 0.9999, -0.9, -0.998]
ORD_E = [0.1, 0.3, 0.5, 0.7, 0.8, 0.85, 0.9, 0.93, 0.95, 0.965, 0.98, 0.99, 0.999]
ORD_L = [s * v for v in (0.05, 0.3, 0.7, 1.0, 1.3, 1.5, 1.7, 1.9, 2.1, 2.4, 3.0, 3.6, 4.5) for s in (1, -1)]
ORD_Q = [0.0, 1e-6, 1e-3, 0.02, 0.05, 0.1, 0.2, 0.35, 0.6, 1.0, 2.0, 4.0, 8.0, 12.0, 16.0, 25.0]


GROUPS = {"ordering": ordering, "extreme": extreme_cell, "stable": stable_roots, "plunging": plunge_cell, "shared constants": shared_cell}


def plan(tier):
    q = tier == "quick"
    return [
        ("stable", kit.grid4(3 if q else 4)),
        ("extreme", 
         # beyond, 1 - E is lost in a double
         [c for c in lattice.product((lattice.FAR_A, lattice.FAR_P, lattice.FAR_E, lattice.FAR_X), 2 if q else 4)
          if c[1] / (1 - c[2]) < 1e11]),
        ("plunging", kit.plunges(4)),
        ("ordering", [(a, E) for a in ORD_A for E in ORD_E]),
        ("shared constants", kit.deep_plunges(2 if q else 4)),
    ]
