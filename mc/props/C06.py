"""C06: Mino-time frequencies are the orbit averages of the geodesic equations."""
import numpy as np

from .. import exact, kit, lattice, ref

PROPERTY = "C06"
RULE = ("every (spin, distance outside the separatrix, eccentricity, inclination) of the alphabet with at most k boundary-"
        "layer coordinates; the four frequencies are compared with averages of the separated geodesic equations obtained "
        "by quadrature, without elliptic functions; plus orbits whose third radial root coincides with the outer horizon")
BOUNDS = "k=3 (quick), k=4 = full grid (thorough); apoapsis below 1e4; parameters within 1e-300 of the special cases: "\
         "k=2 (quick), full grid (thorough)"
ASSUMPTIONS = ["trapezoid quadrature of smooth periodic functions, doubled until the spectrum has decayed to 1e-14"]


def sane(a, e, x, d):
    return kit.p_of(a, e, x, d) / (1 - e) < 1e4


def tol_freq(a, p, e, x, d):
    """Relative tolerances for Ups_r, Ups_theta, Ups_phi, Gamma."""
    kE, kL = kit.cond(p, e, d)
    base = 1e-11 * kL * (1 + 0.1 / (1 - e) ** 2) * (1 + 1e-2 / d)
    return base, base, base, base


def freqs(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        ctx.outcome("reference not converged")
        return
    ctx.state()
    ctx.trace()
    ctx.step()
    ctx.outcome((aa == 0, e == 0, abs(x) == 1, xx > 0))
    got = kg.mino_frequencies(a, p, e, x)
    ctx.true("four frequencies", len(got) == 4)
    want = (g.Ups_r, g.Ups_th, g.Ups_ph, g.Gamma)
    for nm, v, w, t in zip(("radial", "polar", "azimuthal", "time"), got, want, tol_freq(a, p, e, x, d)):
        ctx.close(nm, v, w, t * abs(w))
    ctx.true("signs", got[0] > 0 and got[1] > 0 and got[3] > 0 and (np.sign(got[2]) == np.sign(xx) or abs(xx) < 0.2), got=got)


def extreme(cell, ctx):
    """Within 1e-300 of a special case: the frequencies keep their digits."""
    a, p, e, x = cell
    kg = kit.kg()
    g = exact.geodesic(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        ctx.outcome("reference not converged")
        return
    ctx.state()
    ctx.trace()
    ctx.step()
    ctx.outcome((a == 0, e == 0, abs(x) == 1))
    got = kg.mino_frequencies(a, p, e, x)
    base = 1e-12 * (1 + 1e-2 / (1 - e)) + 5e-15 * p / (1 - e)
    # r_+ - r_- loses digits as the spin approaches one
    hole = 1e-15 / (1 - abs(a))
    for nm, v, w, t in zip(("radial", "polar", "azimuthal", "time"), got, (g.Ups_r, g.Ups_th, g.Ups_ph, g.Gamma),
                           (base, base, base + hole, base + hole)):
        ctx.close(nm, v / w, 1.0, t)


GROUPS = {"frequencies": freqs, "extreme": extreme}


def plan(tier):
    far = [c for c in lattice.product((lattice.FAR_A, lattice.FAR_P, lattice.FAR_E, lattice.FAR_X), 2 if tier == "quick" else 4)
           if c[2] <= 1 - 1e-4 and c[1] / (1 - c[2]) < 1e9
           # the two inner roots coincide to rounding
           and not (1 - abs(c[0]) < 1e-12 and abs(c[3]) <= 1e-3 and c[1] >= 1e6)] + kit.grazing(1)
    return [("frequencies", kit.grid4(3 if tier == "quick" else 4, keep=sane)), ("extreme", far)]
