"""C08: stable trajectories solve the geodesic equations from the documented start."""
import numpy as np

from .. import exact, kit, lattice, ref
from .C06 import tol_freq

PROPERTY = "C08"
RULE = ("every cell of the stable alphabet with at most k boundary-layer coordinates, times an alphabet of initial phases, "
        "times 20 Mino times of both signs including every exact turning point and equator crossing; all four coordinates "
        "are compared with direct quadrature of the separated geodesic equations; plus orbits whose third radial root "
        "coincides with the outer horizon")
BOUNDS = "trajectory functions: k=2 (quick) / 3 (thorough) with 2 phase tuples; orbit objects: k=1 / 2 with 4 phase tuples; Mino times to 1e9 with k=1 / 2; parameters within 1e-300 of "\
         "the special cases: k=2 / 3"
ASSUMPTIONS = ["reference trajectory by spectral quadrature and Newton inversion, no elliptic functions"]

PHASES = [(0, 0, 0, 0), (1.7, 2.3, 4.1, -0.6), (-3.0, 5.5, 0.9, 2.0), (0.0, np.pi, np.pi, 0.0)]


def sane(a, e, x, d):
    return kit.p_of(a, e, x, d) / (1 - e) < 1e4


def tolerances(cell, g, lam, ph):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    fr = tol_freq(a, p, e, x, d)
    lr, lt = g.Ups_r * lam + ph[1], g.Ups_th * lam + ph[2]
    al = np.abs(lam)
    sharp = 1 / np.sqrt(d) if d < 1 else 1.0
    q_r = 10 * fr[0] * (1 + np.abs(lr))
    q_t = 10 * fr[1] * (1 + np.abs(lt))
    turn_r = 3e-15 * kit.near_turn(lr / 2) * (1 + 1 / (1 - e)) * (1 + 1e-2 / d)
    turn_t = 3e-15 * kit.near_turn(lt)
    osc_t = np.sum(np.abs(g.cT[1:])) + 1
    osc_f = np.sum(np.abs(g.cF[1:])) + 1
    tr = (np.sum(np.abs(g.cr["1"][1:])) / g.cr["1"][0] + 1)
    T_t = q_r * osc_t * tr + q_t * 10 + turn_r * osc_t * 3 + turn_t * 3 + 10 * fr[3] * np.abs(g.Gamma) * al + 1e-11
    T_f = q_r * osc_f * tr + (q_t + turn_t) * (3 + 1 / abs(x)) * 3 + turn_r * osc_f * 3 + 10 * fr[2] * np.abs(g.Ups_ph) * al + 1e-12
    T_r = (q_r * tr * 3 * g.half * sharp + 1e-12 * g.rhi) * (1 + 1 / (1 - e))
    T_th = q_t * 3 + 3e-15 / np.abs(x) + 1e-12
    return T_t, T_r, T_th, T_f


def compare(cell, ctx, fns, g, ph, tag=""):
    lam = kit.lam_grid(g.Ups_r, g.Ups_th, ph)
    want = g.state(lam, ph)
    tol = tolerances(cell, g, lam, ph)
    ctx.step(4 * len(lam))
    ctx.state(len(lam))
    ctx.trace()
    for nm, f, w, t in zip(("t", "r", "theta", "phi"), fns, want, tol):
        ctx.close(nm + tag, f(lam), w, t, phases=ph)
    t0, _, _, f0 = [f(0.0) for f in fns]
    ctx.close("t(0), phi(0)" + tag, (t0, f0), (ph[0], ph[3]), 1e-9, phases=ph)


def functions(cell, ctx):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    ctx.outcome((aa == 0, e == 0, abs(x) == 1, xx > 0))
    for ph in PHASES[:2]:
        fns = kit.kg().stable.stable_trajectory(a, p, e, x, ph)
        compare(cell, ctx, fns, g, ph)


def objects(cell, ctx):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    for i, ph in enumerate(PHASES):
        o = kg.StableOrbit(a, p, e, x, initial_phases=ph)
        compare(cell, ctx, o.trajectory(), g, ph)
        w = [float(v[0]) for v in g.state([0.0], ph)]
        tol = [float(np.max(t[:1])) for t in tolerances(cell, g, np.zeros(1), ph)]
        ctx.close("initial position", o.initial_position, w, np.array(tol) + 1e-9)
        ctx.true("initial phases", tuple(o.initial_phases) == tuple(ph))
        # phases given to the method override those of the orbit
        ph2 = PHASES[(i + 1) % len(PHASES)]
        compare(cell, ctx, o.trajectory(initial_phases=ph2), g, ph2, " (phases overridden)")
        ctx.close("position after override", o.initial_position, w, np.array(tol) + 1e-9)


def extreme(cell, ctx):
    """Within 1e-300 of a special case, away from the turning points themselves."""
    a, p, e, x = cell
    g = exact.geodesic(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        ctx.outcome("reference not converged")
        return
    ctx.outcome((a == 0, e == 0, abs(x) == 1))
    ph = PHASES[1]
    lam = np.array([0.0, 0.37, -0.81, 1.3, 2.6, -7.9, 23.4])
    q_r, q_t = g.Ups_r * lam + ph[1], g.Ups_th * lam + ph[2]
    lam = lam[(np.abs(np.sin(q_r)) > 0.05) & (np.abs(np.sin(2 * q_t)) > 0.05)]
    want = g.state(lam, ph)
    ctx.state(len(lam))
    ctx.step(4 * len(lam))
    ctx.trace()
    t, r, th, f = kit.kg().stable.stable_trajectory(a, p, e, x, ph)
    b = (1e-12 * (1 + 1 / (1 - e)) + 5e-15 * p / (1 - e)) * (1 + np.abs(lam) * g.Ups_th)
    hole = 1e-15 / (1 - abs(a)) * (1 + np.abs(lam))
    osc_t = np.sum(np.abs(g.cT[1:])) + 1
    osc_f = np.sum(np.abs(g.cF[1:])) + 1
    ctx.close("r", r(lam) / want[1], np.ones(len(lam)), b * 10 * g.rhi / want[1] + 0 * lam, phases=ph)
    ctx.close("theta", th(lam), want[2], b, phases=ph)
    ctx.close("t", t(lam), want[0], b * (np.abs(g.Gamma * lam) + 10 * osc_t + 1) + hole * 10, phases=ph)
    ctx.close("phi", f(lam), want[3], b * (10 + 10 * osc_f) + hole * 10, phases=ph)


DECADES = [s * 10.0**k for k in range(2, 10) for s in (1, -1)]


def far(cell, ctx):
    """Times so far away that every counter of turns has wrapped that can."""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    ctx.trace()
    for ph in (PHASES[1], tuple(2 * np.pi * 70001 * q for q in (0, 1, -1, 0))):
        fns = kit.kg().stable.stable_trajectory(a, p, e, x, ph)
        lam = np.array(DECADES) * (0.37 if ph is PHASES[1] else 0.83)
        R, TH = g.angles(lam, ph[1], ph[2])
        lam = lam[(np.abs(np.sin(R)) > 0.02) & (np.abs(np.sin(2 * TH)) > 0.02)]
        want = g.state(lam, ph)
        tol = tolerances(cell, g, lam, ph)
        ctx.state(len(lam))
        ctx.step(4 * len(lam))
        for nm, f, w, t in zip(("t", "r", "theta", "phi"), fns, want, tol):
            # an angle of this many turns has rounding of its own
            t = t + 1e-15 * (np.abs(w) + np.abs(lam) * (np.abs(g.Ups_th) + np.abs(g.Ups_r)) * (
                np.max(np.abs(want[1])) if nm == "r" else (np.sum(np.abs(g.cT)) + 1 if nm == "t" else 1 + 1 / abs(x))))
            for l, ww, tt in zip(lam, w, t):
                ctx.close(nm + " far away", f(l), ww, tt, phases=ph, mino_time=l)


GROUPS = {"far": far, "functions": functions, "objects": objects, "extreme": extreme}


def plan(tier):
    k = 2 if tier == "quick" else 3
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3
    near = [c for c in lattice.product((lattice.FAR_A, lattice.FAR_P, lattice.FAR_E, lattice.FAR_X), k)
           if c[2] <= 0.9999 and c[1] / (1 - c[2]) < 1e6] + kit.grazing(1)
    return [("functions", kit.grid4(k, keep=keep)), ("objects", kit.grid4(k - 1, keep=keep)), ("extreme", near),
            ("far", kit.grid4(k - 1, keep=lambda a, e, x, d: keep(a, e, x, d) and d >= 0.02))]
