"""C10: plunging trajectories and frequencies solve the geodesic equations."""
import numpy as np

from .. import kit, ref

PROPERTY = "C10"
RULE = ("every cell of the plunge alphabet (a, E, L, Q) with at most k boundary-layer coordinates, plus every cell of the "
        "stable alphabet whose constants also admit a plunge, plus the constants at and next to which the closed form solution divides by zero or its principal values degenerate (in the latter case leaving out points within 1e-4 of a horizon), times an alphabet of initial phases, times 20 Mino times of "
        "both signs including every exact turning point and equator crossing; frequencies, positions and all four "
        "coordinates are compared with direct (principal value) quadrature of the separated geodesic equations")
BOUNDS = "k=2 with 2 phase tuples (quick) / k=4, the full grid, with 4 phase tuples (thorough); objects k=1 / k=3; Mino times to 1e8 with k=1 / k=3"
ASSUMPTIONS = ["reference trajectory by spectral quadrature; the documented convention is that t and phi are continued "
               "through both horizons by the principal value",
               "constants within 1e-3 of a double radial root (the boundary between kinds of motion) and turning points on a horizon to 1e-14 are left out"]

PHASES = [(0, 0, 0, 0), (1.7, 2.3, 4.1, -0.6), (-3.0, 5.5, 0.9, 2.0), (0.0, np.pi, np.pi, 0.0)]


def geo(cell):
    C = (cell[1], *kit.deep_constants(*cell[1:])) if cell[0] == "s" else cell[1:] if cell[0] == "c" else cell
    g = kit.plunge_geo(*C)
    if g is None or not (g.rad_ok and g.pol_ok):
        return C, None
    return C, g


def scales(g):
    """Rounding of the constants is amplified by 1/(1-E^2), close roots, small |L|."""
    k = 1 / g.k
    gap = max(g.gap, 1e-3)
    return 1e-12 * (1 + k) / gap


def tolerances(C, g, lam, ph):
    a, E, L, Q = C
    s = scales(g)
    # closeness to the axis amplifies rounding errors in theta and phi
    axis = kit.near_axis(*C)
    iL, iL2 = 1 / max(abs(L), axis**0.5), 1 / max(L * L, axis)
    al = np.abs(lam)
    qr, qt = g.Ups_r * lam + ph[1], g.Ups_th * lam + ph[2]
    w = g.state(lam, ph)
    # near a horizon t and phi grow like the logarithm of the distance
    r = w[1]
    D = np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) / g.sep
    r0 = float(g.r(np.array([ph[1] + 0.0]))[0])
    D0 = min(abs(r0 - g.rp), abs(r0 - g.rm)) / g.sep
    log = s * (1 / np.maximum(D, 1e-12) + 1 / max(D0, 1e-12)) * (g.rhi - g.rlo) / g.sep
    osc_t, osc_f = np.sum(np.abs(g.cT)) / abs(g.cr["1"][0]) * 0 + 1 + abs(g.Ap) + abs(g.Am), 1 + abs(g.Fp) + abs(g.Fm)
    turn_t = 3e-15 * kit.near_turn(qt)
    turn_r = 3e-15 * kit.near_turn(qr / 2)
    T_t = 5 * s * (1 + np.abs(w[0]) + (np.abs(g.Gamma) + g.rhi**3) * (1 + al)) + osc_t * log + (turn_t + turn_r) * (1 + g.rhi**3) + 1e-7 * (E == 0) * (1 + al)
    T_f = s * (1 + np.abs(w[3]) + (np.abs(g.Ups_ph) + iL + 1) * (1 + al)) * (1 + iL2) + osc_f * log + (
        turn_t * (1 + iL2) + turn_r * 10)
    T_r = s * (1 + np.abs(qr)) * g.rhi * 10
    T_th = s * (1 + np.abs(qt)) * 10 + 1e-12 * iL
    return w, (T_t, T_r, T_th, T_f)


def compare(C, ctx, fns, g, ph, tag="", near=0.0):
    lam = kit.lam_grid(g.Ups_r, g.Ups_th, ph)
    # t and phi are undefined on a horizon, where some constants put the particle
    # at a quarter of the radial period
    if near:
        r = g.state(lam, ph)[1]
        lam = lam[np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) > near * g.sep]
    w, tol = tolerances(C, g, lam, ph)
    ctx.step(4 * len(lam))
    ctx.state(len(lam))
    ctx.trace()
    for nm, f, u, t in zip(("t", "r", "theta", "phi"), fns, w, tol):
        ctx.close(nm + tag, f(lam), u, t, phases=ph)
    ctx.close("t(0), phi(0)" + tag, (fns[0](0.0), fns[3](0.0)), (ph[0], ph[3]), 1e-9, phases=ph)


def run(cell, ctx, phases):
    C, g = geo(cell)
    if g is None:
        return
    a, E, L, Q = C
    ctx.outcome((g.kind, L > 0, Q == 0))
    kg = kit.kg()
    s = scales(g)
    ctx.close("frequencies", kg.plunging_mino_frequencies(a, E, L, Q), (g.Ups_r, g.Ups_th),
              10 * s * np.array([g.Ups_r, g.Ups_th]))
    rr = kg.plunging_radial_roots(a, E, L, Q)
    ctx.close("turning points", sorted((np.real(rr[0]), np.real(rr[1]))), sorted((g.rlo, g.rhi)), 10 * s * (1 + g.rhi))
    from kerrgeopy.plunge import plunging_trajectory
    for ph in phases:
        compare(C, ctx, plunging_trajectory(a, E, L, Q, ph), g, ph, near=1e-4 if cell[0] == "c" else 0.0)


def functions(cell, ctx):
    run(cell, ctx, PHASES[:2])


def functions_deep(cell, ctx):
    run(cell, ctx, PHASES)


def objects(cell, ctx):
    C, g = geo(cell)
    if g is None:
        return
    kg = kit.kg()
    s = scales(g)
    for i, ph in enumerate(PHASES[:3]):
        o = kg.PlungingOrbit(*C, initial_phases=ph)
        ctx.close("frequency attributes", (o.upsilon_r, o.upsilon_theta), (g.Ups_r, g.Ups_th),
                  10 * s * np.array([g.Ups_r, g.Ups_th]))
        ctx.true("not stable", o.stable is False)
        ctx.true("constants", tuple(o.constants_of_motion()) == tuple(C[1:]) and (o.E, o.L, o.Q) == tuple(C[1:]) and o.a == C[0])
        compare(C, ctx, o.trajectory(), g, ph)
        w, tol = tolerances(C, g, np.zeros(1), ph)
        ctx.close("initial position", o.initial_position, [v[0] for v in w], [np.max(t) + 1e-12 for t in tol])
        ctx.true("initial phases", tuple(o.initial_phases) == tuple(ph))
        for over in (PHASES[i + 1], (0.0, 0.0, 0.0, 0.0))[:2 if i == 1 else 1]:
            compare(C, ctx, o.trajectory(initial_phases=over), g, over, " (phases overridden)")


DECADES = [s * 10.0**k for k in range(2, 9) for s in (1, -1)]


def far(cell, ctx):
    """Times so far away that every counter of turns has wrapped that can."""
    C, g = geo(cell)
    if g is None:
        return
    ctx.trace()
    ctx.outcome((g.kind, C[2] > 0, C[3] == 0))
    from kerrgeopy.plunge import plunging_trajectory
    iL = 1 / max(abs(C[2]), kit.near_axis(*C)**0.5)
    for ph in (PHASES[1], tuple(2 * np.pi * 70001 * q for q in (0, 1, -1, 0))):
        fns = plunging_trajectory(*C, ph)
        lam = np.array(DECADES) * (0.37 if ph is PHASES[1] else 0.83)
        R, TH = g.angles(lam, ph[1], ph[2])
        lam = lam[(np.abs(np.sin(R)) > 0.02) & (np.abs(np.sin(2 * TH)) > 0.02)]
        # the start may itself be many turns away
        want, tol = tolerances(C, g, lam, ph)
        much = np.abs(lam) + (abs(ph[1]) / g.Ups_r + abs(ph[2]) / g.Ups_th)
        ctx.state(len(lam))
        ctx.step(4 * len(lam))
        turns = much * (g.Ups_r + g.Ups_th)
        tol = list(tol)
        tol[0] = tol[0] + 5 * scales(g) * (np.abs(g.Gamma) + g.rhi**3) * much + 1e-7 * (C[1] == 0) * much
        tol[3] = tol[3] + scales(g) * (np.abs(g.Ups_ph) + iL + 1) * much * (1 + iL**2)
        for nm, f, w, t, size in zip(("t", "r", "theta", "phi"), fns, want, tol, (1 + g.rhi**3, g.rhi, 1, 1 + iL)):
            for l, ww, tt in zip(lam, w, t + 1e-15 * (np.abs(w) + turns * size)):
                ctx.close(nm + " far away", f(l), ww, tt, phases=ph, mino_time=l)


GROUPS = {"far": far, "functions": functions, "functions (deep)": functions_deep, "objects": objects}


def cells(k):
    return kit.plunges(k) + [("s",) + c for c in kit.deep_plunges(min(k, 4))]


def plan(tier):
    if tier == "quick":
        return [("functions", cells(2) + kit.balanced(1) + [("c",) + c for c in kit.critical(1)]), ("objects", cells(1)), ("far", cells(1))]
    return [("functions (deep)", cells(4) + kit.balanced(1) + [("c",) + c for c in kit.critical(1)]), ("objects", cells(3)), ("far", cells(3))]
