"""C09: initial phases are positions on the orbit; moving the start along it changes nothing."""
import itertools

import numpy as np

from .. import kit, lattice, ref
from .C08 import sane, tolerances

PROPERTY = "C09"
RULE = ("for every orbit: (a) every sequence of at most D moves out of an alphabet of Mino-time steps, restarting the orbit "
        "after each move from the phases, time and angle reached, must stay on the original trajectory; (b) every pair of "
        "phases on the pi/2 lattice of the torus, with every winding number of the alphabet, must give the documented "
        "position and the same motion as without winding")
BOUNDS = "4 moves, D=2 with k=1 and D=3 with k=0 (quick) / D=3 with k=2 and D=4 with k=1 (thorough); torus 4 x 4 x 4 windings, k=1 / k=2; stable and plunging"
ASSUMPTIONS = ["reference trajectory as in C08 (stable) and C10 (plunging)"]

PH0 = (0.4, 0.9, 2.2, -1.1)


def moves(u1, u2):
    return [PI2 / u1 for PI2 in (np.pi / 2,)] + [np.pi / u2, -1.3 / u1, 5.7 / u2]


def restarts(cell, ctx, depth):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    u = kg.mino_frequencies(a, p, e, x)
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    steps = moves(g.Ups_r, g.Ups_th)
    frontier = [((), 0.0, PH0)]
    for level in range(depth + 1):
        nxt = []
        for path, lam0, ph in frontier:
            fns = kg.stable.stable_trajectory(a, p, e, x, ph)
            want = g.state(lam0 + probe, PH0)
            tol = tolerances(cell, g, abs(lam0) + np.abs(probe) + 1, PH0)
            ctx.state()
            ctx.trace()
            # turning points can be hit after any move, where half of the digits of the inner angle remain
            slack = 1 + len(path)
            for nm, f, w, t in zip(("t", "r", "theta", "phi"), fns, want, tol):
                ctx.step(len(probe))
                s = 1e-7 * (1 + {"t": np.sum(np.abs(g.cT[1:])), "phi": np.sum(np.abs(g.cF[1:])) + 1 / abs(x)}.get(nm, 0))
                ctx.close(nm, f(probe), w, slack * (10 * np.max(t) + s), path=path)
            if level < depth:
                for i, s in enumerate(steps):
                    nxt.append((path + (i,), lam0 + s,
                                (fns[0](s), ph[1] + u[0] * s, ph[2] + u[1] * s, fns[3](s))))
        frontier = nxt


def restarts_quick(cell, ctx):
    restarts(cell, ctx, 3)


def restarts_short(cell, ctx):
    restarts(cell, ctx, 2)


def restarts_deep(cell, ctx):
    restarts(cell, ctx, 4)


WIND = [(0, 0), (1, 0), (0, -1), (-3, 2)]


def torus(cell, ctx):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    o = kg.StableOrbit(a, p, e, x)
    rmin, rmax, th = p / (1 + e), p / (1 - e), float(np.arctan2(abs(xx), np.sqrt(1 - xx * xx)))
    lam = np.array([0.3 / g.Ups_r, -4.4 / g.Ups_th])
    for i, j in itertools.product(range(4), range(4)):
        for wr, wt in WIND:
            ph = (2.5, i * np.pi / 2 + 2 * np.pi * wr, j * np.pi / 2 + 2 * np.pi * wt, -0.7)
            f = o.trajectory(ph)
            ctx.state()
            ctx.trace()
            ctx.step(4)
            if i in (0, 2):
                ctx.close("radial phase 0 is periapsis, pi is apoapsis", f[1](0.0), rmin if i == 0 else rmax,
                          1e-9 * (1 + 1e-3 / d) * rmax / (1 - e), phases=ph)
            ctx.close("polar phase 0 is the northern turning point, then equator, south, equator", f[2](0.0),
                      (th, np.pi / 2, np.pi - th, np.pi / 2)[j], 1e-7 + 1e-9 / abs(x), phases=ph)
            ctx.close("start", (f[0](0.0), f[3](0.0)), (2.5, -0.7), 1e-9 * (1 + rmax), phases=ph)
            base = (2.5, i * np.pi / 2, j * np.pi / 2, -0.7)
            want = g.state(lam, base)
            tol = tolerances(cell, g, lam, ph)
            for nm, fn, w, t in zip(("t", "r", "theta", "phi"), f, want, tol):
                s = 1e-7 * (1 + {"t": np.sum(np.abs(g.cT[1:])), "phi": np.sum(np.abs(g.cF[1:])) + 1 / abs(x)}.get(nm, 0))
                ctx.close(nm, fn(lam), w, t + s, phases=ph)


def turns(cell, ctx):
    """Whole turns of a phase change nothing, however many they are: only rounding, of the phase and inside the elliptic functions, is left."""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    lam = np.array([0.0, 0.3 / g.Ups_r, -4.4 / g.Ups_th])
    base = (2.5, 0.9, 2.2, -0.7)
    want = [f(lam) for f in kg.stable.stable_trajectory(a, p, e, x, base)]
    sharp = 1 / np.sqrt(d) if d < 1 else 1.0
    tr = np.sum(np.abs(g.cr["1"][1:])) / g.cr["1"][0] + 1
    slope = {"t": (np.sum(np.abs(g.cT[1:])) + 1) * tr + 10, "r": tr * 3 * g.half * sharp * (1 + 1 / (1 - e)), "theta": 3.0,
             "phi": (np.sum(np.abs(g.cF[1:])) + 1) * tr + 9 + 3 / abs(x)}
    for nr, nt in ((10 ** 6, 0), (0, -(10 ** 6)), (-3 * 10 ** 7, 7 * 10 ** 6)):
        ph = (2.5, 0.9 + 2 * np.pi * nr, 2.2 + 2 * np.pi * nt, -0.7)
        f = kg.stable.stable_trajectory(a, p, e, x, ph)
        ctx.state()
        ctx.trace()
        ctx.step(4)
        rounding = 1e-12 * (abs(nr) + abs(nt) + 1)
        for nm, fn, w in zip(("t", "r", "theta", "phi"), f, want):
            ctx.close(nm + " after whole turns", fn(lam), w, rounding * slope[nm] + 1e-12 * (1 + np.abs(w)), phases=ph)


def shifts(cell, ctx):
    """Each phase only moves its own coordinate; t and phi phases are offsets."""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    kg = kit.kg()
    lam = np.array([0.0, 0.7, -1.9, 12.0])
    base = [f(lam) for f in kg.stable.stable_trajectory(a, p, e, x, (0, 1.0, 2.0, 0))]
    for dt, dr, dth, df in itertools.product((0, 7.5), (0, 1), (0, 1), (0, -4.0)):
        f = kg.stable.stable_trajectory(a, p, e, x, (dt, 1.0 + dr, 2.0 + dth, df))
        got = [q(lam) for q in f]
        ctx.state()
        ctx.trace()
        ctx.step(4)
        if not dr:
            ctx.close("r depends on its own phase only", got[1], base[1], 1e-12 * np.abs(base[1]))
        if not dth:
            ctx.close("theta depends on its own phase only", got[2], base[2], 1e-12)
        if not dr and not dth:
            ctx.close("t offset", got[0], base[0] + dt, 1e-12 * (np.abs(base[0]) + 10))
            ctx.close("phi offset", got[3], base[3] + df, 1e-12 * (np.abs(base[3]) + 10))


def plunge_restarts(cell, ctx):
    C = cell if len(cell) == 4 and abs(cell[3]) >= 0 and cell[0] != "s" else None
    if cell[0] == "s":
        C = (cell[1], *kit.deep_constants(*cell[1:]))
    a, E, L, Q = C
    g = kit.plunge_geo(a, E, L, Q)
    if g is None or not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    o = kg.PlungingOrbit(a, E, L, Q)
    ctx.outcome(g.kind)
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    steps = [1.1 / g.Ups_r, np.pi / g.Ups_th, -1.3 / g.Ups_r, 5.7 / g.Ups_th]
    frontier = [((), 0.0, PH0)]
    for level in range(3):
        nxt = []
        for path, lam0, ph in frontier:
            fns = o.trajectory(ph)
            want = g.state(lam0 + probe, PH0)
            ctx.state()
            ctx.trace()
            tl = 1e-6 * (1 + len(path)) * (1 + abs(E) / (1 - E * E))
            for nm, f, w in zip(("t", "r", "theta", "phi"), fns, want):
                ctx.step(len(probe))
                ctx.close(nm + " (plunge)", f(probe), w, tl * (1 + np.max(np.abs(w)) + (1 / L**2 if nm == "phi" else 0)), path=path)
            if level < 2:
                for i, s in enumerate(steps):
                    nxt.append((path + (i,), lam0 + s,
                                (fns[0](s), ph[1] + o.upsilon_r * s, ph[2] + o.upsilon_theta * s, fns[3](s))))
        frontier = nxt


GROUPS = {"restarts": restarts_quick, "restarts (short)": restarts_short, "restarts (deep)": restarts_deep, "torus": torus, "turns": turns, "offsets": shifts,
          "plunges": plunge_restarts}


def plan(tier):
    q = tier == "quick"
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 0.02 and e < 0.98 and abs(x) >= 0.01
    out = [
        ("restarts (short)", kit.grid4(1 if q else 2, keep=keep)),
        ("restarts", kit.grid4(0 if q else 2, keep=keep)),
        ("torus", kit.grid4(1 if q else 2, keep=keep)),
        ("turns", kit.grid4(1 if q else 2, keep=keep)),
        ("offsets", kit.grid4(1 if q else 2, keep=keep)),
        ("plunges", kit.plunges(1 if q else 2) + [("s",) + c for c in kit.deep_plunges(1 if q else 2)]),
    ]
    if not q:
        out.append(("restarts (deep)", kit.grid4(1, keep=keep)))
    return out
