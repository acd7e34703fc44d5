"""C11: the four-velocity of every orbit is the unit tangent of its own trajectory."""
import numpy as np

from .. import kit, ref
from . import C10
from .C06 import tol_freq
from .C08 import sane

PROPERTY = "C11"
RULE = ("every cell of the stable and plunge alphabets with at most k boundary-layer coordinates, times an alphabet of "
        "initial phases, times Mino times of both signs including every exact turning point and equator crossing: the four "
        "components (analytic, numerical and initial) are compared with the reference velocity, their norm with -1, and "
        "the signs with the sense of the motion")
BOUNDS = "k=1 with 3 phase tuples, k=2 with 1 (quick) / k=2 and k=3 (thorough)"
ASSUMPTIONS = ["reference velocity evaluated from the reference turning points, so no sign has to be guessed"]

PHASES = [(1.7, 2.3, 4.1, -0.6), (0, 0, 0, 0), (-3.0, 5.5, 0.9, 2.0)]


def wanted(g, lam, ph, dq, s):
    """velocity and tolerance: its change under a small shift of the phases, plus rounding of the polynomials."""
    qr, qt = g.Ups_r * np.atleast_1d(lam) + ph[1], g.Ups_th * np.atleast_1d(lam) + ph[2]
    psi, chi = g.psi(qr), g.chi(qt)
    w = np.array(g.velocity_at(psi, chi))
    t = 20 * np.abs(np.array(g.velocity_at(g.psi(qr + dq), chi)) - w)
    t += 20 * np.abs(np.array(g.velocity_at(psi, g.chi(qt + dq))) - w)
    r, th = g._r_of(psi), g.theta(qt)
    a = g.a
    Sig = r * r + a * a * np.cos(th) ** 2
    D = np.abs((r - g.rp) * (r - g.rm))
    st2 = np.sin(th) ** 2
    # R and Z are differences of large numbers under a square root
    scale_R = (g.E * (r * r + a * a)) ** 2 + (a * g.L) ** 2 + (D + 2 * r) * (r * r + (a * g.E - g.L) ** 2 + g.Q)
    scale_Z = g.Q + g.L**2 + 1
    for i, sc in ((1, s * scale_R / Sig**2), (2, s * scale_Z / (Sig**2 * st2))):
        t[i] += 3 * np.minimum(np.sqrt(sc), sc / np.maximum(np.abs(w[i]), 1e-300)) + 1e-12
    H = (r * r + a * a) * (abs(g.E) * (r * r + a * a) + abs(a * g.L))
    t[0] += s * (H / D + 1 + abs(a * g.L)) / Sig * (1 + (r * r + a * a) / D)
    t[3] += s * (abs(a) * H / (r * r + a * a) / D * (1 + (r * r + a * a) / D) + abs(g.L) / st2 * (1 + 1 / st2) + 1) / Sig
    return w, t, r, th, Sig


def judge(ctx, kg, o, g, ph, dq, s, tag="", override=None, numerical=True, mild=False):
    lam = kit.lam_grid(g.Ups_r, g.Ups_th, ph)
    w, tol, r, th, Sig = wanted(g, lam, ph, dq * (1 + np.max(np.abs(lam)) * max(g.Ups_r, g.Ups_th)), s)
    u = o.four_velocity(**({} if override is None else {"initial_phases": override}))
    got = np.array([np.broadcast_to(f(lam), lam.shape) for f in u])
    # the ring singularity is reached by equatorial plunges; exactly on a horizon t and phi diverge, on the axis phi
    ok = (Sig > 1e-8) & (np.sin(th) > 1e-6) & (np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) > 1e-6 * g.sep)
    ctx.step(4 * len(lam))
    ctx.state(len(lam))
    ctx.trace()
    for i, nm in enumerate(("u^t", "u^r", "u^theta", "u^phi")):
        ctx.close(nm + tag, got[i][ok], w[i][ok], tol[i][ok], phases=ph)
    # norm along the library's own trajectory
    x = [f(lam) for f in o.trajectory(**({} if override is None else {"initial_phases": override}))]
    K = kg.KerrSpacetime(o.a)
    for j in range(len(lam)):
        if not ok[j]:
            continue
        G = np.asarray(K.metric(x[0][j], x[1][j], x[2][j], x[3][j]), float)
        size = float(np.abs(got[:, j]) @ np.abs(G) @ np.abs(got[:, j]))
        slop = float(2 * np.abs(got[:, j]) @ np.abs(G) @ tol[:, j])
        ctx.step()
        ctx.close("norm" + tag, K.norm(x[0][j], x[1][j], x[2][j], x[3][j], got[:, j]), -1.0,
                  1e-10 * (1 + size) + slop, phases=ph, at=j)
    if not numerical:
        return
    for dx in (1e-6, 1e-4 / (1 + g.Ups_r + g.Ups_th)) + ((0.01 / (g.Ups_r + g.Ups_th),) if mild else ()):
        v = o.numerical_four_velocity(dx=dx, **({} if override is None else {"initial_phases": override}))
        # rounding of t / dx, of the angle near a pole, and truncation h^4 near a horizon
        near = np.minimum(np.abs(r - g.rp), np.abs(r - g.rm))
        far = near > 300 * dx * np.abs(w[1]) * Sig + 1e-3 * g.sep
        # inverse trigonometric functions keep half the digits at the turning points
        quarter = np.minimum(np.abs(np.sin(2 * (g.Ups_r * lam + ph[1]))), np.abs(np.sin(2 * (g.Ups_th * lam + ph[2]))))
        k = ok & far & (np.abs(np.sin(th)) > 0.02) & (quarter > 0.02)
        noise = [np.abs(x[0]) + g.rhi**2 + 1, np.abs(x[1]) + 1, 1 / np.abs(np.sin(th)), np.abs(x[3]) + 10 / np.abs(np.sin(th))]
        for i, nm in enumerate(("u^t", "u^r", "u^theta", "u^phi")):
            n = np.broadcast_to(v[i](lam), lam.shape)
            t = tol[i] + 3e-13 / dx * (noise[i] + 0 * lam) / Sig * (1 + 100 * s / 1e-13) + 1e-5 * (np.abs(w[i]) + 1e-3)
            ctx.step(5 * len(lam))
            if k.any():
                ctx.close("numerical " + nm + tag, n[k], w[i][k], t[k], phases=ph, dx=dx)


def run_stable(cell, ctx, phases, numerical=True):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    fr = max(tol_freq(a, p, e, x, d)[:2])
    s = 1e-13 * kit.cond(p, e, d)[1]
    for i, ph in enumerate(phases):
        o = kg.StableOrbit(a, p, e, x, initial_phases=ph)
        mild = e <= 0.5 and d >= 0.5 and abs(x) >= 0.3
        judge(ctx, kg, o, g, ph, 30 * fr, s, numerical=numerical and i == 0, mild=mild)
        w, tol, *_ = wanted(g, np.zeros(1), ph, 30 * fr, s)
        ctx.close("initial velocity", o.initial_velocity, w[:, 0], tol[:, 0], phases=ph)
        if len(phases) > 1:
            other = phases[(i + 1) % len(phases)]
            judge(ctx, kg, o, g, other, 30 * fr, s, " (phases overridden)", override=other, numerical=numerical and i == 0, mild=mild)


def run_plunge(cell, ctx, phases, numerical=True):
    C, g = C10.geo(cell)
    if g is None:
        return
    kg = kit.kg()
    s = 5 * C10.scales(g)
    ctx.outcome((g.kind, C[2] > 0, C[3] == 0))
    for i, ph in enumerate(phases):
        o = kg.PlungingOrbit(*C, initial_phases=ph)
        judge(ctx, kg, o, g, ph, 10 * s, s, numerical=numerical and i == 0)
        w, tol, _, th0, _ = wanted(g, np.zeros(1), ph, 10 * s, s)
        r0 = float(g.r(np.array([float(ph[1])]))[0])
        if min(abs(r0 - g.rp), abs(r0 - g.rm)) > 1e-6 * g.sep and r0 > 1e-4 and np.sin(th0[0]) > 1e-6:
            ctx.close("initial velocity", o.initial_velocity, w[:, 0], tol[:, 0], phases=ph)
        if len(phases) > 1:
            other = phases[(i + 1) % len(phases)]
            judge(ctx, kg, o, g, other, 10 * s, s, " (phases overridden)", override=other, numerical=numerical and i == 0)


def stable1(c, ctx):
    run_stable(c, ctx, PHASES)


def stable2(c, ctx):
    run_stable(c, ctx, PHASES[:1], numerical=False)


def plunge1(c, ctx):
    run_plunge(c, ctx, PHASES)


def plunge2(c, ctx):
    run_plunge(c, ctx, PHASES[:1], numerical=False)


GROUPS = {"stable, all phases": stable1, "stable": stable2, "plunging, all phases": plunge1, "plunging": plunge2}


def plan(tier):
    k = 1 if tier == "quick" else 2
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3 and e < 0.98
    pl = [c for c in C10.cells(k + 1) if c[0] == "s" or abs(c[0]) >= 1e-3]
    return [("stable, all phases", kit.grid4(k, keep=keep)),
            ("stable", kit.grid4(k + 1, keep=keep)),
            ("plunging, all phases", C10.cells(k)),
            ("plunging", pl)]
