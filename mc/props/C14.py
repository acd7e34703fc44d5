"""C14: the trajectory deltas split every trajectory into its radial and polar parts."""
import numpy as np

from .. import kit, ref
from . import C10, C12
from .C08 import sane, tolerances

PROPERTY = "C14"
RULE = ("every cell of the stable and plunge alphabets with at most k boundary-layer coordinates, through every class that "
        "offers trajectory deltas, with the phases of the orbit and with overriding phases: deltas plus the secular term "
        "rebuild t and phi of the orbit's own trajectory at every time of the grid; each delta agrees with the reference "
        "quadrature over the whole period; deltas of motion between turning points outside the horizons are periodic")
BOUNDS = "k=1 in quick, k=2 in thorough; 2 phase tuples each, overridden by each other and by vanishing ones"
ASSUMPTIONS = ["for plunges a term proportional to Mino time may sit in either delta (the documentation does not say which), "
               "so only the sum of the linear terms is compared there"]

PHASES = [(1.7, 2.3, 4.1, -0.6), (0.0, 5.5, 0.9, 2.0)]
# overriding phases that vanish are phases too
ZERO = ((0.0, 0.0, 0.0, 0.0), (0, 0.0, 1.1, 0))


def rebuild(ctx, o, ph, over, secular, ur, ut, lam, scale, tag):
    """t = t0 + Gamma lam + [delta(q) - delta(0)]"""
    kw = {"initial_phases": over} if over is not None else {}
    tr, tt, fr, ft = o.trajectory_deltas(**kw)
    t, r, th, f = o.trajectory(**kw)
    ctx.step(8)
    qr, qt = ur * lam, ut * lam
    zero = 0 * lam
    gt = ph[0] + secular[0] * lam + tr(qr) - tr(zero) + tt(qt) - tt(zero)
    gf = ph[3] + secular[1] * lam + fr(qr) - fr(zero) + ft(qt) - ft(zero)
    ctx.close("t rebuilt" + tag, gt, t(lam), scale[0], phases=ph)
    ctx.close("phi rebuilt" + tag, gf, f(lam), scale[1], phases=ph)
    return tr, tt, fr, ft


def q_grid():
    return np.array([0.0, 0.3, np.pi / 2, 2.0, np.pi, 4.4, 3 * np.pi / 2, 6.0, -1.0, -3.5, 9.1, 2 * np.pi, -20.3])


def stable(cell, ctx):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    lam = np.concatenate([np.array([0.0, 0.4, -1.3, 6.0]), np.array([1, 2, 3, -5]) * np.pi / 2 / g.Ups_r])
    q = q_grid()
    for i, ph in enumerate(PHASES):
        o = kg.StableOrbit(a, p, e, x, initial_phases=ph)
        ctx.state(len(lam) + len(q))
        ctx.trace()
        for over in (None, PHASES[1 - i]) + (ZERO if i == 0 else ()):
            ph_ = ph if over is None else over
            T = tolerances(cell, g, lam, ph_)
            big_t, big_f = 1e-11 * (1 + np.abs(g.Gamma * lam) + np.sum(np.abs(g.cT))), 1e-11 * (1 + np.abs(g.Ups_ph * lam) + 1 / abs(x))
            tr, tt, fr, ft = rebuild(ctx, o, ph_, over, (o.gamma, o.upsilon_phi), o.upsilon_r, o.upsilon_theta, lam,
                                     (3 * T[0] + big_t, 3 * T[3] + big_f), "" if over is None else " (phases overridden)")
            _, qr0, qt0, _ = ph_
            Tr, Tth = tolerances(cell, g, (q / g.Ups_r), ph_), tolerances(cell, g, (q / g.Ups_th), ph_)
            ctx.close("t_r", tr(q) - tr(0.0), g.t_r(q + qr0) - g.t_r(np.array([qr0])), 3 * Tr[0] + 1e-10 * np.sum(np.abs(g.cT[1:])), phases=ph_)
            ctx.close("phi_r", fr(q) - fr(0.0), g.phi_r(q + qr0) - g.phi_r(np.array([qr0])), 3 * Tr[3] + 1e-10, phases=ph_)
            ctx.close("t_theta", tt(q) - tt(0.0), g.t_th(q + qt0) - g.t_th(np.array([qt0])), 3 * Tth[0] + 1e-10, phases=ph_)
            ctx.close("phi_theta", ft(q) - ft(0.0), g.phi_th(q + qt0) - g.phi_th(np.array([qt0])), 3 * Tth[3] + 1e-10 / abs(x), phases=ph_)
            for nm, fn, t in (("t_r", tr, Tr[0] + 1e-10 * np.sum(np.abs(g.cT))), ("phi_r", fr, Tr[3] + 1e-10), ("t_theta", tt, Tth[0] + 1e-10), ("phi_theta", ft, Tth[3] + 1e-10 / abs(x))):
                ctx.close(nm + " is periodic", fn(q + 2 * np.pi) - fn(q), 0 * q, 6 * t, phases=ph_)
        # the same through initial conditions
        if np.copysign(1, a) > 0 and d >= 0.02 and 0.01 <= e < 0.98 and abs(x) >= 0.01 and i == 0:
            pos, vel = C12.event(g, 0.0, ph)
            if not C12.snapped(g, pos[1], pos[2]):
                r = kg.Orbit(a, pos, vel)
                ctx.step()
                T = C12.stable_tol(cell, g, lam, ph)
                for over in (None, PHASES[1]) + ZERO:
                    rebuild(ctx, r, ph if over is None else over, over, (r.gamma, r.upsilon_phi), r.upsilon_r, r.upsilon_theta, lam,
                            (T[0] + big_t, T[3] + big_f), " (from initial conditions)")


def linear(ctx, name, q, D, tol, ph):
    """D must be proportional to q"""
    k = int(np.argmax(np.abs(q)))
    c = D[k] / q[k]
    ctx.close(name + " up to a secular term", D - c * q, 0 * q, tol * (1 + np.abs(q / q[k])) + 0 * q, phases=ph)
    return c


def plunging(cell, ctx):
    C, g = C10.geo(cell)
    if g is None:
        return
    kg = kit.kg()
    a, E, L, Q = C
    ctx.outcome((g.kind, L > 0, Q == 0))
    real = g.kind != "two complex roots"
    lam = np.concatenate([np.array([0.0, 0.4, -1.3, 6.0]), np.array([1, 2, 3, -5]) * np.pi / 2 / g.Ups_r])
    q = q_grid()
    for i, ph in enumerate(PHASES):
        orbits = [("", kg.PlungingOrbit(*C, initial_phases=ph))]
        if i == 0 and a > 1e-4:
            pos, vel = C12.event(g, 0.0, ph)
            near = min(abs(pos[1] - g.rm), abs(pos[1] - g.rp)) / g.sep
            if near > 0.05 and pos[1] > 0.1 and abs(np.sin(pos[2])) > 0.1 and not C12.snapped(g, pos[1], pos[2]):
                orbits.append((" (from initial conditions)", kg.Orbit(a, pos, vel)))
        for tag, o in orbits:
            for over in (None, PHASES[1 - i]) + (ZERO if i == 0 else ()):
                ph_ = ph if over is None else over
                ctx.state(len(lam) + len(q))
                ctx.trace()
                w, T = C10.tolerances(C, g, lam, ph_)
                soft = 1.0 if tag == "" else 1e4
                if real:
                    sec = (g.Gamma, g.Ups_ph)
                else:
                    sec = (0.0, 0.0)
                T = [soft * t for t in T]
                tr, tt, fr, ft = rebuild(ctx, o, ph_ if tag == "" or over is not None else o.initial_phases, over, sec, o.upsilon_r,
                                         o.upsilon_theta, lam, (3 * T[0] + 1e-9 * np.abs(g.Gamma * lam) * soft, 3 * T[3] + 1e-9 * np.abs(g.Ups_ph * lam) * soft), tag)
                if tag:
                    continue
                _, qr0, qt0, _ = ph_
                _, Tr = C10.tolerances(C, g, q / g.Ups_r, ph_)
                _, Tth = C10.tolerances(C, g, q / g.Ups_th, ph_)
                # no horizon is crossed by the polar motion
                s = 1e-9 * (1 + 1 / L**2) * C10.scales(g) / 1e-12 * 1e-1
                c = [linear(ctx, "t_r", q, tr(q) - tr(0.0) - g.t_r(q + qr0) + g.t_r(np.array([qr0])), 5 * np.max(Tr[0]), ph_),
                     linear(ctx, "phi_r", q, fr(q) - fr(0.0) - g.phi_r(q + qr0) + g.phi_r(np.array([qr0])), 5 * np.max(Tr[3]), ph_),
                     linear(ctx, "t_theta", q, tt(q) - tt(0.0) - g.t_th(q + qt0) + g.t_th(np.array([qt0])), 5 * s, ph_),
                     linear(ctx, "phi_theta", q, ft(q) - ft(0.0) - g.phi_th(q + qt0) + g.phi_th(np.array([qt0])), 5 * s, ph_)]
                want = (0.0, 0.0) if real else (g.Gamma, g.Ups_ph)
                got = (c[0] * g.Ups_r + c[2] * g.Ups_th, c[1] * g.Ups_r + c[3] * g.Ups_th)
                ctx.close("secular terms", got, want, 10 * np.array([np.max(Tr[0]) * g.Ups_r + s * g.Ups_th, np.max(Tr[3]) * g.Ups_r + s * g.Ups_th]), phases=ph_)


GROUPS = {"stable": stable, "plunging": plunging}


def plan(tier):
    q = tier == "quick"
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3 and e < 0.98
    return [("stable", kit.grid4(1 if q else 2, keep=keep)), ("plunging", C10.cells(1 if q else 2))]
