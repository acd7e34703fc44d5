"""C12: an orbit rebuilt from any event and four-velocity on it is the same orbit."""
import itertools

import numpy as np

from .. import kit, ref
from . import C10
from .C08 import sane, tolerances

PROPERTY = "C12"
RULE = ("for every orbit of the stable and plunge alphabets with at most k boundary-layer coordinates, every point of a "
        "lattice on its phase torus (both turning points of both motions, equator crossings in both directions, inbound and "
        "outbound points, points inside the horizons) is used as initial condition, with position and velocity taken from "
        "the reference geodesic; constants, kind of orbit, orbital parameters, phases and the whole motion must come back. "
        "Chains re-anchor the rebuilt orbit again after each move. Optional arguments: every subset.")
BOUNDS = "9 (quick) / 24 (thorough) points per stable orbit, 16 per plunge, k=1 / 2; chains of depth 2 with 2 moves, 3 with 3; all subsets of optional arguments"
ASSUMPTIONS = ["reference events and velocities (C08, C10, C11)",
               "events within the documented turning point tolerance (1e-4) of a turning point, but not on it, are left out"]

PI = np.pi
# initial times and azimuths, cycled through the points of the phase torus
START = ((2.5, -0.7), (-1e3, 9.0), (0.0, 0.0), (1e4, -20.0), (-3.0, 3.5))
QR = (0.0, 1.3, PI, 4.9)
QT = (0.0, 0.8, PI / 2, PI, 3.9, 3 * PI / 2)


def event(g, lam, ph):
    x = [float(v[0]) for v in g.state(np.array([lam]), ph)]
    u = [float(v[0]) for v in g.velocity(np.array([lam]), ph)]
    return tuple(x), tuple(u)


def snapped(g, r, th):
    """distance to turning points, excluding exact hits"""
    bad = False
    for v in (abs(r - g.rlo), abs(r - g.rhi)):
        bad |= 1e-9 * (1 + r) < v < 3e-4
    tm = float(np.arctan2(np.sqrt(g.omz), np.sqrt(g.zm)))
    for v in (abs(th - tm), abs(th - (PI - tm))):
        bad |= 1e-7 < v < 3e-4
    return bad


def stable_tol(cell, g, lam, ph):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    kL = kit.cond(p, e, d)[1]
    base = tolerances(cell, g, lam, ph)
    s = 3e-11 * kL * (1 + 1 / d)
    al = 1 + np.abs(lam) * max(g.Ups_r, g.Ups_th)
    osc_t = np.sum(np.abs(g.cT[1:])) + g.rhi**2
    osc_f = np.sum(np.abs(g.cF[1:])) + 1 / abs(x)
    # a turning point hit only to rounding loses half of the digits of the phase
    turn = 3e-7
    # and the polar angle of the event is rounded
    pol = 1e-14 / abs(x)
    return (10 * base[0] + s * (osc_t + abs(g.Gamma) * np.abs(lam)) * al + turn * np.sum(np.abs(g.cT[1:])) + turn * abs(g.Tt_mean / g.Ups_th),
            10 * base[1] + s * g.rhi * al + turn * g.half,
            10 * base[2] + s * al + turn + pol,
            10 * base[3] + s * (osc_f + abs(g.Ups_ph) * np.abs(lam)) * al + (turn + pol) * osc_f)


def check_orbit(ctx, o, g, kind, at, probe, ph, lam0, tol, tag):
    f = o.trajectory()
    w = g.state(lam0 + probe, ph)
    ctx.step(4 * len(probe))
    for nm, fn, v, t in zip(("t", "r", "theta", "phi"), f, w, (tol[0] + 1e-14 * abs(ph[0]),) + tuple(tol[1:])):
        ctx.close(nm + tag, np.broadcast_to(fn(probe), probe.shape), v, t, at=at)


def stable(cell, ctx, full=True):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    g = kit.stable_geo(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    kE, kL = kit.cond(p, e, d)
    cs = 1e-10 * kL * np.array([1, 1 + abs(g.L), 1 + g.L**2 + g.Q])
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    points = list(itertools.product(QR, QT))
    for i, (qr, qt) in enumerate(points[:: 1 if full else 5] + ([] if full else points[3:-1:5])):
        t0, f0 = START[i % len(START)]
        ph = (t0, qr, qt, f0)
        pos, vel = event(g, 0.0, ph)
        if snapped(g, pos[1], pos[2]):
            continue
        ctx.state()
        ctx.trace()
        ctx.step(2)
        ctx.close("constants", kg.constants_from_initial_conditions(a, pos, vel), (g.E, g.L, g.Q), cs, at=ph)
        ctx.true("recognised as stable", bool(kg.initial_conditions.is_stable(a, pos, vel)), at=ph)
        o = kg.Orbit(a, pos, vel)
        if not ctx.true("stable orbit", o.stable is True or bool(o.stable) is True, at=ph):
            continue
        ctx.true("inputs kept", tuple(o.initial_position) == pos and tuple(o.initial_velocity) == vel and o.a == a, at=ph)
        ctx.close("constants of the orbit", (o.E, o.L, o.Q), (g.E, g.L, g.Q), cs, at=ph)
        ctx.close("p", o.p, p, 1e-9 * p * kL * (1 + 1 / d), at=ph)
        ctx.close("e, x", (o.e, o.x), (e, x), 1e-9 * kL * (1 + 1 / d) * np.array([1 / e, 1]), at=ph)
        q = o.initial_phases
        ctx.close("phases t, phi", (q[0], q[3]), (ph[0], ph[3]), 1e-12 * (1 + abs(ph[0])), at=ph)
        for nm, got, want in (("radial phase", q[1], qr), ("polar phase", q[2], qt)):
            if nm == "polar phase" and abs(x) == 1:
                continue
            dq = float(np.angle(np.exp(1j * (got - want))))
            ctx.close(nm, dq, 0.0, 1e-6 + 1e-10 * kL * (1 + 1 / d) / e / e, at=ph)
        check_orbit(ctx, o, g, "stable", ph, probe, ph, 0.0, stable_tol(cell, g, probe, ph), "")
        u = [float(v(0.0)) for v in o.four_velocity()]
        sc = 1e-6 + 1e-9 * kL * (1 + 1 / d)
        ctx.close("velocity at the event", u, vel, sc * np.array([1, 1, 1, 1 / x**2]) * (1 + np.abs(vel)), at=ph)


def stable_some(cell, ctx):
    stable(cell, ctx, False)


def circular(cell, ctx):
    """Circular, spherical and nearly circular orbits: the radial phase is not defined
    to better than the eccentricity, the motion is."""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    g = kit.stable_geo(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    kE, kL = kit.cond(p, 0.0, d)
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    for i, (qr, qt) in enumerate(itertools.product((0.0, 1.3, 4.9), QT)):
        t0, f0 = START[i % len(START)]
        ph = (t0, qr, qt, f0)
        pos, vel = event(g, 0.0, ph)
        if snapped(g, g.rlo, pos[2]):
            continue
        ctx.state()
        ctx.trace()
        o = kg.Orbit(a, pos, vel)
        ctx.step(2)
        if not ctx.true("circular orbit is stable", bool(o.stable), at=ph):
            continue
        # the separation of two coincident roots is known to half of the digits
        s = 3e-6 * np.sqrt(kL) * (1 + 1 / d) * np.sqrt(p) + 3 * e + 1e-4 / p
        ctx.close("p, e, x", (o.p / p, o.e, o.x), (1, e, x), s * np.array([1, 3, 1]), at=ph)
        f = o.trajectory()
        w = g.state(probe, ph)
        ctx.step(12)
        n = 1 + np.abs(probe) * max(g.Ups_r, g.Ups_th)
        for nm, fn, v, sc in zip(("t", "r", "theta", "phi"), f, w, (g.rhi**2 + abs(g.Gamma) * np.abs(probe), g.rhi, 1, 1 / abs(x) + abs(g.Ups_ph) * np.abs(probe))):
            ctx.close(nm + " (circular)", np.broadcast_to(fn(probe), probe.shape), v, s * n * sc * 10, at=ph)


def plunging(cell, ctx):
    C, g = C10.geo(cell)
    if g is None:
        return
    a, E, L, Q = C
    kg = kit.kg()
    s = 10 * C10.scales(g)
    ctx.outcome((g.kind, L > 0, Q == 0))
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    inner = g.kind != "two complex roots"
    for i, (qr, qt) in enumerate(itertools.product((0.0, 1.3, PI, 4.9), (0.0, 0.8, PI / 2, 3.9))):
        t0, f0 = START[i % len(START)]
        ph = (t0, qr, qt, f0)
        pos, vel = event(g, 0.0, ph)
        near = min(abs(pos[1] - g.rm), abs(pos[1] - g.rp)) / g.sep
        # the event must be away from the horizons and the ring singularity
        if near < 0.01 or pos[1] < 0.05 or not np.isfinite(vel).all():
            continue
        if snapped(g, pos[1], pos[2]) or abs(np.sin(pos[2])) < 0.02:
            continue
        # rounding of the event is amplified near the horizons
        k = s * (1 + 1 / near**2) * (1 + g.rhi**2) * (1 + 1 / pos[1] ** 2) * (1 + 1 / np.sin(pos[2]) ** 2)
        if k > 1e-5:
            continue
        ctx.state()
        ctx.trace()
        ctx.step(2)
        ctx.close("constants", kg.constants_from_initial_conditions(a, pos, vel), (E, L, Q),
                  k * np.array([1, 1 + abs(L), 1 + L * L + Q]), at=ph)
        ctx.true("recognised as plunging", not kg.initial_conditions.is_stable(a, pos, vel), at=ph)
        o = kg.Orbit(a, pos, vel)
        if not ctx.true("plunging orbit", not o.stable, at=ph):
            continue
        ctx.true("inputs kept", tuple(o.initial_position) == pos and tuple(o.initial_velocity) == vel and o.a == a, at=ph)
        q = o.initial_phases
        ctx.close("phases t, phi", (q[0], q[3]), (ph[0], ph[3]), 1e-12 * (1 + abs(ph[0])), at=ph)
        turn = 1e-6 + np.sqrt(k)
        dq = float(np.angle(np.exp(1j * (q[1] - qr))))
        ctx.close("radial phase", dq, 0.0, 10 * k + (turn if qr in (0.0, PI) else 0) + 1e-9, at=ph)
        if Q > 0:
            dq = float(np.angle(np.exp(1j * (q[2] - qt))))
            amp = 1 / np.sqrt(g.zm)
            ctx.close("polar phase", dq, 0.0, 10 * k * amp**2 + (turn * amp if qt == 0.0 else 0) + 1e-9, at=ph)
        f = o.trajectory()
        w, tol = C10.tolerances(C, g, probe, ph)
        r = w[1]
        D = np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) / g.sep
        lg = (1 + 1 / D + 1 / near) * (g.rhi / g.sep)
        pt = turn if (qr in (0.0, PI) or qt == 0.0) else 0.0
        ext = (k + pt) * (1 + np.abs(probe) * max(g.Ups_r, g.Ups_th))
        sizes = ((1 + abs(g.Gamma) * np.abs(probe) + g.rhi**2) * (1 + abs(g.Ap) + abs(g.Am)) * lg, g.rhi, 1 + 0 * probe,
                 (1 + abs(g.Ups_ph) * np.abs(probe) + 1 / L**2) * (1 + abs(g.Fp) + abs(g.Fm)) * lg)
        ctx.step(12)
        for nm, fn, v, t, sc in zip(("t", "r", "theta", "phi"), f, w, tol, sizes):
            ctx.close(nm + " (plunge)", np.broadcast_to(fn(probe), probe.shape), v, 10 * t + 10 * ext * sc, at=ph)


def chain(cell, ctx, depth=2):
    """Re-anchoring again and again, with positions and velocities reported by the library itself."""
    if cell[0] == "s" or cell[0] == "p":
        C, g = C10.geo(cell if cell[0] == "s" else cell[1:])
    else:
        a, e, x, d = cell
        p = kit.p_of(a, e, x, d)
        C, g = cell, kit.stable_geo(a, p, e, x)
    if g is None or not (g.rad_ok and g.pol_ok):
        return
    stable_ = cell[0] != "s" and cell[0] != "p"
    kg = kit.kg()
    ph = (0.4, 0.9, 2.2, -1.1)
    pos, vel = event(g, 0.0, ph)
    moves = (0.7 / g.Ups_r, -PI / g.Ups_th, -1.9 / g.Ups_r)[: 2 if depth == 2 else 3]
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])

    def usable(lam):
        r, th = (float(v[0]) for v in g.state(np.array([lam]), ph)[1:3])
        near = 1.0 if stable_ else min(abs(r - g.rm), abs(r - g.rp)) / g.sep
        return near > 0.05 and r > 0.1 and abs(np.sin(th)) > 0.05 and not snapped(g, r, th)

    if not usable(0.0):
        return
    frontier = [((), 0.0, pos, vel)]
    for level in range(depth + 1):
        nxt = []
        for path, lam0, x, u in frontier:
            o = kg.Orbit(C[0], x, u)
            ctx.state()
            ctx.trace()
            ctx.step(2)
            f, v = o.trajectory(), o.four_velocity()
            w = g.state(lam0 + probe, ph)
            if stable_:
                tol = [100 * (1 + len(path)) * t for t in stable_tol(cell, g, np.abs(lam0) + np.abs(probe), ph)]
            else:
                r = w[1]
                D = np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) / g.sep
                n = 1e-7 * (1 + len(path)) * (1 + g.rhi**2) * C10.scales(g) / 1e-11
                tol = [n * (1 + np.abs(w[0])) * (1 + 1 / D) + 0 * D, n * g.rhi + 0 * D, n * 10 + 0 * D,
                       n * (1 + np.abs(w[3]) + 1 / C[2] ** 2) * (1 + 1 / D) * 3]
            for nm, fn, q, t in zip(("t", "r", "theta", "phi"), f, w, tol):
                ctx.close(nm + " (chain)", np.broadcast_to(fn(probe), probe.shape), q, t, path=path)
            if level < depth:
                for i, m in enumerate(moves):
                    if usable(lam0 + m):
                        nxt.append((path + (i,), lam0 + m, tuple(float(fn(m)) for fn in f), tuple(float(fn(m)) for fn in v)))
        frontier = nxt


def chain3(cell, ctx):
    chain(cell, ctx, 3)


DELTA = (0.3, 0.1, 0.03, 0.01, 3e-3, 1e-3, 1e-4, 1e-6)


def approach(cell, ctx):
    """Events closer and closer to the turning points of both motions. Within the
    turning point tolerance the phase may be off by the distance, not by more."""
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    g = kit.stable_geo(a, p, e, x)
    if not (g.rad_ok and g.pol_ok):
        return
    kg = kit.kg()
    kE, kL = kit.cond(p, e, d)
    for which in (1, 2):
        for centre in (0.0, PI):
            for dq in [s * v for v in DELTA for s in (1, -1)]:
                ph = [2.5, 1.3, 0.8, -0.7]
                ph[which] = centre + dq
                if which == 2 and abs(x) == 1:
                    continue
                pos, vel = event(g, 0.0, ph)
                ctx.state()
                ctx.trace()
                ctx.step(2)
                o = kg.Orbit(a, pos, vel)
                if not ctx.true("stable near turning points", bool(o.stable), at=ph):
                    continue
                q = kg.stable_orbit_initial_phases(a, pos, vel)
                s = snapped(g, pos[1], pos[2])
                ctx.outcome((which, s))
                t = 1e-6 + 1e-10 * kL * (1 + 1 / d) / e / e
                for k in (1, 2):
                    if k == 2 and abs(x) == 1:
                        continue
                    for got in (o.initial_phases[k], q[k]):
                        diff = float(np.angle(np.exp(1j * (got - ph[k]))))
                        off = min(1.0, abs(dq)) if k == which else 1.0
                        ctx.close("phase near turning point", diff, 0.0, t / off + (1.2 * abs(dq) if s and k == which else 0), at=ph, phase=k)


def approach_plunge(cell, ctx):
    """the same for plunges, whose phases come back from an inverse sine"""
    C, g = C10.geo(cell)
    if g is None:
        return
    a, E, L, Q = C
    kg = kit.kg()
    s = 10 * C10.scales(g)
    amp = 1 / np.sqrt(g.zm) if Q > 0 else 1.0
    for which in (1, 2):
        if which == 2 and Q == 0:
            continue
        for centre in (0.0, PI):
            for dq in [sg * v for v in DELTA for sg in (1, -1)]:
                ph = [2.5, 1.3 if centre else 4.9, 0.8 if centre else 3.9, -0.7]
                ph[which] = centre + dq
                pos, vel = event(g, 0.0, ph)
                near = min(abs(pos[1] - g.rm), abs(pos[1] - g.rp)) / g.sep
                if near < 0.01 or pos[1] < 0.05 or not np.isfinite(vel).all() or abs(np.sin(pos[2])) < 0.02:
                    continue
                k = s * (1 + 1 / near**2) * (1 + g.rhi**2) * (1 + 1 / pos[1] ** 2) * (1 + 1 / np.sin(pos[2]) ** 2)
                if k > 1e-5:
                    continue
                ctx.state()
                ctx.trace()
                ctx.step(2)
                o = kg.Orbit(a, pos, vel)
                if not ctx.true("plunging near turning points", not o.stable, at=ph):
                    continue
                q = kg.plunging_orbit_initial_phases(a, pos, vel)
                sn = snapped(g, pos[1], pos[2])
                ctx.outcome((which, sn, g.kind))
                for j, am in ((1, 1.0), (2, amp**2)):
                    if j == 2 and Q == 0:
                        continue
                    off = min(1.0, abs(dq)) if j == which else 1.0
                    for got in (o.initial_phases[j], q[j]):
                        diff = float(np.angle(np.exp(1j * (got - ph[j]))))
                        # no better than the square root of the rounding error at the turning point itself
                        ctx.close("phase of a plunge near turning point", diff, 0.0, 1e-8 + 10 * k * am / off
                                  + (1.2 * abs(dq) if sn and j == which and g.kind != "two complex roots" else 0), at=ph, phase=j)


def subsets(cell, ctx):
    """Quantities that may be passed to avoid recomputing them never change the answer."""
    kg = kit.kg()
    ic = kg.initial_conditions
    if cell[0] == "p" or cell[0] == "s":
        C, g = C10.geo(cell if cell[0] == "s" else cell[1:])
        if g is None:
            return
        a, E, L, Q = C
        roots = kg.plunging_radial_roots(a, E, L, Q)
        ups = kg.plunging_mino_frequencies(a, E, L, Q)
        fn, opts = ic.plunging_orbit_initial_phases, {"constants": (E, L, Q), "radial_roots": roots}
        amp = 1 / np.sqrt(max(g.zm, 1e-12))
        t = 1e4 * C10.scales(g) * amp
    else:
        a, e, x, d = cell
        p = kit.p_of(a, e, x, d)
        g = kit.stable_geo(a, p, e, x)
        if not (g.rad_ok and g.pol_ok):
            return
        C = kg.constants_of_motion(a, p, e, x)
        ups = kg.mino_frequencies(a, p, e, x)
        opts = {"constants": C, "radial_roots": kg.stable_radial_roots(a, p, e, x),
                "upsilon_r": ups[0], "upsilon_theta": ups[1], "tol": 1e-4}
        fn = ic.stable_orbit_initial_phases
        t = 1e-8 * kit.cond(p, e, d)[1] * (1 + 1 / d) / e / e
    for i, (qr, qt) in enumerate(((1.3, 0.8), (4.9, 3.9), (0.0, 2.2), (PI, 5.5))):
        t0, f0 = START[i]
        ph = (t0, qr, qt, f0)
        pos, vel = event(g, 0.0, ph)
        near = 1 if cell[0] not in ("p", "s") else min(abs(pos[1] - g.rm), abs(pos[1] - g.rp)) / g.sep
        if snapped(g, pos[1], pos[2]) or near < 0.05 or pos[1] < 0.1 or abs(np.sin(pos[2])) < 0.02:
            continue
        for n in range(len(opts) + 1):
            for m, names in enumerate(itertools.combinations(sorted(opts), n)):
                # tuples, lists and arrays of numbers mean the same
                typ = (lambda v: v, list, np.array)[(m + n) % 3]
                q = fn(a, pos, vel, **{k: typ(opts[k]) if np.ndim(opts[k]) and not np.iscomplexobj(np.array(opts[k])) else opts[k] for k in names})
                ctx.state()
                ctx.step()
                dq = [float(np.angle(np.exp(1j * (q[1] - qr)))), float(np.angle(np.exp(1j * (q[2] - qt))))]
                ok_t = 1e-6 + t
                if cell[0] in ("p", "s"):
                    ok_t += 1e3 * np.sqrt(C10.scales(g)) * (qr in (0.0, PI))
                    if C[3] == 0:
                        dq[1] = 0.0
                elif abs(cell[2]) == 1:
                    dq[1] = 0.0
                ctx.close("phases, any optional arguments", (q[0], q[3]), (t0, f0), 1e-12 * (1 + abs(t0)), given=names)
                ctx.close("phases (angles), any optional arguments", dq, (0.0, 0.0), ok_t, given=names, at=ph)
        ctx.trace()
        if cell[0] not in ("p", "s"):
            for kw in ({}, {"constants": C}, {"constants": C, "tol": 1e-4}, {"constants": np.array(C, float)}):
                ctx.true("stable with given constants", bool(ic.is_stable(a, pos, vel, **kw)), given=sorted(kw))
        else:
            for kw in ({}, {"constants": (E, L, Q)}, {"constants": np.array((E, L, Q), float)}):
                ctx.true("plunging with given constants", not ic.is_stable(a, pos, vel, **kw), given=sorted(kw))


def mirrored(cell, ctx):
    """An orbit around a hole spinning the other way, seen as the mirror image."""
    a, e, x, d = cell
    p = kit.p_of(-a, e, x, d)
    g = kit.stable_geo(-a, p, e, x)
    kg = kit.kg()
    cs = 1e-9 * np.array([1, 1 + abs(g.L), 1 + g.L**2 + g.Q])
    ph = (2.5, 1.3, 0.8, -0.7)
    pos, vel = event(g, 0.0, ph)
    pos, vel = pos[:3] + (-pos[3],), vel[:3] + (-vel[3],)
    probe = np.array([0.0, 0.61 / g.Ups_r, -2.9 / g.Ups_th])
    ctx.state()
    ctx.trace()
    ctx.step(2)
    o = kg.Orbit(a, pos, vel)
    ctx.true("mirrored orbit is stable", bool(o.stable))
    ctx.close("mirrored constants", (o.E, o.L, o.Q), (g.E, -g.L, g.Q), cs)
    ctx.close("mirrored p, e", (o.p, o.e), (p, e), 1e-7 * p)
    w = g.state(probe, ph)
    sign = (1, 1, 1, -1)
    for nm, fn, v, t, s in zip(("t", "r", "theta", "phi"), o.trajectory(), w, stable_tol((-a, e, x, d), g, probe, ph), sign):
        ctx.close("mirrored " + nm, fn(probe), s * v, t)
    u = [float(v(0.0)) for v in o.four_velocity()]
    ctx.close("mirrored velocity", u, vel, 1e-5 * (1 + np.abs(vel)))


GROUPS = {"mirrored": mirrored, "stable": stable, "near turning points": approach, "plunges near turning points": approach_plunge, "stable, 9 points": stable_some, "circular": circular, "plunging": plunging, "chains": chain, "chains (deep)": chain3,
          "optional arguments": subsets}


def keep(a, e, x, d):
    return np.copysign(1, a) > 0 and sane(a, e, x, d) and d >= 0.02 and 0.01 <= e < 0.98 and abs(x) >= 0.01


def plan(tier):
    q = tier == "quick"
    k = 1 if q else 2
    st = kit.grid4(k, keep=keep)
    mirror = [(-0.9, 0.3, 0.6, 0.5), (-0.9, 0.3, -0.6, 0.5), (-0.5, 0.2, 0.6, 2.0), (-0.5, 0.6, -0.6, 0.5), (-0.1, 0.3, 0.9, 1.0), (-0.0, 0.3, 0.6, 1.0)]
    circ = kit.grid4(k, e_axis=([0.0], [1e-6, 1e-3]), keep=lambda a, e, x, d: np.copysign(1, a) > 0 and 1e-3 <= d <= 200 and sane(a, e, x, d) and abs(x) >= 0.01)
    pl = [c for c in C10.cells(k) if c[0] != "s" and c[0] > 1e-4]
    deep = [c for c in C10.cells(k) if c[0] == "s"]
    chains = st + [("p",) + c for c in pl] + deep
    out = [("mirrored", mirror), ("stable, 9 points" if q else "stable", st), ("circular", circ), ("plunging", pl + deep), ("chains", chains), ("optional arguments", chains)]
    near = [c for c in kit.grid4(k, keep=keep) + [(a, e, x, d) for a in (0.5, 0.9) for e in (0.4, 0.7) for x in (0.7, -0.4) for d in (100.0, 200.0, 1000.0)] + [(a, e, x, d) for a in (0.3, 0.9) for e in (0.4,) for x in (0.05, -0.05, 0.2, -0.99, 0.999) for d in (0.5, 20.0)] if c[3] <= 2000]
    out.append(("near turning points", list(dict.fromkeys(near)) if not q else near[-44:] + kit.grid4(0, keep=keep)))
    near_pl = C10.cells(0 if q else 1)
    out.append(("plunges near turning points", [c for c in near_pl if c[0] == "s" or c[0] > 1e-4]))
    if not q:
        out.append(("chains (deep)", kit.grid4(1, keep=keep)))
    return out
