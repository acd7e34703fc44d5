"""C16: the spacetime is the Kerr black hole: metric, norm, horizons, and geodesics with unit norm."""
import itertools

import numpy as np

from .. import kit, lattice, ref

PROPERTY = "C16"
LD = np.longdouble
RULE = ("every (spin, radius, polar angle) of the alphabet, inside, between and outside the horizons and at negative radii: all "
        "ten metric components against the metric assembled from the Carter tetrad in extended precision, and the norm of every "
        "basis vector, every sum and difference of two, and dense vectors (which determines the whole quadratic form); "
        "horizons and the delegated stability functions for every spin; the velocity of every reference geodesic has norm -1; "
        "the velocity method fed with reference coordinates returns the reference velocity")
BOUNDS = "complete product of the alphabets in both tiers (thorough: finer), geodesics k=1 / k=2"
ASSUMPTIONS = ["points on a horizon (singular coordinates) and the ring singularity are left out"]

SPINS = [0.0, 0.5, 0.9, 1e-3, 0.998, 0.9999, -0.5, -0.9, 0.1, -0.0, 0]
RADII = [0.05, 0.3, 0.9, 1.0, 1.2, 1.7, 1.9, 2.1, 3.0, 6, 10.0, 50.0, 1e3, 1e6, -1.0]
THETAS = [1e-3, 0.1, np.pi / 4, 1.0, np.pi / 2, 2.0, 3.0, np.pi - 1e-3]
DENSE = [(1.3, 0.2, -0.1, 0.05), (1.0, -0.7, 0.3, -0.2), (0.0, 1.0, 2.0, 3.0), (-1.0, 0.5, 0.5, 0.5), (1, 0, -2, 3)]


def metric(a, r, th):
    """-Delta/Sigma (dt - a s^2 dphi)^2 + Sigma/Delta dr^2 + Sigma dth^2 + s^2/Sigma ((r^2+a^2)dphi - a dt)^2"""
    a, r, th = LD(a), LD(r), LD(th)
    s2, c2 = np.sin(th) ** 2, np.cos(th) ** 2
    S, D = r * r + a * a * c2, r * r - 2 * r + a * a
    forms = [(-D / S, [1, 0, 0, -a * s2]), (S / D, [0, 1, 0, 0]), (S, [0, 0, 1, 0]), (s2 / S, [-a, 0, 0, r * r + a * a])]
    g = np.zeros((4, 4), dtype=LD)
    for k, w in forms:
        w = np.array(w, dtype=LD)
        g += k * np.outer(w, w)
    # condition of the cancelling pieces
    mag = np.zeros((4, 4), dtype=LD)
    for k, w in forms:
        w = np.abs(np.array(w, dtype=LD))
        mag += abs(k) * np.outer(w, w)
    return g, mag, S, D


def points(cell, ctx):
    a, r = cell
    kg = kit.kg()
    sp = kg.KerrSpacetime(a)
    D = LD(r) ** 2 - 2 * LD(r) + LD(a) ** 2
    if abs(D) < 1e-6 or r == 0:
        return
    amp = float((r * r + a * a + 2 * abs(r)) / abs(D))
    for th in THETAS:
        if a == 0 and r == 0 or r * r + a * a * np.cos(th) ** 2 < 1e-6:
            continue
        g, mag, S, D = metric(a, r, th)
        amp2 = amp * float((r * r + a * a + 2 * abs(r)) / S)
        tol = 1e-13 * amp2 * (mag + np.abs(g)).astype(float)
        # the polar angle near pi is only known to rounding
        tol = tol * (1 + 1e-3 / np.sin(th) ** 2)
        ctx.state()
        ctx.trace()
        for t, f in ((0.0, 0.0), (12.5, -4.0), (-1e3, 2 * np.pi)):
            m = sp.metric(t, r, th, f)
            ctx.step()
            ctx.close("metric", m, g.astype(float), tol + 1e-300, theta=th)
            ctx.close("symmetric", m, np.transpose(m), tol + 1e-300, theta=th)
        m2 = sp.metric(0.0, r, np.pi - th, 0.0)
        ctx.close("reflection", m2, m, 10 * tol + 1e-300, theta=th)
        flip = np.diag([1.0, 1, 1, -1])
        ctx.close("a -> -a is phi -> -phi", kg.KerrSpacetime(-a).metric(0.0, r, th, 0.0), flip @ m @ flip, 10 * tol + 1e-300, theta=th)
        det = np.linalg.det(np.asarray(m) / np.sqrt(np.outer(np.diag(mag), np.diag(mag)).astype(float)))
        want = float(-S * S * LD(np.sin(LD(th))) ** 2 / np.prod(np.diag(mag)))
        ctx.close("determinant", det, want, 1e-11 * amp2 * (1 + 1e-2 / np.sin(th) ** 2), theta=th)
        basis = np.eye(4)
        vecs = [basis[i] for i in range(4)]
        vecs += [basis[i] + s * basis[j] for i, j in itertools.combinations(range(4), 2) for s in (1, -1)]
        vecs += [np.array(v, float) for v in DENSE]
        for k, v in enumerate(vecs):
            want = float(v.astype(LD) @ g @ v.astype(LD))
            tl = 4e-13 * amp2 * (1 + 1e-3 / np.sin(th) ** 2) * float(np.abs(v) @ mag.astype(float) @ np.abs(v)) + 1e-300
            ctx.step()
            form = [v, list(v), tuple(v)][k % 3]
            ctx.close("norm", sp.norm(3.0, r, th, -1.0, form), want, tl, theta=th, v=v)
            if np.all(v == np.rint(v)):
                # whole numbers are numbers
                form = [[int(q) for q in v], v.astype(np.int64), v.astype(np.int32), v.astype(np.float32), tuple(int(q) for q in v)][k % 5]
                ctx.step()
                ctx.close("norm of whole numbers", sp.norm(3, r, th, -1, form), want, tl, theta=th, v=v)
        if r == np.rint(r):
            for whole in (int(r), np.int64(r)):
                ctx.step()
                ctx.close("metric at a whole radius", sp.metric(0, whole, th, 0), m, tol + 1e-300, theta=th)
        for v in DENSE:
            n1 = sp.norm(0.0, r, th, 0.0, v)
            n2 = sp.norm(0.0, r, th, 0.0, [-3 * q for q in v])
            ctx.close("quadratic", n2, 9 * n1, 40 * 1e-13 * amp2 * (1 + 1e-3 / np.sin(th) ** 2) * float(np.abs(v) @ mag.astype(float) @ np.abs(v)), theta=th, v=v)


def horizons(cell, ctx):
    (a,) = cell
    kg = kit.kg()
    sp = kg.KerrSpacetime(a)
    ctx.state()
    ctx.step()
    w = np.sqrt((1 - LD(a)) * (1 + LD(a)))
    ctx.close("outer horizon", sp.outer_horizon, float(1 + w), 1e-14 / float(w))
    ctx.close("inner horizon", sp.inner_horizon, float(1 - w), 1e-14 / float(w))
    ctx.true("spin kept", sp.a == a)
    ctx.true("mass defaults to nothing", sp.M is None)
    ctx.true("mass kept", kg.KerrSpacetime(a, 7.5).M == 7.5)
    ctx.true("mass kept by name", kg.KerrSpacetime(a, M=3.0).M == 3.0)
    ctx.close("the mass is only a scale", kg.KerrSpacetime(a, 7.5).metric(0.0, 7.0, 1.0, 0.0), sp.metric(0.0, 7.0, 1.0, 0.0), 1e-12)
    if np.copysign(1, a) < 0 and a != 0:
        # refused, or the answer for the mirrored inclination
        for e, x in itertools.product((0.0, 0.3, 0.9), (1.0, -1.0, 0.6, -0.3)):
            ctx.state()
            ctx.trace()
            want = kit.psep(-float(a), e, -x)
            for what, f in (("separatrix", lambda: sp.separatrix(e, x)), ("stable outside", lambda: sp.is_stable(want * 1.001, e, x)),
                            ("unstable inside", lambda: sp.is_stable(want * 0.999, e, x))):
                ctx.step()
                try:
                    got = f()
                except ValueError:
                    ctx.outcome("negative spin refused")
                    continue
                if what == "separatrix":
                    ctx.close("separatrix of negative spin", got, want, 1e-6, e=e, x=x)
                else:
                    ctx.true(what + ", negative spin", bool(got) is (what == "stable outside"), e=e, x=x)
        return
    for e, x in itertools.product((0.0, 0.3, 0.9), (1.0, -1.0, 0.6, -0.3, 0.0)):
        ps = sp.separatrix(e, x)
        ctx.step(4)
        ctx.state()
        ctx.trace()
        ctx.close("separatrix of this black hole", ps, kit.psep(float(a) if a else 0.0, e, x), 1e-6)
        ctx.true("stable outside", bool(sp.is_stable(ps * 1.001, e, x)) is True, e=e, x=x)
        ctx.true("unstable inside", bool(sp.is_stable(ps * 0.999, e, x)) is False, e=e, x=x)


LAM = np.array([0.11, 0.9, 2.3, -1.4, 4.0])


def unit(ctx, kg, a, g, ph, plunge):
    """reference events and velocities, fed to norm and to the velocity method"""
    sp = kg.KerrSpacetime(a)
    E, L, Q = (float(q) for q in (g.E, g.L, g.Q))
    psi, chi = None, None
    pos, vel = [], []
    from . import C12

    for l in LAM:
        P, V = C12.event(g, l, ph)
        pos.append(P)
        vel.append(V)
        ctx.state()
        ctx.step()
        ctx.trace()
        _, r, th, _ = P
        G, mag, S, D = metric(a, r, th)
        if abs(float(D)) < 1e-3 * r or np.sin(th) < 1e-2 or float(S) < 1e-2:
            continue
        amp = float((r * r + a * a + 2 * abs(r)) ** 2 / abs(D) / S)
        av = np.abs(np.array(V))
        ctx.close("geodesic has unit norm", sp.norm(*P, V), -1.0, 1e-10 * amp * (1 + float(av @ mag.astype(float) @ av)), at=P)
    pos, vel = np.array(pos), np.array(vel)
    # velocity method with the reference trajectory given as functions
    def pick(k):
        return lambda lam: np.interp(lam, np.sort(LAM), pos[np.argsort(LAM), k])
    fn = sp.four_velocity(pick(0), pick(1), pick(2), pick(3), (E, L, Q), g.Ups_r, g.Ups_th, ph)
    for k, nm in enumerate("t r theta phi".split()):
        got = np.array([fn[k](l) for l in LAM])
        ctx.step(len(LAM))
        ok = np.array([abs(p[1] ** 2 - 2 * p[1] + a * a) > 1e-2 * p[1] and np.sin(p[2]) > 0.05 and p[1] > 0.05 for p in pos])
        if not ok.any():
            continue
        scale = 1 + np.abs(vel).max(axis=1)
        turn = 1e-6 if nm in ("r", "theta") else 1e-8
        ctx.close("velocity of the given trajectory, u_" + nm, got[ok], vel[ok, k], (turn * scale * (1 + 1 / np.abs(pos[:, 1] ** 2 - 2 * pos[:, 1] + a * a)))[ok])


def stable(cell, ctx):
    a, e, x, d = cell
    p = kit.p_of(a, e, x, d)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    if not (g.rad_ok and g.pol_ok):
        return
    unit(ctx, kit.kg(), aa, g, (0.5, 1.1, 2.7, -0.3), False)


def plunging(cell, ctx):
    from . import C10

    C, g = C10.geo(cell)
    if g is None:
        return
    unit(ctx, kit.kg(), C[0], g, (0.5, 2.2, 2.7, -0.3), True)


GROUPS = {"points": points, "horizons": horizons, "stable geodesics": stable, "plunging geodesics": plunging}


def plan(tier):
    from . import C10
    from .C08 import sane

    q = tier == "quick"
    spins = SPINS if q else SPINS + [0.3, 0.7, 0.95, 0.999999, -0.99, 1e-7, 0.2]
    radii = RADII if q else RADII + [0.01, 0.5, 1.4, 1.5, 1.99, 2.01, 2.5, 4.5, 30.0, 1e4, 1e8, -0.1, -10.0, 20]
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3 and e < 0.98 and abs(x) > 0.05
    return [("points", list(itertools.product(spins, radii))),
            ("horizons", [(a,) for a in spins]),
            ("stable geodesics", kit.grid4(1 if q else 2, keep=keep)),
            ("plunging geodesics", C10.cells(1 if q else 2))]
