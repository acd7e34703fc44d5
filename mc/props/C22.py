"""C22: symmetries of the Kerr spacetime, the flow property, and limits to the special cases."""
import numpy as np

from .. import kit, lattice
from .C08 import sane

PROPERTY = "C22"
RULE = ("every cell of the stable and plunge alphabets with at most k boundary-layer coordinates: the library is compared "
        "with itself under the spin mirror, equatorial reflection, time reversal, and restarting from a later point; and "
        "along every sequence of parameters that runs into a special case from every base cell")
BOUNDS = ("mirror of the functions k=1 / k=4; trajectories k=2 / k=3; plunges k=2 / k=4; limits: 16 / 48 base orbits x 6 "
          "special cases x 14 distances from 1e-3 to 1e-100")
ASSUMPTIONS = ["relations between outputs of the library only: no reference model is involved"]

LAM = np.array([0.31, -0.83, 1.37, 4.9, -11.7])
PH = (1.7, 2.3, 4.1, -0.6)


def slope(f, lam, h):
    """How far a coordinate moves when the time is shifted by rounding."""
    v = f(lam)
    return v, np.abs(f(lam + h) - v) + np.abs(f(lam - h) - v)


def same(ctx, nm, got, want, tol, **kw):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = np.isfinite(want) | np.isfinite(got)
    ctx.close(nm, got[ok], want[ok], np.broadcast_to(tol, want.shape)[ok], **kw)


def mirror(cell, ctx):
    """(a, x) and (-a, -x) are one orbit."""
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    ctx.state(2)
    ctx.trace()
    ctx.outcome((a == 0, e == 0, abs(x) == 1))
    fs = [kg.constants_of_motion, kg.energy, kg.angular_momentum, kg.carter_constant, kg.mino_frequencies,
          kg.fundamental_frequencies, kg.r_frequency, kg.phi_frequency, kg.gamma, kg.stable_radial_roots]
    for f in fs:
        u, v = np.array(f(a, p, e, x), float), np.array(f(-a, p, e, -x), float)
        ctx.step(2)
        same(ctx, f.__name__, v, u, 1e-13 * np.abs(u) + 1e-300)
    u, v = kg.theta_frequency(a, p, e, x), kg.theta_frequency(-a, p, e, -x)
    ctx.close("theta_frequency", abs(v), abs(u), 1e-13 * abs(u))
    f, g = kg.stable.stable_trajectory(a, p, e, x, PH), kg.stable.stable_trajectory(-a, p, e, -x, PH)
    for nm, s, t in zip(("t", "r", "theta", "phi"), f, g):
        u = s(LAM)
        ctx.step(2)
        same(ctx, "trajectory " + nm, t(LAM), u, 1e-12 * np.abs(u))


def relations(ctx, make, ups, size, fuzz, tag=""):
    """reflection, time reversal, restart and periodicity of one trajectory."""
    ur, ut = ups
    f = make(PH)
    h = fuzz / max(ur, ut, 1.0)
    vals, tols = [], []
    for i, c in enumerate(f):
        v, s = slope(c, LAM, h * (1 + np.abs(LAM) * max(ur, ut)))
        vals.append(v)
        tols.append(10 * s + 1e-11 * size[i])
    ctx.step(12)
    # equatorial reflection: half a polar period later
    g = make((PH[0], PH[1], PH[2] + np.pi, PH[3]))
    got = [c(LAM) for c in g]
    for i, nm in enumerate(("t", "r", "theta", "phi")):
        want = np.pi - vals[2] if i == 2 else vals[i]
        same(ctx, "reflection " + nm + tag, got[i], want, tols[i] * 3)
    # time reversal
    g = make(tuple(-q for q in PH))
    got = [c(-LAM) for c in g]
    for i, nm in enumerate(("t", "r", "theta", "phi")):
        want = -vals[i] if i in (0, 3) else vals[i]
        same(ctx, "time reversal " + nm + tag, got[i], want, tols[i] * 3)
    # restart from the point reached at LAM[0]
    l0 = LAM[0]
    start = [float(c(l0)) for c in f]
    if np.isfinite(start).all():
        g = make((start[0], PH[1] + ur * l0, PH[2] + ut * l0, start[3]))
        got = [c(LAM - l0) for c in g]
        for i, nm in enumerate(("t", "r", "theta", "phi")):
            same(ctx, "restart " + nm + tag, got[i], vals[i], tols[i] * 3 + tols[i][0] * 3)
    # periods
    ctx.step(4)
    same(ctx, "radial period" + tag, f[1](LAM + 2 * np.pi / ur), vals[1], tols[1] * (1 + 2 * np.pi / ur) * 10)
    same(ctx, "polar period" + tag, f[2](LAM + 2 * np.pi / ut), vals[2], tols[2] * (1 + 2 * np.pi / ut) * 10)
    # full turns of the phases
    g = make((PH[0], PH[1] + 4 * np.pi, PH[2] - 6 * np.pi, PH[3]))
    got = [c(LAM) for c in g]
    for i, nm in enumerate(("t", "r", "theta", "phi")):
        same(ctx, "full turns " + nm + tag, got[i], vals[i], tols[i] * 10)
    return f


def stable(cell, ctx):
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    rmax = p / (1 - e)
    ur, ut, uf, ga = kg.mino_frequencies(a, p, e, x)
    ctx.state(6)
    ctx.trace()
    ctx.outcome((a == 0, e == 0, abs(x) == 1))
    L = np.abs(LAM)
    size = [1 + abs(ga) * (1 + L), rmax + 0 * L, 1 + 0 * L, (1 + abs(uf) * (1 + L)) * 10]
    fuzz = 1e-11 * (1 + 1e-2 / d) * (1 + 0.01 * rmax)
    relations(ctx, lambda ph: kg.stable.stable_trajectory(a, p, e, x, ph), (ur, ut), size, fuzz)


def velocities(o, lam):
    return np.array([f(lam) for f in o.four_velocity()])


def objects(cell, ctx):
    """the same relations through the class, with velocities"""
    a, e, x, d = cell
    kg = kit.kg()
    p = kit.p_of(a, e, x, d)
    o = kg.StableOrbit(a, p, e, x, initial_phases=PH)
    r = kg.StableOrbit(a, p, e, x, initial_phases=(PH[0], PH[1], PH[2] + np.pi, PH[3]))
    b = kg.StableOrbit(a, p, e, x, initial_phases=tuple(-q for q in PH))
    m = kg.StableOrbit(-a, p, e, -x, initial_phases=PH)
    ctx.state(4)
    ctx.trace()
    ctx.step(16)
    u = velocities(o, LAM)
    # a velocity near a turning point keeps half of the digits
    h = 1e-11 * (1 + 1e-2 / d) * (1 + 0.01 * p / (1 - e))
    s = np.abs(velocities(o, LAM + h) - u) + np.abs(velocities(o, LAM - h) - u)
    tol = 1e3 * s + 1e-9 * (np.abs(u) + 1e-3) + 1e-9 * np.max(np.abs(u), axis=0)
    for nm, w, lam, sg in (("reflection", r, LAM, (1, 1, -1, 1)), ("time reversal", b, -LAM, (1, -1, -1, 1)),
                           ("mirror", m, LAM, (1, 1, 1, 1))):
        same(ctx, "velocity, " + nm, velocities(w, lam), u * np.array(sg)[:, None], tol)
    ctx.true("mirrored object", (m.a, m.p, m.e, m.x) == (o.a, o.p, o.e, o.x), got=(m.a, m.p, m.e, m.x))
    for k in ("E", "L", "Q", "upsilon_r", "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi"):
        v, w = getattr(m, k), getattr(o, k)
        same(ctx, "mirror " + k, [v], [w], 1e-13 * abs(w))
    same(ctx, "mirror initial position", m.initial_position, o.initial_position, 1e-12 * (1 + np.abs(o.initial_position)))


def plunge(cell, ctx):
    C = (cell[1], *kit.deep_constants(*cell[1:])) if cell[0] == "s" else cell
    g = kit.plunge_geo(*C)
    if g is None or g.gap < 1e-2 or abs(C[2]) < 0.05 or abs(C[0]) < 1e-3:
        ctx.outcome("left out")
        return
    a, E, L, Q = C
    kg = kit.kg()
    ctx.state(7)
    ctx.trace()
    ctx.outcome((g.kind, L > 0, Q == 0))
    o = kg.PlungingOrbit(a, E, L, Q, initial_phases=PH)
    make = lambda ph: kg.PlungingOrbit(a, E, L, Q, initial_phases=ph).trajectory()
    k = 1 / (1 - E * E)
    al = np.abs(LAM)
    size = [1e3 * k * (1 + g.rhi**3) * (1 + al), 1e2 * k * g.rhi + 0 * al, 1e2 * k + 0 * al, 1e3 * k * (1 + 1 / L**2) * (1 + al)]
    f = relations(ctx, make, (o.upsilon_r, o.upsilon_theta), size, 1e-10 * k / g.gap)
    # the mirrored black hole
    m = kg.PlungingOrbit(-a, E, -L, Q, initial_phases=(PH[0], PH[1], PH[2], -PH[3]))
    t = m.trajectory()
    h = 1e-10 * k / g.gap
    for i, nm in enumerate(("t", "r", "theta", "phi")):
        v, s = slope(f[i], LAM, h)
        same(ctx, "mirror " + nm, t[i](LAM), -v if i == 3 else v, 20 * s + 1e-11 * size[i])
    u, w = velocities(o, LAM), velocities(m, LAM)
    s = np.abs(velocities(o, LAM + h) - u) + np.abs(velocities(o, LAM - h) - u)
    tol = 100 * s + 1e-9 * k * (np.abs(u) + np.max(np.abs(u), axis=0))
    same(ctx, "mirror velocity", w, u * np.array([1, 1, 1, -1])[:, None], tol)
    same(ctx, "mirror frequencies", kg.plunging_mino_frequencies(-a, E, -L, Q), (o.upsilon_r, o.upsilon_theta),
         1e-10 * k / g.gap * np.array([o.upsilon_r, o.upsilon_theta]))


DIST = [1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14, 1e-16, 1e-20, 1e-50, 1e-100]
SPECIAL = {"a -> 0": (0, 0.0, 1), "a -> -0": (0, 0.0, -1), "e -> 0": (2, 0.0, 1), "x -> 1": (3, 1.0, -1), "x -> -1": (3, -1.0, 1),
           "x -> 0": (3, 0.0, 1)}


def limit(cell, ctx):
    """No jump at a special case: the distance of every output is at most in proportion to the distance in parameter."""
    base, name = cell
    kg = kit.kg()
    i, at, sg = SPECIAL[name]
    b = list(base)
    b[i] = at
    fs = {"constants": kg.constants_of_motion, "radial roots": kg.stable_radial_roots}
    if name != "x -> 0":
        fs["frequencies"] = lambda *c: kg.mino_frequencies(*c)
        fs["observer frequencies"] = lambda *c: kg.fundamental_frequencies(*c)
        fs["trajectory"] = lambda *c: np.concatenate([f(LAM) for f in kg.stable.stable_trajectory(*c, PH)])
    if name == "a -> -0":
        # the mirrored orbit: -0.0 belongs to the negative spins
        b[0] = -0.0
    ctx.trace()
    ctx.outcome(name)
    for nm, f in fs.items():
        want = np.array(f(*b), float)
        K = None
        track = []
        for s in DIST:
            if name == "x -> 0" and s < 1e-30:
                continue  # powers of 1/x^2 overflow
            c = list(b)
            c[i] = at + sg * s
            ctx.state()
            ctx.step()
            got = np.array(f(*c), float)
            # the inclination enters as sqrt(1 - x^2)
            s = abs(c[i] - at)
            reach = np.sqrt(s) if name in ("x -> 1", "x -> -1") and nm == "trajectory" else s
            if K is None:
                K = 3 * np.abs(got - want) / reach + np.abs(want) + 1
            floor = 1e-12 * (1 + np.abs(want)) * (100 if nm == "trajectory" else 1)
            same(ctx, nm, got, want, K * reach + floor, distance=s)
            if s and (not track or s != track[-1][0]):
                track.append((s, np.abs(got - want), floor))
        # nor is there a plateau: an approach at some order goes on at that order until it drowns in rounding
        for (s0, d0, _), (s1, d1, _), (s2, d2, fl) in zip(track, track[1:], track[2:]):
            with np.errstate(all="ignore"):
                order = np.log(d0 / d1) / np.log(s0 / s1)
                predicted = d1 * (s2 / s1) ** order
            ok = np.isfinite(order) & (order > 0.2) & (order < 5) & (d1 > 1e3 * fl) & (predicted > 100 * fl)
            if ok.any():
                ctx.close(nm + " approach", np.minimum(np.log(d2[ok] / predicted[ok]), 0.0), 0 * d2[ok], 1.0, distance=s2)


GROUPS = {"mirror": mirror, "stable": stable, "objects": objects, "plunging": plunge, "limits": limit}


def plan(tier):
    q = tier == "quick"
    keep = lambda a, e, x, d: sane(a, e, x, d) and d >= 1e-3
    bases = [(a, p, e, x) for a in (0.9, 0.5) for p in (12.0, 40.0) for e in (0.2, 0.6) for x in (0.6, -0.6)]
    if not q:
        bases += [(a, p, e, x) for a in (0.998, 0.1) for p in (12.0, 1000.0) for e in (0.05, 0.9) for x in (0.1, -0.1, 0.95, -0.95)]
    return [
        ("mirror", kit.grid4(1 if q else 4, keep=keep)),
        ("stable", kit.grid4(2 if q else 3, keep=keep)),
        ("objects", kit.grid4(1 if q else 2, keep=keep)),
        ("plunging", kit.plunges(2 if q else 4) + [("s",) + c for c in kit.deep_plunges(1 if q else 3)]),
        ("limits", [(b, n) for b in bases for n in SPECIAL]),
    ]
