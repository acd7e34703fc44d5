"""C20: plots show the orbit, and only what is not behind or inside the black hole."""
import itertools

import numpy as np

from .. import draw, kit, lattice
from . import C18

PROPERTY = "C20"
RULE = ("visibility: all points of a lattice of (height over the view plane, distance from the line of sight, angle) around the hole for every "
        "spin and viewing angle of the alphabet, alone, all together, and in all ordered pairs and triples; plots: layered enumeration of "
        "all options for every kind of orbit, read back from the artists")
BOUNDS = "visibility: full product of the alphabet; plots: all pairs of options off the core"
ASSUMPTIONS = ["points within 1e-9 of the outline of the hole or of the view plane are not judged", "what matplotlib draws is what its artists say"]

A = [0.0, 0.9, 0.5, 0.998, 0.1, -0.9]
ELEV = [0, 30, -30, 60, 90, -90, 120, 12.5]
AZIM = [0, -60, 90, 180, 45, 270, 400, 12.5]
H = (-20, -3, -1.5, -1.05, -1, -0.9, -0.5, -1e-3, -1e-6, 1e-6, 1e-3, 0.5, 0.9, 1, 1.05, 3, 20)   # in horizon radii
RHO = (0.0, 1e-6, 0.3, 0.9, 1 - 1e-6, 1 + 1e-6, 1.1, 5.0)
PSI = (0.0, 0.9, np.pi / 2, np.pi, 4.0)


def some_orbit(a):
    """is_visible only needs the spin; any kind of orbit will do"""
    kg = kit.kg()
    return [kg.StableOrbit(a, 12.0, 0.3, 0.6)] + ([kg.PlungingOrbit(a, 0.94, 1.0, 8.0)] if abs(a) > 0.05 else [])


def lattice_points(a, elev, azim):
    R, n = draw.horizon(a), draw.normal(elev, azim)
    k = np.array([0, 0, 1.0]) if abs(n[2]) < 0.9 else np.array([1.0, 0, 0])
    u = np.cross(n, k)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    return np.array([R * (h * n + q * (np.cos(s) * u + np.sin(s) * v)) for h in H for q in RHO for s in (PSI if q else PSI[:1])])


def judge(ctx, got, pts, a, elev, azim, **info):
    want = draw.hidden(pts, a, elev, azim)
    got = np.asarray(got)
    if not ctx.true("one answer per point", got.shape == (len(pts),) and got.dtype.kind == "b", got=repr(got)[:100], **info):
        return
    for i, w in enumerate(want):
        if w is not None and bool(got[i]) == w:
            ctx.fail("visible" if not w else "hidden", point=pts[i], got=bool(got[i]), **info)
            break
    ctx.checks += len(want)


def visibility(cell, ctx):
    a, elev, azim = cell
    pts = lattice_points(a, elev, azim)
    for o in some_orbit(a):
        ctx.state(len(pts))
        ctx.step()
        judge(ctx, o.is_visible(pts, elev, azim), pts, a, elev, azim, how="together")
        judge(ctx, o.is_visible(pts.tolist(), elev, azim), pts, a, elev, azim, how="as a list")
        judge(ctx, o.is_visible(pts[::-1], elev, azim), pts[::-1], a, elev, azim, how="reversed")
        for i in range(0, len(pts), 3):
            ctx.step()
            judge(ctx, o.is_visible(pts[i:i + 1], elev, azim), pts[i:i + 1], a, elev, azim, how="alone")
        ctx.trace()


def companions(cell, ctx):
    """the answer for a point does not depend on which others are asked about"""
    a, elev, azim = cell
    R, n = draw.horizon(a), draw.normal(elev, azim)
    k = np.array([0, 0, 1.0]) if abs(n[2]) < 0.9 else np.array([1.0, 0, 0])
    u = np.cross(n, k) / np.linalg.norm(np.cross(n, k))
    pts = [R * (h * n + q * u) for h, q in ((-0.3, 0.1), (-2, 0.2), (-2, 3), (2, 0.2), (0.2, 0.9), (0.4, 0.95), (-50, 0.5), (30, 40))]
    o = some_orbit(a)[0]
    for size in (1, 2, 3, 4):
        for sub in itertools.permutations(range(len(pts)), size) if size < 4 else itertools.combinations(range(len(pts)), size):
            q = np.array([pts[i] for i in sub])
            ctx.state()
            ctx.step()
            judge(ctx, o.is_visible(q, elev, azim), q, a, elev, azim, how=sub)
    ctx.trace()


# ---- plots
KINDS = ["stable", "plunge", "plunge, four real roots", "from stable", "from plunge"]
OPT = {
    "lambda0": ([0, 0.5], [-1.3, 2, -0.25]),
    "length": ([1.5], [0.25, 0.5, 4.0, 1]),
    "elevation": ([30, 0], [-20, 90, 75, 135]),
    "azimuth": ([-60], [0, 30, 180, 300]),
    "initial_phases": ([None], [(0.3, 0.0, 1.0, -2.0), (5.0, 2.5, 0.6, -3.0), [0, 0, 0, 0]]),
    "grid": ([True], [False]),
    "axes": ([True], [False]),
    "lw": ([1], [3.5, 0.2]),
    "color": (["red"], ["#1f77b4", "black"]),
    "tau": ([np.inf], [0.5, 3.0]),
    "point_density": ([40], [10, 100, 7]),
}
DEFAULT = dict(lambda0=0, lambda1=10, elevation=30, azimuth=-60, initial_phases=None, grid=True, axes=True, lw=1, color="red", tau=np.inf, point_density=200)


def plot(cell, ctx):
    import matplotlib.pyplot as plt

    kind, opts, explicit = cell
    C18.prepare((kind,))
    o = C18.make(kind)
    kw = dict(DEFAULT)
    kw.update(dict(opts))
    if "length" in kw:
        kw["lambda1"] = kw["lambda0"] + kw.pop("length")
    before = set(plt.get_fignums())
    ph0 = None if kw["initial_phases"] is None else list(kw["initial_phases"])
    fig, ax = o.plot(**(kw if explicit else {k: v for k, v in kw.items() if v is not DEFAULT[k] and v != DEFAULT[k]}))
    ctx.state()
    ctx.step()
    try:
        read(ctx, o, fig, ax, kw, before)
        ctx.true("phases left alone", ph0 is None or list(kw["initial_phases"]) == ph0)
        fig.canvas.draw()
        ctx.step()
    finally:
        plt.close(fig)
    ctx.trace()


def read(ctx, o, fig, ax, kw, before):
    import matplotlib.pyplot as plt

    ctx.true("one new figure, left open", set(plt.get_fignums()) - before == {fig.number} and ax in fig.axes and len(fig.axes) == 1)
    R = draw.horizon(o.a)
    # the hole
    v = draw.surface_points(ax)
    if ctx.true("one surface", v is not None and len(v)):
        ctx.close("points of the hole", np.linalg.norm(v, axis=1), np.full(len(v), R), 1e-9)
        ctx.close("extent of the hole", [v.min(0), v.max(0)], [[-R] * 3, [R] * 3], 0.01 * R)
    # the orbit
    lines = draw.find(ax, draw.Line3DCollection)
    if not ctx.true("one curve", len(lines) == 1):
        return
    seg = draw.segments(lines[0])
    N = len(seg) + 1
    span = kw["lambda1"] - kw["lambda0"]
    if not ctx.true("number of points", abs(N - span * kw["point_density"]) <= 1, got=N, want=span * kw["point_density"]):
        return
    lam = np.linspace(kw["lambda0"], kw["lambda1"], N)
    ph = o.initial_phases if kw["initial_phases"] is None else tuple(kw["initial_phases"])
    t, r, th, p = [f(lam) for f in o.trajectory(initial_phases=ph)]
    xyz = draw.cartesian(r, th, p)
    tol = 1e-8 * (1 + np.linalg.norm(xyz, axis=1))[:, None]
    ctx.close("start of segments", seg[:, 0, :2], xyz[:-1, :2], tol[1:] + tol[:-1])
    ctx.close("end of segments", seg[:, 1, :2], xyz[1:, :2], tol[1:] + tol[:-1])
    hid = draw.hidden(xyz, o.a, kw["elevation"], kw["azimuth"])
    seen = 0
    for k in range(N - 1):
        for end, i in ((0, k), (1, k + 1)):
            shown = np.isfinite(seg[k, end, 2])
            seen += 1
            if hid[i] is None:
                continue
            if shown == hid[i]:
                ctx.fail("drawn" if hid[i] else "left out", point=xyz[i], at=lam[i])
                return
            if shown and abs(seg[k, end, 2] - xyz[i, 2]) > tol[i, 0]:
                ctx.fail("height", point=xyz[i], got=seg[k, end, 2])
                return
    ctx.checks += seen
    ctx.outcome("%s hidden" % ("some" if any(h for h in hid if h) else "none"))
    # its width decays with age
    w = np.asarray(lines[0].get_linewidths(), float)
    dt = span / (N - 1)
    want = 0.1 + kw["lw"] * np.exp(-dt * (N - 1 - np.arange(N)) / kw["tau"])
    ctx.true("enough widths", len(w) >= N - 1, got=len(w))
    # a sample of the width may belong to either end of its segment
    ctx.close("widths", w[:N - 1], want[:N - 1], np.abs(want[1:] - want[:-1]) * 1.01 + 1e-9)
    ctx.close("colour of the curve", lines[0].get_colors()[0], draw.to_rgba(kw["color"]), 1e-12)
    # the body
    m = draw.marker(ax)
    if ctx.true("one body", m is not None):
        ctx.close("body", m, xyz[-1:], tol[-1:])
    # the view
    ctx.close("viewing angles", [ax.elev, ax.azim], [kw["elevation"], kw["azimuth"]], 1e-9)
    ctx.true("parallel projection", np.isinf(ax._focal_length))
    lim = draw.limits(ax)
    everything = np.concatenate((xyz, [[-R] * 3, [R] * 3]))
    lo, hi = everything.min(0), everything.max(0)
    size = hi - lo
    ctx.true("everything is within the axes", np.all(lim[:, 0] <= lo + 0.01 * R) and np.all(lim[:, 1] >= hi - 0.01 * R), got=lim, want=[lo, hi])
    ctx.true("axes no wider than needed", np.all(lim[:, 1] - lim[:, 0] <= 1.1 * size), got=lim, want=[lo, hi])
    box = np.asarray(ax.get_box_aspect() if hasattr(ax, "get_box_aspect") and ax.get_box_aspect() is not None else ax._box_aspect, float)
    ctx.close("equal scales", box / box[0], (lim[:, 1] - lim[:, 0]) / (lim[0, 1] - lim[0, 0]), 1e-6)
    ctx.true("grid", bool(ax._draw_grid) == bool(kw["grid"]))
    ctx.true("axes", bool(ax.axison if not hasattr(ax, "_axis3don") else ax._axis3don) == bool(kw["axes"]))


GROUPS = {"visibility": visibility, "companions": companions, "plot": plot}


def plan(tier):
    q = tier == "quick"
    el, az = (ELEV, AZIM) if not q else (ELEV[:6], AZIM[:6])
    vis = [(a, e, z) for a in (A if not q else A[:4] + A[5:]) for e in el for z in az]
    comp = [(a, e, z) for a in ((0.9, 0.0) if q else A) for e, z in ((0, 0), (30, -60), (-30, 45), (90, 0))[: 3 if q else 4]]
    names = list(OPT)
    pl = []
    for kind in KINDS + ([] if q else ["stable, negative spin", "stable, no spin", "stable, defaults", "plunge, other side", "bound twin of four real roots", "from plunge, four real roots"]):
        for c in lattice.product([OPT[n] for n in names], 2):
            if q and any(c[names.index(n)] not in (OPT[n][0][0],) and c[names.index(n)] in OPT[n][0] for n in names):
                continue
            if c[names.index("length")] * c[names.index("point_density")] < 3:
                continue  # fewer points than make a curve
            pl.append((kind, tuple(zip(names, c)), False))
        pl.append((kind, (("length", 1.0),), True))
        pl.append((kind, (), False))
    return [("visibility", vis), ("companions", comp), ("plot", pl)]
