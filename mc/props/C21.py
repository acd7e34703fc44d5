"""C21: every frame of an animation shows the orbit at its own time."""
import numpy as np

from .. import draw, kit, lattice
from . import C18

PROPERTY = "C21"
RULE = ("layered enumeration of all options of animate for every kind of orbit; every frame that is written is read back from the artists "
        "when it is handed to the encoder: position of the body, tail and its hidden parts, opacity, camera, limits, component plots, text")
BOUNDS = "at most k options off the core, k=1 (quick; k=2 with two values per option for one kind of orbit), k=2 (thorough); 7 to 120 frames each; all frames"
ASSUMPTIONS = ["ffmpeg is replaced by a stand-in that records its arguments and swallows the frames", "frames are rendered only at the end of each animation"]

KINDS = ["stable", "plunge", "plunge, four real roots", "from stable", "from plunge"]


def azim(lam):
    return 10 + 40 * lam


def elev(lam):
    return 70 * np.sin(2 * lam)


def rolling(lam):
    return 15 * lam


def zoom(lam):
    return 5 + lam


OPT = {
    "lambda0": ([0, -0.7], [3.1, -12]),
    "length": ([0.5], [0.25, 1.0, 1, 0.7]),
    "elevation": ([30], [0, -40]),
    "azimuth": ([-60], [0, 135]),
    "initial_phases": ([None], [(5.0, 2.5, 0.6, -3.0), [0.3, 0, 1, 2]]),
    "grid": ([True], [False]),
    "axes": ([True], [False]),
    "color": (["red"], ["#1f77b4"]),
    "tau": ([2, 0.2], [10]),
    "tail_length": ([5, 0.1], [0.25, 0.33, 1, 0]),
    "lw": ([2], [0.5]),
    "azimuthal_pan": ([None, "azim"], []),
    "elevation_pan": ([None, "elev"], []),
    "roll": ([None], ["rolling"]),
    "speed": ([1, 0.5], [0.125, 2, 0.25, 1.5, 1.0]),
    "background_color": ([None], ["black", "white"]),
    "axis_limit": ([None], ["zoom"]),
    "plot_components": ([False, True], []),
}
DEFAULT = dict(lambda0=0, lambda1=10, elevation=30, azimuth=-60, initial_phases=None, grid=True, axes=True, color="red", tau=2, tail_length=5, lw=2,
               azimuthal_pan=None, elevation_pan=None, roll=None, speed=1, background_color=None, axis_limit=None, plot_components=False)

def lines_of(fig, ax):
    out = []
    for b in fig.axes:
        if b is not ax:
            out.append((b.get_ylabel(), [tuple(np.array(q, float) for q in ln.get_data()) for ln in b.lines]))
    return out


def snapshot(fig, kw):
    ax = [a for a in fig.axes if hasattr(a, "get_zlim3d")][0]
    tails = draw.find(ax, draw.Line3DCollection)
    al = tails[0].get_alpha() if tails else None
    return {"tails": len(tails), "segments": draw.segments(tails[0]) if tails else None,
            "alpha": None if al is None else np.array(al, float), "colour": np.array(tails[0].get_colors()[:1]) if tails else None,
            "width": np.array(tails[0].get_linewidths(), float) if tails else None,
            "body": draw.marker(ax), "view": (ax.elev, ax.azim, ax.roll), "limits": draw.limits(ax), "lines": lines_of(fig, ax),
            "texts": [t.get_text() for t in ax.texts], "face": fig.get_facecolor(), "saved face": kw.get("facecolor"),
            "grid": bool(ax._draw_grid), "axes": bool(ax._axis3don), "ortho": bool(np.isinf(ax._focal_length)),
            "box": np.asarray(ax._box_aspect, float)}


def animate(cell, ctx):
    import matplotlib.pyplot as plt

    kind, opts, explicit = cell
    C18.prepare((kind,))
    o = C18.make(kind)
    kw = dict(DEFAULT)
    kw.update(dict(opts))
    if "length" in kw:
        kw["lambda1"] = kw["lambda0"] + kw.pop("length")
    for k in ("azimuthal_pan", "elevation_pan", "roll", "axis_limit"):
        kw[k] = {None: None, "azim": azim, "elev": elev, "rolling": rolling, "zoom": zoom}[kw[k]]
    before = set(plt.get_fignums())
    frames, figures, written = draw.record(o, kw if explicit else {k: v for k, v in kw.items() if v is not DEFAULT[k] and v != DEFAULT[k]}, snapshot)
    ctx.state(len(frames))
    ctx.step(1 + len(frames))
    ctx.true("file written", written is not None)
    if written is not None:
        args = eval(written.splitlines()[0])
        ctx.close("frames per second", float(args[args.index("-framerate") + 1]) if "-framerate" in args else -1, 30.0, 1e-9)
    ctx.true("figure closed", set(plt.get_fignums()) == before)
    if not ctx.true("one figure", len(figures) == 1):
        return
    judge(ctx, o, kw, frames)
    # the artists can be rendered
    fig = figures[0]
    fig.set_dpi(20)
    fig.canvas.draw()
    ctx.step()
    ctx.trace()


DENSITY = 240  # samples per unit of Mino time
FPS = 30


def judge(ctx, o, kw, frames):
    l0, l1 = kw["lambda0"], kw["lambda1"]
    span = l1 - l0
    if not ctx.true("number of frames", abs(len(frames) - span * FPS / kw["speed"]) <= 1.01, got=len(frames), want=span * FPS / kw["speed"]):
        return
    N = int(span * DENSITY)
    lam = np.linspace(l0, l1, N)
    ph = o.initial_phases if kw["initial_phases"] is None else tuple(kw["initial_phases"])
    traj = [f(lam) for f in o.trajectory(initial_phases=ph)]
    xyz = draw.cartesian(*traj[1:])
    tol = 1e-8 * (1 + np.linalg.norm(xyz, axis=1))
    R = draw.horizon(o.a)
    lim0 = max(np.abs(xyz).max(), R)
    step = int(round(kw["speed"] * 8))
    dt = 1 / DENSITY
    n_hidden = 0
    for i, f in enumerate(frames):
        j = i * step
        bad = len(ctx.failures)
        now = lam[j]
        info = dict(frame=i)
        ctx.true("time of a frame", abs(now - (l0 + i * kw["speed"] / FPS)) <= 1.01 * dt, **info)
        if ctx.true("one body", f["body"] is not None, **info):
            ctx.close("body", f["body"], xyz[j:j + 1], 2 * tol[j], **info)
        el = kw["elevation_pan"](now) if kw["elevation_pan"] else kw["elevation"]
        az = kw["azimuthal_pan"](now) if kw["azimuthal_pan"] else kw["azimuth"]
        ro = kw["roll"](now) if kw["roll"] else 0
        ctx.close("camera", f["view"], (el, az, ro), 1e-6, **info)
        L = kw["axis_limit"](now) if kw["axis_limit"] else lim0
        ctx.close("limits", f["limits"], [[-L, L]] * 3, 1e-3 * L, **info)
        ctx.close("equal scales", f["box"] / f["box"][0], [1, 1, 1], 1e-6, **info)
        ctx.true("parallel projection", f["ortho"], **info)
        ctx.true("grid", f["grid"] == bool(kw["grid"]), **info)
        ctx.true("axes", f["axes"] == bool(kw["axes"]), **info)
        if not ctx.true("one tail", f["tails"] == 1, **info):
            return
        n = int(kw["tail_length"] * DENSITY + 1e-9)
        j0 = max(0, j - n)
        seg = f["segments"]
        want = max(0, j - j0 - 1)
        # the tail may or may not include the sample under the body
        if not ctx.true("length of the tail", want <= len(seg) <= want + 1, got=len(seg), want=want, **info):
            return
        if len(seg) and j0 + len(seg) < N:
            ends = xyz[j0:j0 + len(seg) + 1]
            hid = draw.hidden(ends, o.a, el, az)
            ctx.close("tail", seg[:, :, :2], np.stack((ends[:-1, :2], ends[1:, :2]), axis=1), 2 * tol[j0:j0 + len(seg) + 1].max(), **info)
            for k in range(len(seg)):
                for e, m in ((0, k), (1, k + 1)):
                    shown = np.isfinite(seg[k, e, 2])
                    if hid[m] is None:
                        continue
                    n_hidden += hid[m]
                    if shown == hid[m]:
                        ctx.fail("drawn" if hid[m] else "left out", point=ends[m], segment=k, **info)
                        return
                    if shown and abs(seg[k, e, 2] - ends[m, 2]) > 2 * tol[j0 + m]:
                        ctx.fail("height of the tail", point=ends[m], got=seg[k, e, 2], **info)
                        return
            ctx.checks += 2 * len(seg)
            al = f["alpha"]
            if al is not None and al.ndim == 1:
                ctx.true("enough opacities", len(al) >= len(seg), got=len(al), want=len(seg), **info)
                age = np.arange(len(al))[::-1] * span / (N - 1)
                w = 0.1 + 0.9 * np.exp(-age / kw["tau"])
                ctx.close("opacity", al, w, 1.02 * (1 - np.exp(-dt / kw["tau"])) * w + 1e-6, **info)
            else:
                ctx.fail("opacity", got=repr(al), **info)
        ctx.close("colour of the tail", f["colour"][0][:3], draw.to_rgba(kw["color"])[:3], 1e-12, **info)
        ctx.close("width of the tail", f["width"], np.full(f["width"].shape, kw["lw"]), 1e-12, **info)
        if kw["background_color"]:
            ctx.close("background", draw.to_rgba(f["face"]), draw.to_rgba(kw["background_color"]), 1e-12, **info)
            ctx.close("saved background", draw.to_rgba(f["saved face"]) if f["saved face"] is not None else (-1,) * 4, draw.to_rgba(kw["background_color"]), 1e-12, **info)
        if kw["plot_components"]:
            ctx.true("four component plots", len(f["lines"]) == 4, **info)
            for (label, lines), want in zip(f["lines"], traj):
                ctx.true("one line", len(lines) == 1, **info)
                x, y = lines[0]
                ctx.true("drawn up to now", j <= len(x) <= j + 1, got=len(x), want=j, label=label, **info)
                ctx.close("times of components", x, lam[:len(x)], 1e-9 * (1 + abs(l0) + abs(l1)), label=label, **info)
                ctx.close("components", y, want[:len(x)], 1e-8 * (1 + np.abs(want[:len(x)])), label=label, **info)
            ctx.true("labels", [q[0] for q in f["lines"]] == ["$t$", "$r$", r"$\theta$", r"$\phi$"], got=[q[0] for q in f["lines"]], **info)
            text = " ".join(f["texts"])
            ctx.true("text", "%.2f" % now in text and str(o.a) in text, got=text, **info)
            shown = ("%s" % o.p, "%s" % o.e, "%.3f" % o.x) if o.stable else ("%.3f" % o.E, "%.3f" % o.L, "%.3f" % o.Q)
            ctx.true("parameters in text", all(s in text for s in shown), got=text, want=shown, **info)
        else:
            ctx.true("no component plots", not f["lines"], **info)
        if len(ctx.failures) > bad + 3:
            return
    ctx.outcome("hidden parts" if n_hidden else "all visible")


GROUPS = {"animate": animate}


def plan(tier):
    q = tier == "quick"
    names = list(OPT)
    core = tuple(OPT[n][0][0] for n in names)
    cells = []
    for kind in KINDS:
        axes = [(OPT[n][0][:1], OPT[n][0][1:] + OPT[n][1]) for n in names]
        for c in lattice.product(axes, 1 if q else 2):
            cells.append((kind, tuple((n, v) for n, v in zip(names, c)), False))
        for both in ((("azimuthal_pan", "azim"), ("elevation_pan", "elev"), ("roll", "rolling"), ("axis_limit", "zoom"), ("tail_length", 0.2), ("speed", 0.25), ("plot_components", True), ("background_color", "black")),):
            d = dict(zip(names, core))
            d.update(dict(both))
            cells.append((kind, tuple(d.items()), True))
        if q and kind == "plunge":
            # every pair of options, on short animations
            axes = [([v[0]], v[1:2]) for v in (OPT[n][0] + OPT[n][1] for n in names)]
            axes[names.index("length")] = ([0.25], [0.4])
            cells += [(kind, tuple(zip(names, c)), False) for c in lattice.product(axes, 2)]
        # long animations, whose tails no longer fit
        cells.append((kind, (("length", 10), ("speed", 8)), False))
        cells.append((kind, (("lambda0", -5), ("length", 10), ("speed", 6), ("tail_length", 1), ("azimuthal_pan", "azim"), ("plot_components", True)), False))
        cells.append((kind, (("lambda0", 300), ("length", 8), ("speed", 8), ("tail_length", 3.5), ("axis_limit", "zoom")), False))
        if not q:
            cells.append((kind, (("length", 10), ("speed", 2)), False))
    return [("animate", cells)]
