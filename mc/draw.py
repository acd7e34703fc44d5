"""Reading what was drawn, from the artists on the axes."""
import numpy as np
from matplotlib.colors import to_rgba
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection


def horizon(a):
    return 1 + np.sqrt(1 - a * a)


def normal(elev, azim):
    e, z = np.radians(elev), np.radians(azim)
    return np.array([np.cos(e) * np.cos(z), np.cos(e) * np.sin(z), np.sin(e)])


def hidden(pts, a, elev, azim):
    """True / False / None (too close to a boundary to call) for each point, from
    the definition: inside the hole, or behind it as seen along the line of sight"""
    pts = np.asarray(pts, float).reshape(-1, 3)
    n, R = normal(elev, azim), horizon(a)
    out = []
    for p in pts:
        rad, h = np.linalg.norm(p), float(p @ n)
        if not np.all(np.isfinite(p)):
            out.append(None)
            continue
        off = np.linalg.norm(np.cross(p, n))
        eps = 1e-9 * (1 + rad)
        if abs(rad - R) < eps:
            out.append(None)
        elif rad < R:
            out.append(True)
        elif abs(off - R) < eps and h < eps:
            out.append(None)
        elif off > R:
            out.append(False)
        elif abs(h) < eps:
            out.append(None)
        else:
            out.append(h < 0)
    return out


def cartesian(r, th, ph):
    return np.column_stack((r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)))


def find(ax, cls):
    return [c for c in ax.collections if type(c) is cls]


def surface_points(ax):
    s = find(ax, Poly3DCollection)
    if len(s) != 1:
        return None
    v = getattr(s[0], "_faces", None)
    if v is None:
        v = s[0]._vec[:3].T
    v = np.ma.getdata(np.asarray(v, float)).reshape(-1, 3)
    return v


def segments(line):
    s = line._segments3d
    return np.array([np.ma.filled(np.ma.asarray(np.asarray(q, float)), np.nan) for q in s], float).reshape(-1, 2, 3)


def limits(ax):
    return np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()], float)


def marker(ax):
    s = find(ax, Path3DCollection)
    if len(s) != 1:
        return None
    return np.array([np.asarray(q, float).ravel() for q in s[0]._offsets3d], float).T


__all__ = ["to_rgba", "Line3DCollection", "Path3DCollection", "Poly3DCollection"]


FAKE = """#!%s
import sys
a = sys.argv[1:]
if len(a) > 2:
    n = 0
    while True:
        b = sys.stdin.buffer.read(1 << 16)
        if not b:
            break
        n += len(b)
    with open(a[-1], "w") as fh:
        fh.write(repr(a) + "\\n%%d" %% n)
else:
    print("ffmpeg version stand-in")
"""


def record(o, kw, snapshot):
    """animate with an encoder that swallows the frames; what every frame showed,
    the figures, and what the encoder was told"""
    import os
    import stat
    import sys
    import tempfile

    import matplotlib as mpl
    import matplotlib.figure

    frames, figures = [], []
    original = matplotlib.figure.Figure.savefig

    def savefig(fig, target, *a, **k):
        if not hasattr(target, "write"):
            return original(fig, target, *a, **k)
        frames.append(snapshot(fig, k))
        if fig not in figures:
            figures.append(fig)
        target.write(b"frame")

    with tempfile.TemporaryDirectory(prefix="mc-anim.") as tmp:
        fake = os.path.join(tmp, "ffmpeg")
        with open(fake, "w") as fh:
            fh.write(FAKE % sys.executable)
        os.chmod(fake, stat.S_IRWXU)
        path = os.path.join(tmp, "orbit.mp4")
        matplotlib.figure.Figure.savefig = savefig
        old = mpl.rcParams["animation.ffmpeg_path"]
        mpl.rcParams["animation.ffmpeg_path"] = fake
        try:
            o.animate(path, **kw)
        finally:
            matplotlib.figure.Figure.savefig = original
            mpl.rcParams["animation.ffmpeg_path"] = old
        written = open(path).read() if os.path.exists(path) else None
    return frames, figures, written
