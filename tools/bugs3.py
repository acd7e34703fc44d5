"""third set of planted changes, written from the properties' text with the checks set aside"""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("B47", "C13", "an initial velocity with a large time component, near the horizon or very fast",
    "the tolerance on the norm grows with the size of the velocity, so velocities that are not normalized are accepted",
    [("orbit.py", "        if abs(initial_norm + 1) > 1e-6:\n", "        if abs(initial_norm + 1) > 1e-6 * max(1, initial_velocity[0] ** 4):\n")],
    """
from kerrgeopy import Orbit, PlungingOrbit
o = PlungingOrbit(0.9, 0.94, 0.1, 12.0, initial_phases=(0, 3.9, 0.3, 0))
x, u = list(o.initial_position), list(o.initial_velocity)
tried = 0
for k in range(2000):
    f = [g(0.001 * k) for g in o.trajectory()]
    v = [g(0.001 * k) for g in o.four_velocity()]
    if 1.5 < f[1] < 1.7 and v[2] > 0.05:
        tried += 1
        v[2] += 1e-4
        try:
            Orbit(0.9, tuple(f), tuple(v))
        except ValueError:
            continue
        raise SystemExit("accepted %r %r" % (f, v))
assert tried
""")

bug("B49", "C20", "a camera that looks from beyond the pole, elevation above 90 degrees",
    "elevations are limited to a quarter turn when deciding what is hidden, while the plot is still turned further",
    [("orbit.py", "        elevation_rad = elevation * pi / 180\n", "        elevation_rad = np.clip(elevation, -90, 90) * pi / 180\n")],
    """
import numpy as np
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.2, 0.8)
pts = np.array([[5.0, 0.2, 0.1], [-5.0, 0.2, 0.1], [0.1, 0.1, -5.0], [3.0, 0.0, -3.0], [-3.0, 0.0, -3.0]])
for el, az in ((120, 0), (150, 40), (-110, 10), (180, 0), (60, 30)):
    a = o.is_visible(pts, el, az)
    b = o.is_visible(pts, 180 - el, az + 180)
    assert np.array_equal(a, b), (el, az, a, b)
""")

bug("B50", "C21", "an animation with a camera, limit or roll that moves with time, or time stamps",
    "the Mino time of a frame is taken from its number, which does not quite agree with the times at which the orbit was computed",
    [("orbit.py", "                current_time = time[j]\n", "                current_time = lambda0 + j / point_density\n")],
    """
import numpy as np, matplotlib
matplotlib.use("Agg")
import kerrgeopy.orbit as orbit
from kerrgeopy import StableOrbit
seen = []
class Fake:
    def __init__(self, fig, func, frames, fargs=()):
        self.a = (func, frames, fargs)
    def save(self, *args, **kw):
        func, frames, fargs = self.a
        for i in range(frames):
            func(i, *fargs)
orbit.FuncAnimation = Fake
orbit.FFMpegWriter = lambda **kw: None
orbit.tqdm = lambda *a, **k: __import__("contextlib").nullcontext(type("P", (), {"update": lambda self, n: None})())
o = StableOrbit(0.9, 6, 0.2, 0.8)
o.animate("x.mp4", lambda0=2.0, lambda1=2.5, azimuthal_pan=lambda t: seen.append(t) or 0.0)
want = np.linspace(2.0, 2.5, 120)[::8]
assert np.allclose(seen, want, rtol=0, atol=1e-6), (seen[-1], want[-1])
""")

bug("B51", "C05", "a plunge whose complex pair of roots nearly coincides",
    "a pair of complex roots with a small imaginary part is taken for two real roots",
    [("constants.py", "    real_roots = np.sort(np.real(roots[np.isreal(roots)]))\n    complex_roots = roots[np.iscomplex(roots)]\n",
      "    nearly_real = abs(roots.imag) < 1e-3\n    real_roots = np.sort(np.real(roots[nearly_real]))\n    complex_roots = roots[~nearly_real]\n")],
    """
import numpy as np
from kerrgeopy import constants_of_motion, separatrix
from kerrgeopy.constants import plunging_radial_roots
a, e, x = 0.9, 0.3, 0.7
p = separatrix(a, e, x)
E, L, Q = constants_of_motion(a, p * (1 + 1e-12), e, x)
n = 0
for d in (1e-8, 1e-7, 1e-6):
    l = L * (1 - d)
    c = [E * E - 1, 2, a * a * (E * E - 1) - l * l - Q, 2 * ((a * E - l) ** 2 + Q), -a * a * Q]
    w = np.roots(c)
    if 1e-7 < max(abs(w.imag)) < 9e-4:
        n += 1
        r = plunging_radial_roots(a, E, l, Q)
        assert np.iscomplex(r[2]) and np.iscomplex(r[3]), r
        assert np.isreal(r[0]) and np.isreal(r[1]), r
assert n
""")

bug("B53", "C12", "an event exactly at the outer turning point of the inner well",
    "rounding errors at the end of the inner well are no longer forgiven",
    [("initial_conditions.py", "    if (r2 > r_minus) & (r0 <= r3 + tol) & (r0 >= r4 - tol):\n", "    if (r2 > r_minus) & (r0 < r3) & (r0 > r4):\n")],
    """
import numpy as np
from kerrgeopy import Orbit, PlungingOrbit, constants_of_motion
from kerrgeopy.constants import plunging_radial_roots
for a, p, e, x in ((0.9, 5.0, 0.3, 0.7), (0.5, 9.0, 0.5, -0.6), (0.7, 8.0, 0.2, 0.9), (0.9, 4.0, 0.1, 0.9)):
    E, L, Q = constants_of_motion(a, p, e, x)
    o = PlungingOrbit(a, E, L, Q, initial_phases=(0, np.pi, 0.4, 0))
    q = Orbit(a, o.initial_position, o.initial_velocity)
    assert not q.stable
    for s in (1e-9, -1e-9):
        q = Orbit(a, (0, o.initial_position[1] + s) + tuple(o.initial_position[2:]), o.initial_velocity)
        assert not q.stable
""")

bug("B54", "C14", "trajectory deltas asked for vanishing phases of an orbit that has others",
    "vanishing phases are taken for missing ones",
    [("stable.py", """        if initial_phases is None:
            initial_phases = self.initial_phases
        q_t0, q_r0, q_theta0, q_phi0 = initial_phases

        constants""", """        if initial_phases is None or not any(initial_phases):
            initial_phases = self.initial_phases
        q_t0, q_r0, q_theta0, q_phi0 = initial_phases

        constants""")],
    """
from kerrgeopy import StableOrbit
a = StableOrbit(0.9, 6, 0.2, 0.8, initial_phases=(0, 1, 2, 0)).trajectory_deltas((0, 0, 0, 0))
b = StableOrbit(0.9, 6, 0.2, 0.8).trajectory_deltas()
for f, g in zip(a, b):
    assert abs(f(0.3) - g(0.3)) < 1e-12, (f(0.3), g(0.3))
""")

bug("B55", "C11", "a numerical four-velocity with another step than the default",
    "the azimuthal difference is divided by the default step",
    [("orbit.py", "                + phi(mino_time - 2 * dx)\n            ) / (12 * dx * sigma)\n", "                + phi(mino_time - 2 * dx)\n            ) / (12e-6 * sigma)\n")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.2, 0.8)
u = [f(0.4) for f in o.four_velocity()]
for dx in (1e-6, 1e-5, 1e-4):
    v = [f(0.4) for f in o.numerical_four_velocity(dx=dx)]
    assert all(abs(p - q) < 1e-4 for p, q in zip(u, v)), (dx, u, v)
""")

bug("B56", "C17", "an array of phases in column-major order",
    "the radius is computed on the flattened array in memory order and put back in the other order",
    [("stable.py", """        sn, cn, dn, psi_r = ellipj(u_r, k_r**2)
        return (r3 * (r1 - r2) * sn**2 - r2 * (r1 - r3)) / ((r1 - r2) * sn**2 - (r1 - r3))
""", """        flat = np.ravel(u_r, order="K")
        sn, cn, dn, psi_r = ellipj(flat, k_r**2)
        radius = (r3 * (r1 - r2) * sn**2 - r2 * (r1 - r3)) / ((r1 - r2) * sn**2 - (r1 - r3))
        return radius.reshape(np.shape(u_r))[()]
""")],
    """
import numpy as np
from kerrgeopy import StableOrbit
r = StableOrbit(0.9, 6, 0.2, 0.8).trajectory()[1]
lam = np.linspace(0, 1, 6).reshape(2, 3)
assert np.allclose(r(lam), [[r(v) for v in w] for w in lam])
assert np.allclose(r(np.asfortranarray(lam)), r(lam))
assert np.allclose(r(lam.T), r(lam).T)
""")

bug("B57", "C18", "orbits around a hole without spin whose spin is given once as zero and once as minus zero",
    "angular momenta are memorised for arguments that compare equal, although the sign of a vanishing spin matters",
    [("constants.py", "def angular_momentum(a, p, e, x, E=None):\n", "@lru_cache(maxsize=None)\ndef angular_momentum(a, p, e, x, E=None):\n"),
     ("constants.py", "from scipy.optimize import root_scalar\n", "from scipy.optimize import root_scalar\nfrom functools import lru_cache\n")],
    """
from kerrgeopy import angular_momentum
a = angular_momentum(0.0, 10, 0.1, 0.5)
b = angular_momentum(-0.0, 10, 0.1, 0.5)
assert abs(a + b) < 1e-12 and a > 0, (a, b)
""")

bug("B58", "C19", "two threads evaluating metrics, one interrupted while it fills the matrix",
    "all metrics are assembled in one shared matrix",
    [("spacetime.py", """        # fmt: off
        return np.array(
            [[-(1-2*r/sigma),               0,              0,      -2*a*r*sin(theta)**2/sigma],
             [0,                            sigma/delta,    0,      0],
             [0,                            0,              sigma,  0],
             [-2*a*r*sin(theta)**2/sigma,   0,              0,      sin(theta)**2*(r**2+a**2+2*a**2*r*sin(theta)**2/sigma)]
             ]
        )
        # fmt: on
""", """        g = _METRIC
        g[0, 0] = -(1 - 2 * r / sigma)
        g[1, 1] = sigma / delta
        g[2, 2] = sigma
        g[0, 3] = g[3, 0] = -2 * a * r * sin(theta) ** 2 / sigma
        g[3, 3] = sin(theta) ** 2 * (r**2 + a**2 + 2 * a**2 * r * sin(theta) ** 2 / sigma)
        return g.copy()
"""), ("spacetime.py", "class KerrSpacetime:\n", "_METRIC = np.zeros((4, 4))\n\n\nclass KerrSpacetime:\n")],
    """
import sys, threading
import numpy as np
import kerrgeopy.spacetime as m
s, u = m.KerrSpacetime(0.9), m.KerrSpacetime(0.2)
want = s.metric(0, 5.0, 1.0, 0)
bad = []
inner = [False]
def tracer(frame, event, arg):
    # between any two lines of the first request another thread makes a complete one
    if frame.f_code.co_name == "metric" and event in ("call", "line") and not inner[0]:
        inner[0] = True
        t = threading.Thread(target=lambda: u.metric(0, 30.0, 0.4, 0))
        t.start(); t.join()
        inner[0] = False
    return tracer
sys.settrace(tracer)
got = s.metric(0, 5.0, 1.0, 0)
sys.settrace(None)
assert np.array_equal(got, want), got - want
""")

bug("B59", "C02", "a semi-latus rectum a little beyond the separatrix",
    "stable orbits must keep a distance from the separatrix",
    [("constants.py", "    if p > separatrix(a, e, x):\n", "    if p - separatrix(a, e, x) > 1e-8:\n")],
    """
from kerrgeopy import separatrix
from kerrgeopy.constants import is_stable
for a, e, x in ((0.9, 0.3, 0.6), (0.5, 0.1, -0.4), (0.0, 0.3, 0.5), (0.7, 0.6, 1.0)):
    p = separatrix(a, e, x)
    assert is_stable(a, p + 2e-9, e, x) and not is_stable(a, p - 2e-9, e, x)
""")

bug("B60", "C03", "a semi-latus rectum that is not a number, or lies exactly on the separatrix",
    "orbits are refused when they are inside the separatrix rather than accepted when they are outside",
    [("frequencies.py", """    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")

    # compute constants if not passed in
""", """    if p < separatrix(a, e, x):
        raise ValueError("Not a stable orbit")

    # compute constants if not passed in
""")],
    """
from kerrgeopy import r_frequency, separatrix
c = (0.95, 3.0, 1.0)
for p in (float("nan"), separatrix(0.9, 0.3, 0.6)):
    try:
        v = r_frequency(0.9, p, 0.3, 0.6, c)
    except ValueError:
        continue
    raise SystemExit("accepted p=%r: %r" % (p, v))
""")

bug("B61", "C15", "a time dilation factor in physical units with a mass other than one",
    "the time dilation factor is scaled with the mass instead of its square",
    [("stable.py", "                time2_in_seconds2(gamma, self.M),\n", "                time_in_seconds(gamma, self.M) * time_in_seconds(1, 1),\n")],
    """
from kerrgeopy import StableOrbit
g = [StableOrbit(0.9, 6, 0.2, 0.8, M=M).mino_frequencies(units="mks")[3] for M in (1, 3)]
assert abs(g[1] / g[0] - 9) < 1e-9, g
""")

bug("B62", "C06", "inclinations of less than half a degree",
    "the elliptic modulus of nearly equatorial orbits is neglected",
    [("frequencies.py", """    # equation 13
    k_theta = sqrt(z_minus / z_plus)
    # simplified form of epsilon0*z_plus
    e0zp = (a**2 * (1 - E**2) * x**2""", """    # equation 13
    k_theta = sqrt(z_minus / z_plus) if z_minus > 1e-4 else 0
    # simplified form of epsilon0*z_plus
    e0zp = (a**2 * (1 - E**2) * x**2""")],
    """
from kerrgeopy import theta_frequency
# the frequency is a smooth function of 1 - x^2
f = lambda z: theta_frequency(0.98, 2.0, 0.1, (1 - z) ** 0.5)
a, b, c = f(0.9e-4), f(1.0e-4 * 1.05), f(1.2e-4)
slope = (c - b) / 0.15e-4
jump = b - a - slope * 0.15e-4
assert abs(jump) < 1e-8, jump
""")

bug("B64", "C04", "from_constants with masses",
    "the smaller mass is dropped when an orbit is made from its constants",
    [("stable.py", "        return cls(a, p, e, x, initial_phases, M, mu)\n", "        return cls(a, p, e, x, initial_phases, M)\n")],
    """
from kerrgeopy import StableOrbit
a = StableOrbit(0.9, 6, 0.2, 0.8, M=10, mu=2)
b = StableOrbit.from_constants(0.9, a.E, a.L, a.Q, M=10, mu=2)
assert b.M == 10 and b.mu == 2
assert abs(b.constants_of_motion(units="mks")[0] / a.constants_of_motion(units="mks")[0] - 1) < 1e-6
""")

bug("B65", "C22", "Mino times before the start of a plunge with a complex pair of roots",
    "the sign of the radial phase is dropped, so the time before the turning point mirrors the time after it",
    [("plunge.py", """        # equation 41
        return (
            E * (r_plus**2 + r_minus**2 + r_plus * r_minus + 2 * a**2) * mino_time
""", """        # equation 41
        return (
            E * (r_plus**2 + r_minus**2 + r_plus * r_minus + 2 * a**2) * abs(mino_time)
""")],
    """
from kerrgeopy import PlungingOrbit
t = PlungingOrbit(0.9, 0.94, 0.1, 12.0).trajectory()[0]
for v in (0.05, 0.1):
    assert abs(t(v) + t(-v)) < 1e-8, (t(v), t(-v))
""")

