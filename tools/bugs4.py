"""fourth set of planted changes, written from the properties' text with the checks set aside"""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("B67", "C03", "the polar frequency of an orbit around a hole without spin, inside the separatrix",
    "the shortcut without spin answers before the orbit is known to be stable",
    [("frequencies.py", """    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")

    # Schwarzschild case
    if a == 0:
        return p / sqrt(-3 - e**2 + p) * (sign(x) if e == 0 else 1)

    # compute constants if not provided
""", """    # Schwarzschild case
    if a == 0:
        return p / sqrt(-3 - e**2 + p) * (sign(x) if e == 0 else 1)

    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")

    # compute constants if not provided
""")],
    """
from kerrgeopy import theta_frequency
assert abs(theta_frequency(0, 8, 0.3, 0.5) - 8 / (8 - 3 - 0.09) ** 0.5) < 1e-9
for p in (6.5, 5.0, 3.2, 1.0):
    try:
        v = theta_frequency(0, p, 0.3, 0.5)
    except ValueError:
        continue
    raise SystemExit("answered %r for p = %r" % (v, p))
""")

bug("B68", "C11", "the numerical four-velocity with a step that is not tiny",
    "the polar component is differenced with a scheme of lower order, which rounding hides at the default step",
    [("orbit.py", """            return (
                -theta(mino_time + 2 * dx)
                + 8 * theta(mino_time + dx)
                - 8 * theta(mino_time - dx)
                + theta(mino_time - 2 * dx)
            ) / (12 * dx * sigma)
""", """            return (theta(mino_time + dx) - theta(mino_time - dx)) / (2 * dx * sigma)
""")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.7, 10, 0.2, 0.5)
u, v = o.four_velocity(), o.numerical_four_velocity(dx=5e-3)
for lam in (0.1, 0.4, 1.1, 2.3):
    for f, g in zip(u, v):
        assert abs(f(lam) - g(lam)) < 3e-6 * (abs(f(lam)) + 1e-2), (lam, f(lam), g(lam))
""")

bug("B69", "C12", "an event on a wide orbit a small fraction of its radius away from periapsis",
    "the tolerance within which an event counts as the turning point grows with the radius",
    [("initial_conditions.py", "    elif abs(r0 - r1) < tol:\n", "    elif abs(r0 - r1) < tol * r0:\n")],
    """
from kerrgeopy import StableOrbit, Orbit
o = StableOrbit(0.9, 900, 0.4, 0.6)
lam = (np.pi - 0.008) / o.upsilon_r
x, u = [f(lam) for f in o.trajectory()], [f(lam) for f in o.four_velocity()]
r = Orbit(0.9, x, u)
assert abs(r.trajectory()[1](0) - x[1]) < 1e-5 * x[1] and abs(r.trajectory()[1](0.001) - o.trajectory()[1](lam + 0.001)) < 1e-5 * x[1]
assert abs(r.initial_phases[1] - (np.pi - 0.008)) < 1e-4, r.initial_phases
""")

bug("B70", "C12", "an event on a nearly polar orbit while it passes close to the axis",
    "polar turning points are recognised by the cosine of the angle, which hardly changes near the axis",
    [("initial_conditions.py", "    if abs(theta0 - theta_min) < tol:\n", "    if abs(cos(theta0) - cos(theta_min)) < tol:\n")],
    """
from kerrgeopy import StableOrbit, Orbit
o = StableOrbit(0.9, 9, 0.4, 0.05)
lam = 0.01 / o.upsilon_theta
x, u = [f(lam) for f in o.trajectory()], [f(lam) for f in o.four_velocity()]
r = Orbit(0.9, x, u)
assert abs(r.initial_phases[2] - 0.01) < 1e-4, r.initial_phases
t = r.trajectory()
for s in (0.0, 0.3, 1.0):
    assert abs(t[2](s) - o.trajectory()[2](lam + s)) < 1e-4
""")

bug("B71", "C15", "physical times but natural distances for a plunge with four real roots and no masses",
    "masses are missed only if both units are physical",
    [("plunge.py", """    if ((distance_units != "natural") or (time_units != "natural")) and M is None:
        raise ValueError("M must be specified to convert to physical units")

    constants = (E, L, Q)
""", """    if (distance_units != "natural") and (time_units != "natural") and M is None:
        raise ValueError("M must be specified to convert to physical units")

    constants = (E, L, Q)
""")],
    """
from kerrgeopy import PlungingOrbit
for C in ((0.9, 0.94, 0.1, 12.0), (0.9, 0.97, -0.5, 16.0), (0.5, 0.97, 3.9, 1.0), (0.9, 0.9, 1.5, 3.0)):
    o = PlungingOrbit(*C)
    for kw in ({"distance_units": "mks"}, {"time_units": "days"}, {"distance_units": "km", "time_units": "mks"}):
        try:
            o.trajectory(**kw)
        except ValueError:
            continue
        raise SystemExit("no ValueError for %r" % kw)
""")

bug("B72", "C20", "a plot with a fading tail that does not start at Mino time zero",
    "the fading is counted from Mino time zero instead of the end of the plot",
    [("orbit.py", "        decay = np.flip(0.1 + lw * np.exp(-(time - time[0]) / tau))\n", "        decay = np.flip(0.1 + lw * np.exp(-abs(time) / tau))\n")],
    """
import matplotlib
matplotlib.use("Agg")
from kerrgeopy import StableOrbit
import matplotlib.pyplot as plt
o = StableOrbit(0.9, 6, 0.2, 0.8)
w = []
for l0 in (0, 2, -3):
    fig, ax = o.plot(lambda0=l0, lambda1=l0 + 1, tau=0.5)
    w.append([c for c in ax.collections if type(c).__name__ == "Line3DCollection"][0].get_linewidth())
    plt.close(fig)
assert all(np.allclose(v, w[0]) for v in w)
""")

bug("B73", "C02", "the separatrix of exactly polar orbits, to more than a few digits",
    "the root for polar orbits is searched with a loose tolerance",
    [("constants.py", "    p_polar = root_scalar(_S_polar, args=(a, e), bracket=polar_bracket)\n", "    p_polar = root_scalar(_S_polar, args=(a, e), bracket=polar_bracket, method=\"brentq\", xtol=1e-5, rtol=1e-6)\n")],
    """
from kerrgeopy import separatrix
from kerrgeopy.constants import _S_polar
for a in (0.1, 0.3, 0.5, 0.7, 0.9, 0.99):
    for e in (0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9):
        p = separatrix(a, e, 0)
        assert _S_polar(p * (1 - 1e-8), a, e) * _S_polar(p * (1 + 1e-8), a, e) < 0, (a, e)
""")

bug("B74", "C18", "numerical four-velocities with two different steps on one orbit",
    "the step is kept on the orbit, so a later request changes what functions handed out before compute",
    [("orbit.py", """        t, r, theta, phi = self.trajectory(initial_phases)

        def u_t(mino_time):
            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
            return (
                -t(mino_time + 2 * dx)
                + 8 * t(mino_time + dx)
                - 8 * t(mino_time - dx)
                + t(mino_time - 2 * dx)
            ) / (12 * dx * sigma)
""", """        t, r, theta, phi = self.trajectory(initial_phases)
        self._step = dx

        def u_t(mino_time):
            dx = self._step
            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
            return (
                -t(mino_time + 2 * dx)
                + 8 * t(mino_time + dx)
                - 8 * t(mino_time - dx)
                + t(mino_time - 2 * dx)
            ) / (12 * dx * sigma)
""")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.3, 0.5)
u = o.numerical_four_velocity()[0]
v = u(0.3)
o.numerical_four_velocity(dx=0.3)
assert u(0.3) == v, (u(0.3), v)
""")

bug("B75", "C13", "plunges into a slowly spinning hole given by initial conditions",
    "slowly spinning holes are taken for holes without spin and refused",
    [("orbit.py", "            if a == 0:\n                raise", "            if a**2 < 1e-4:\n                raise")],
    """
from kerrgeopy import PlungingOrbit, Orbit
for a in (0.5, 0.02, 0.008, 0.004):
    o = PlungingOrbit(a, 0.95, 1.0, 6.0, initial_phases=(0, 2.0, 1.0, 0))
    r = Orbit(a, o.initial_position, o.initial_velocity)
    assert abs(r.E - 0.95) < 1e-6 and not r.stable
""")

bug("B76", "C21", "an animation whose camera elevation moves",
    "hidden pieces of the tail are found for the elevation at the start",
    [("orbit.py", """                    trajectory[j0:j], updated_elevation, updated_azimuth
""", """                    trajectory[j0:j], elevation, updated_azimuth
""")],
    """
import matplotlib
matplotlib.use("Agg")
import kerrgeopy.orbit as m
from kerrgeopy import StableOrbit
seen = []


class Ani:
    def __init__(self, fig, f, n, fargs):
        self.f, self.n, self.fargs = f, n, fargs

    def save(self, *a, **k):
        for i in range(1, self.n):
            self.f(i, *self.fargs)
            seen.append((i, np.array(self.fargs[1]._segments3d)))


m.FuncAnimation, m.FFMpegWriter = Ani, lambda **k: None
o = StableOrbit(0.998, 3, 0.2, 0.8)
o.animate("x.mp4", lambda1=5, elevation=0, azimuth=0, tail_length=5, elevation_pan=lambda t: 18 * t)
t, r, th, f = o.trajectory()
time = np.linspace(0, 5, 1200)
P = np.column_stack((r(time) * np.sin(th(time)) * np.cos(f(time)), r(time) * np.sin(th(time)) * np.sin(f(time)), r(time) * np.cos(th(time))))
hid = 0
for i, s in seen:
    j = 8 * i
    if j < 2:
        continue
    vis = o.is_visible(P[:j], 18 * time[j], 0)
    hid += (~vis).sum()
    assert np.array_equal(np.isnan(s[:, 0, 2]), ~vis[:-1]), i
assert hid
""")

bug("B77", "C21", "an animation of an orbit that reaches farther in a negative direction than in any positive one",
    "axis limits follow the largest positive coordinate",
    [("orbit.py", """                z_values.max(),
                key=abs,
            )
""", """                z_values.max(),
            )
""")],
    """
import matplotlib
matplotlib.use("Agg")
import kerrgeopy.orbit as m
from kerrgeopy import StableOrbit
seen = []


class Ani:
    def __init__(self, fig, f, n, fargs):
        seen.append(fig.axes[0].get_xlim())

    def save(self, *a, **k):
        pass


m.FuncAnimation, m.FFMpegWriter = Ani, lambda **k: None
for phi in (0.0, np.pi, np.pi / 2, -np.pi / 2):
    o = StableOrbit(0.9, 20, 0.3, 1.0, initial_phases=(0, np.pi, 0, phi))
    o.animate("x.mp4", lambda1=0.2)
assert all(abs(s[1] - seen[0][1]) < 1e-6 for s in seen), seen
""")

bug("B78", "C10", "a retrograde plunge with four real roots",
    "the azimuthal average of such plunges is added with the sign of a prograde one",
    [("frequencies.py", "        upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)\n\n    z_complement", "        upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)\n    if Q == 0:\n        upsilon_theta = abs(upsilon_theta)\n\n    z_complement")],
    """
from kerrgeopy import PlungingOrbit, plunging_radial_roots
n = 0
for C in ((0.9, 0.97, -4.5, 0.0), (0.5, 0.96, -4.0, 0.0), (0.5, 0.97, -4.4, 0.0)):
    n += np.isreal(plunging_radial_roots(*C)).all()
    o = PlungingOrbit(*C, initial_phases=(0, 0.3, 0.2, 0))
    f, u = o.trajectory()[3], o.four_velocity()[3]
    r, th = o.trajectory()[1:3]
    for lam in (0.01, 0.03, 0.06):
        S = r(lam) ** 2 + C[0] ** 2 * np.cos(th(lam)) ** 2
        d = (f(lam + 1e-5) - f(lam - 1e-5)) / 2e-5
        assert abs(d - S * u(lam)) < 1e-4 * (1 + abs(d)), (C, lam, d, S * u(lam))
assert n >= 3, n
""")

bug("B79", "C22", "nearly equatorial orbits, in the limit",
    "the deviation of the polar roots from the equator is dropped when it is below single precision",
    [("constants.py", "    z_minus = 1 - x**2\n    # z_plus", "    z_minus = np.round(1 - x**2, 9)\n    # z_plus")],
    """
from kerrgeopy import StableOrbit, stable_polar_roots
for d in (1e-6, 1e-8, 3e-10, 1e-10):
    z = stable_polar_roots(0.9, 9, 0.3, 1 - d)[0]
    assert abs(z - 2 * d) < 1e-3 * d, (d, z)
""")

bug("B80", "C16", "the norm of a vector given as whole numbers",
    "the metric is brought to the type of the vector",
    [("spacetime.py", "        return np.dot(v, np.dot(self.metric(t, r, theta, phi), v))\n", "        v = np.asarray(v)\n        return np.dot(v, np.dot(self.metric(t, r, theta, phi).astype(v.dtype, copy=False), v))\n")],
    """
from kerrgeopy import KerrSpacetime
s = KerrSpacetime(0.9)
for v in ((1, 0, 0, 0), (2, 1, 0, 0), (0, 1, 1, 1), (3, 0, 1, 0)):
    a, b = s.norm(0, 5, 1.1, 0.2, list(v)), s.norm(0, 5, 1.1, 0.2, [float(q) for q in v])
    assert abs(a - b) < 1e-12, (v, a, b)
""")

bug("B81", "C17", "a request for no times at all, or times in an array of more than two dimensions",
    "polar angles are computed on flattened times",
    [("stable.py", """        sn, cn, dn, ph = ellipj(u_theta, k_theta**2)
        # equation 38
        return arccos(sqrt(z_minus) * sn)
""", """        sn, cn, dn, ph = ellipj(u_theta, k_theta**2)
        # equation 38
        return arccos(sqrt(z_minus) * sn) if np.ndim(sn) < 3 else arccos(sqrt(z_minus) * sn.ravel(order="K")).reshape(sn.shape)
""")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.3, 0.5)
t = np.arange(24.0).reshape(2, 3, 4) / 7
for lam in (t, t.transpose(2, 0, 1), np.asfortranarray(t)):
    for f in o.trajectory():
        assert np.allclose(f(lam).ravel(), [f(v) for v in lam.ravel()])
""")

bug("B82", "C04", "an orbit through the constants of a retrograde orbit whose angular momentum is small",
    "the inclination of orbits with little angular momentum loses its sign",
    [("constants.py", "    x = np.sign(L) * sqrt(1 - z_minus)\n", "    x = (np.sign(L) if abs(L) > 1e-3 else 1) * sqrt(1 - z_minus)\n")],
    """
from kerrgeopy import constants_of_motion, apex_from_constants
for x in (0.5, -0.5, 1e-2, -1e-2, 2e-4, -2e-4):
    y = apex_from_constants(0.9, *constants_of_motion(0.9, 9, 0.3, x))[3]
    assert np.sign(y) == np.sign(x), (x, y)
""")

bug("B84", "C05", "a plunge with four real roots whose third root lies below the origin of the radius but beside the singularity",
    "the wells are told apart at the origin instead of the inner horizon",
    [("constants.py", "        if real_roots[1] > r_minus:\n", "        if real_roots[1] > 0.9 * r_minus:\n")],
    """
from kerrgeopy import plunging_radial_roots
n = 0
for a in (0.9, 0.99, 0.998):
    rm = 1 - np.sqrt(1 - a * a)
    for E in np.linspace(0.3, 0.999, 60):
        for L in np.linspace(-3, 3, 61):
            for Q in (0.01, 0.1, 0.3, 1.0, 3.0):
                c = np.polynomial.Polynomial([-a * a * Q, 2 * (L - a * E) ** 2 + 2 * Q, a * a * (E * E - 1) - L * L - Q, 2, E * E - 1]).roots()
                if np.isreal(c).all() and 0.9 * rm < np.sort(c.real)[1] < rm * 0.999:
                    n += 1
                    w = plunging_radial_roots(a, E, L, Q)
                    assert list(w) == sorted(w, reverse=True), (a, E, L, Q, w)
print(n)
""")
