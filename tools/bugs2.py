BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("B25", "C02", "inclinations within 1e-5 of the equatorial plane, but not on it",
    "orbits that are nearly equatorial are given the equatorial separatrix, which is off by far more than rounding",
    [("constants.py", "    if x == 1:\n        return p_equatorial_prograde.root\n", "    if x > 1 - 1e-5:\n        return p_equatorial_prograde.root\n")],
    """
from kerrgeopy.constants import separatrix
a, e = 0.9, 0.4
top = separatrix(a, e, 1)
for d in (1e-2, 1e-3, 1e-4, 8e-6, 3e-6):
    slope = (separatrix(a, e, 1 - d) - top) / d
    assert 1 < slope < 20, (d, slope)
""")

bug("B26", "C03", "an eccentricity or inclination that is not a number",
    "the domain test rejects what lies outside instead of accepting what lies inside, so a nan passes",
    [("constants.py", "    if (0 <= a <= 1) and (0 <= e <= 1) and (-1 <= x <= 1):\n        return True\n    return False\n",
      "    return not (a < 0 or a > 1 or e < 0 or e > 1 or abs(x) > 1)\n")],
    """
from kerrgeopy.constants import valid_params, separatrix
nan = float('nan')
assert valid_params(0.5, 0.2, 0.3) and not valid_params(0.5, 1.2, 0.3) and not valid_params(-0.5, 0.2, 0.3)
assert not valid_params(0.5, nan, 0.3) and not valid_params(0.5, 0.2, nan) and not valid_params(nan, 0.2, 0.3)
try:
    v = separatrix(0.0, nan, 0.3)
except ValueError:
    pass
else:
    raise SystemExit("nan eccentricity gave %r" % v)
""")

bug("B27", "C06", "orbits close to the separatrix, where the parameter of the elliptic integral is close to its pole",
    "the characteristic is kept away from its pole, so the time dilation factor is wrong for orbits about to plunge",
    [("frequencies.py", """    h_r = (r1 - r2) / (r1 - r3)

    # equation 13
    k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
    k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))

    # equation 21
    return (
        4 * E
        + 2
        * a2sqrt_zp_over_e0
        * E
        * upsilon_theta
        * (ellipk(k_theta**2) - ellipe(k_theta**2))
        / (pi * L)
        + 2
        * upsilon_r
        / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
        * (
            E
            / 2
            * (
                (r3 * (r1 + r2 + r3) - r1 * r2) * ellipk(k_r**2)
                + (r2 - r3) * (r1 + r2 + r3 + r4) * _ellippi(h_r, k_r**2)
                + (r1 - r3) * (r2 - r4) * ellipe(k_r**2)
            )
            + 2 * E * (r3 * ellipk(k_r**2) + (r2 - r3) * _ellippi(h_r, k_r**2))
            + 2
            / (r_plus - r_minus)
            * (
                ((4 * E - a * L) * r_plus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
            )
        )
    )


def mino_frequencies(""", """    # stay clear of the pole of the elliptic integrals
    h_r = min((r1 - r2) / (r1 - r3), 0.999)

    # equation 13
    k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
    k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))

    # equation 21
    return (
        4 * E
        + 2
        * a2sqrt_zp_over_e0
        * E
        * upsilon_theta
        * (ellipk(k_theta**2) - ellipe(k_theta**2))
        / (pi * L)
        + 2
        * upsilon_r
        / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
        * (
            E
            / 2
            * (
                (r3 * (r1 + r2 + r3) - r1 * r2) * ellipk(k_r**2)
                + (r2 - r3) * (r1 + r2 + r3 + r4) * _ellippi(h_r, k_r**2)
                + (r1 - r3) * (r2 - r4) * ellipe(k_r**2)
            )
            + 2 * E * (r3 * ellipk(k_r**2) + (r2 - r3) * _ellippi(h_r, k_r**2))
            + 2
            / (r_plus - r_minus)
            * (
                ((4 * E - a * L) * r_plus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
            )
        )
    )


def mino_frequencies(""")],
    """
# the factor is the average of dt/dlambda: compare with the trajectory over many radial periods
import kerrgeopy as kg
from kerrgeopy.constants import separatrix
a, e, x = 0.9, 0.6, 0.6
for d in (0.5, 1e-2, 1e-4):
    p = separatrix(a, e, x) * (1 + d)
    ur, ut, uf, g = kg.mino_frequencies(a, p, e, x)
    E, L, Q = kg.constants_of_motion(a, p, e, x)
    r1, r2, r3, r4 = kg.stable_radial_roots(a, p, e, x)
    z = np.linspace(0, 2 * np.pi, 200001)[:-1]
    r = (r1 + r2) / 2 - (r1 - r2) / 2 * np.cos(z)
    w = 1 / np.sqrt((1 - E * E) * (r - r3) * (r - r4))
    D = r * r - 2 * r + a * a
    T = (r * r + a * a) * (E * (r * r + a * a) - a * L) / D
    zm, zp = kg.stable_polar_roots(a, p, e, x)
    c2 = zm * np.cos(z) ** 2
    v = 1 / np.sqrt(a * a * (1 - E * E) * (zp - c2))
    want = (T * w).sum() / w.sum() + ((a * L - a * a * E * (1 - c2)) * v).sum() / v.sum()
    assert abs(g / want - 1) < 1e-6, (d, g, want)
""")

bug("B28", "C15", "a retrograde orbit asked for its frequencies in millihertz",
    "the azimuthal frequency loses its sign in that one unit",
    [("stable.py", "                frequency_in_mHz(upsilon_phi / gamma, self.M),\n", "                abs(frequency_in_mHz(upsilon_phi / gamma, self.M)),\n")],
    """
import kerrgeopy as kg
for x in (0.7, -0.7):
    o = kg.StableOrbit(0.5, 12, 0.3, x, M=1e6, mu=10)
    a, b = o.fundamental_frequencies("mHz"), o.fundamental_frequencies("mks")
    assert np.allclose(a, np.array(b) * 1e3, rtol=1e-12), (a, b)
""")

bug("B29", "C10", "a plunge started from a radial phase outside one turn",
    "the normalisation of t and phi at the start uses the phase modulo one turn although the radial parts of plunges grow with it",
    [("plunge.py", """    # Calculate normalization constants so that t = 0 and phi = 0 at lambda = 0 when q_t0 = 0 and q_phi0 = 0
    C_t = t_r(q_r0) + t_theta(q_theta0)
    C_phi = phi_r(q_r0) + phi_theta(q_theta0)

    def t(mino_time):
        return time_conversion_func[time_units](
            t_r(upsilon_r""", """    # Calculate normalization constants so that t = 0 and phi = 0 at lambda = 0 when q_t0 = 0 and q_phi0 = 0
    q_start = q_r0 % (2 * pi)
    C_t = t_r(q_start) + t_theta(q_theta0)
    C_phi = phi_r(q_start) + phi_theta(q_theta0)

    def t(mino_time):
        return time_conversion_func[time_units](
            t_r(upsilon_r""")],
    """
import kerrgeopy as kg
for q in (0.4, 3.0, 7.0, -1.0):
    o = kg.PlungingOrbit(0.9, 0.94, 0.1, 12, initial_phases=(1.0, q, 0.3, 2.0))
    t, r, th, ph = o.trajectory()
    assert abs(t(0) - 1.0) < 1e-8 and abs(ph(0) - 2.0) < 1e-8, (q, t(0), ph(0))
""")

bug("B30", "C11", "velocities where the polar phase is negative",
    "the sense of the polar motion is read from the remainder of the phase, taken with the sign of the dividend",
    [("spacetime.py", "                np.copysign(1, sin(q_theta))\n", "                np.where(np.fmod(q_theta, 2 * np.pi) < np.pi, 1.0, -1.0)\n")],
    """
import kerrgeopy as kg
o = kg.StableOrbit(0.7, 10, 0.3, 0.6)
u = o.four_velocity()
n = o.numerical_four_velocity()
for l in (0.3, 1.1, 2.9, -0.3, -0.9, -2.2):
    assert abs(u[2](l) - n[2](l)) < 1e-5, (l, u[2](l), n[2](l))
""")

bug("B31", "C12", "an event close to, but not on, a turning point of an orbit far from the hole",
    "the tolerance for turning points is taken relative to the radius, so events of distant orbits are moved to the turning point",
    [("initial_conditions.py", "    elif abs(r0 - r1) < tol:\n", "    elif abs(r0 - r1) < tol * r1:\n")],
    """
import kerrgeopy as kg
s = kg.StableOrbit(0.5, 200, 0.4, 0.7, initial_phases=(0, np.pi - 0.012, 1.0, 0))
o = kg.Orbit(0.5, s.initial_position, s.initial_velocity)
l = 0.02
assert abs(o.trajectory()[1](l) - s.trajectory()[1](l)) < 1e-3, (o.initial_phases, s.initial_phases)
""")

bug("B32", "C12", "a plunge inside the inner well of four real roots, given by an event, with its roots recomputed",
    "the ordering of the roots chosen for plunges is not handed on, so the phases are those of the outer orbit",
    [("initial_conditions.py", "            constants=constants,\n            radial_roots=radial_roots,\n            tol=tol,\n", "            constants=constants,\n            tol=tol,\n")],
    """
import kerrgeopy as kg
E, L, Q = kg.constants_of_motion(0.9, 8, 0.3, 0.7)
g = kg.PlungingOrbit(0.9, E, L, Q, initial_phases=(0, 2.2, 1.0, 0))
assert not np.iscomplex(kg.plunging_radial_roots(0.9, E, L, Q)).any()
o = kg.Orbit(0.9, g.initial_position, g.initial_velocity)
assert abs(o.initial_phases[1] - 2.2) < 1e-5, o.initial_phases
""")


bug("B34", "C14", "trajectory deltas of a plunge made from initial conditions, with overriding phases",
    "the quarter turn between the two conventions for the polar phase is applied to the orbit's own phases only",
    [("orbit.py", "                q_theta0 = q_theta0 + pi / 2\n", "                if initial_phases is self.initial_phases:\n                    q_theta0 = q_theta0 + pi / 2\n")],
    """
import kerrgeopy as kg
g = kg.PlungingOrbit(0.9, 0.94, 0.1, 12, initial_phases=(0, 2.2, 1.0, 0))
o = kg.Orbit(0.9, g.initial_position, g.initial_velocity)
ph = (0, 1.2, 2.0, 0)
for over in (None, ph):
    kw = {} if over is None else {"initial_phases": over}
    d = o.trajectory_deltas(**kw)
    f = o.trajectory(**kw)[3]
    l = 0.4
    got = d[2](o.upsilon_r * l) - d[2](0) + d[3](o.upsilon_theta * l) - d[3](0)
    assert abs(got - (f(l) - f(0))) < 1e-6, (over, got, f(l) - f(0))
""")

bug("B35", "C18", "two spacetimes of different spin asked for the same separatrix",
    "values of the separatrix are remembered by eccentricity and inclination for all spacetimes together",
    [("spacetime.py", "        return separatrix(self.a, e, x)\n", "        key = (e, x)\n        if key not in self._separatrices:\n            self._separatrices[key] = separatrix(self.a, e, x)\n        return self._separatrices[key]\n"),
     ("spacetime.py", "    def __init__(self, a, M=None):\n", "    # separatrix values that have been computed already\n    _separatrices = {}\n\n    def __init__(self, a, M=None):\n")],
    """
import kerrgeopy as kg
from kerrgeopy.constants import separatrix
for a in (0.9, 0.5):
    assert abs(kg.KerrSpacetime(a).separatrix(0.3, 0.6) - separatrix(a, 0.3, 0.6)) < 1e-9, a
""")

bug("B36", "C17", "an array of times that cannot be written to, or one that is looked at afterwards",
    "the numerical velocity moves the caller's array back and forth in place",
    [("orbit.py", """        def u_t(mino_time):
            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
            return (
                -t(mino_time + 2 * dx)
                + 8 * t(mino_time + dx)
                - 8 * t(mino_time - dx)
                + t(mino_time - 2 * dx)
            ) / (12 * dx * sigma)
""", """        def u_t(mino_time):
            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
            mino_time += 2 * dx
            difference = -t(mino_time)
            mino_time -= dx
            difference += 8 * t(mino_time)
            mino_time -= 2 * dx
            difference -= 8 * t(mino_time)
            mino_time -= dx
            difference += t(mino_time)
            mino_time += 2 * dx
            return difference / (12 * dx * sigma)
""")],
    """
import kerrgeopy as kg
o = kg.StableOrbit(0.7, 10, 0.3, 0.6)
u = o.numerical_four_velocity()
l = np.array([0.1, 0.7, 1.3]); l.setflags(write=False)
got = u[0](l)
assert abs(got - o.four_velocity()[0](l)).max() < 1e-4
""")

bug("B37", "C19", "two threads asking for velocities around holes of different spin, one interrupted between setting the spin and using it",
    "one spacetime object is shared by all orbits and adjusted to the spin before each use",
    [("orbit.py", "        spacetime = KerrSpacetime(self.a)\n        constants = self.E, self.L, self.Q\n\n        return spacetime.four_velocity(\n",
      "        spacetime = _spacetime\n        spacetime.a = self.a\n        constants = self.E, self.L, self.Q\n\n        return spacetime.four_velocity(\n"),
     ("orbit.py", "class Orbit:\n", "_spacetime = KerrSpacetime(0)\n\n\nclass Orbit:\n")],
    """
import sys, threading
import kerrgeopy as kg
a = kg.StableOrbit(0.9, 10, 0.3, 0.6)
b = kg.StableOrbit(0.1, 10, 0.3, 0.6)
want = a.four_velocity()[3](0.7)
# interrupt a's request at every line of four_velocity by a complete request of b
src = kg.orbit.Orbit.four_velocity.__code__
lines = sorted({l for _, _, l in src.co_lines() if l})
for stop in lines:
    hit = []
    def trace(frame, event, arg):
        if frame.f_code is not src:
            return None
        def local(frame, event, arg):
            if event == "line" and frame.f_lineno == stop and frame.f_locals.get("self") is a and not hit:
                hit.append(1)
                th = threading.Thread(target=b.four_velocity)
                th.start(); th.join()
            return local
        return local
    sys.settrace(trace)
    try:
        u = a.four_velocity()
    finally:
        sys.settrace(None)
    assert abs(u[3](0.7) - want) < 1e-12, (stop, u[3](0.7), want)
""")

bug("B38", "C20", "a plot that does not begin at Mino time zero",
    "the width of the line decays from Mino time zero instead of from the end of the interval",
    [("orbit.py", "        decay = np.flip(0.1 + lw * np.exp(-(time - time[0]) / tau))\n", "        decay = np.flip(0.1 + lw * np.exp(-np.abs(time) / tau))\n")],
    """
import matplotlib
matplotlib.use("Agg")
import kerrgeopy as kg
from mpl_toolkits.mplot3d.art3d import Line3DCollection
o = kg.StableOrbit(0.7, 10, 0.3, 0.6)
w = []
for l0 in (0, 7):
    fig, ax = o.plot(l0, l0 + 2, tau=1, lw=2, point_density=50)
    c = [q for q in ax.collections if isinstance(q, Line3DCollection)][0]
    w.append(np.array(c.get_linewidth()))
assert np.allclose(w[0], w[1], atol=1e-9), (w[0][-1], w[1][-1])
""")

bug("B39", "C21", "an animation with a moving elevation",
    "what the hole hides is decided for the initial elevation, not for that of the frame",
    [("orbit.py", "                    trajectory[j0:j], updated_elevation, updated_azimuth\n", "                    trajectory[j0:j], elevation, updated_azimuth\n")],
    """
import matplotlib
matplotlib.use("Agg")
import kerrgeopy as kg
import kerrgeopy.orbit as ko
seen = []
real = ko.Orbit.is_visible
def spy(self, pts, el, az):
    seen.append((float(el), float(az)))
    return real(self, pts, el, az)
class Stand:
    def __init__(self, fig, draw, n, fargs=()):
        self.draw, self.n, self.fargs = draw, n, fargs
    def save(self, *a, **k):
        for i in range(self.n):
            self.draw(i, *self.fargs)
ko.Orbit.is_visible, ko.FuncAnimation, ko.FFMpegWriter = spy, Stand, lambda **k: None
kg.StableOrbit(0.7, 10, 0.3, 0.6).animate("x.mp4", 0, 0.5, elevation=10, elevation_pan=lambda t: 80 * t)
want = [80 * t for t in np.linspace(0, 0.5, 120)[::8]]
assert np.allclose([e for e, _ in seen], want[:len(seen)], atol=1e-9), seen[:4]
""")

bug("B40", "C18", "an orbit used after it has been plotted with other phases",
    "plotting with given phases leaves them behind as the orbit's own",
    [("orbit.py", """        lambda_range = lambda1 - lambda0
        num_pts = int(lambda_range * point_density)
""", """        self.initial_phases = initial_phases
        lambda_range = lambda1 - lambda0
        num_pts = int(lambda_range * point_density)
""")],
    """
import matplotlib
matplotlib.use("Agg")
import kerrgeopy as kg
o = kg.StableOrbit(0.7, 10, 0.3, 0.6)
before = o.trajectory()[1](0.4)
o.plot(0, 1, initial_phases=(0, 2, 1, 0), point_density=20)
assert abs(o.trajectory()[1](0.4) - before) < 1e-12
""")

bug("B41", "C18", "two separatrix requests whose parameters agree to six digits",
    "results are remembered under rounded parameters, so the answer of an earlier request is given to a later, slightly different one",
    [("constants.py", "    if a == 0:\n        return 6 + 2 * e\n\n    polar_bracket = [1 + sqrt(3) + sqrt(3 + 2 * sqrt(3)), 8]\n    p_polar = root_scalar(_S_polar, args=(a, e), bracket=polar_bracket)\n",
      "    if a == 0:\n        return 6 + 2 * e\n\n    polar_bracket = [1 + sqrt(3) + sqrt(3 + 2 * sqrt(3)), 8]\n    key = round(float(a), 6), round(float(e), 6)\n    if key not in _polar:\n        _polar[key] = root_scalar(_S_polar, args=(a, e), bracket=polar_bracket)\n    p_polar = _polar[key]\n"),
     ("constants.py", "def separatrix(a, e, x):\n", "# polar separatrix by spin and eccentricity\n_polar = {}\n\n\ndef separatrix(a, e, x):\n")],
    """
from kerrgeopy.constants import separatrix
u = separatrix(0.5, 0.2, 0)
v = separatrix(0.5, 0.2 + 4e-7, 0)
assert v - u > 1e-7, (u, v)
""")


bug("B43", "C16", "the velocity of an equatorial or inclined geodesic of a hole of negative spin",
    "the azimuthal velocity uses the magnitude of the spin in the frame dragging term",
    [("spacetime.py", "                    a / delta * (E * (r(time) ** 2 + a**2) - a * L)\n", "                    abs(a) / delta * (E * (r(time) ** 2 + a**2) - a * L)\n")],
    """
import kerrgeopy as kg
o = kg.PlungingOrbit(-0.9, 0.94, 0.1, 12)
t, r, th, ph = o.trajectory()
u = o.four_velocity()
l = 0.2
n = kg.KerrSpacetime(-0.9).norm(t(l), r(l), th(l), ph(l), [f(l) for f in u])
assert abs(n + 1) < 1e-6, n
""")


