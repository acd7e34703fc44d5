"""fifth set of planted changes, written from the properties' text with the checks set aside"""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("B85", "C01", "an orbit of small eccentricity, not zero",
    "orbits of small eccentricity are given the energy of the circular one",
    [("constants.py", "    # spherical case\n    if e == 0:\n", "    # spherical case\n    if e < 2e-3:\n")],
    """
from kerrgeopy import constants_of_motion
a, p, e, x = 0.9, 8.0, 1e-3, 0.6
E, L, Q = constants_of_motion(a, p, e, x)
# the radial polynomial vanishes at both turning points
for r in (p / (1 - e), p / (1 + e)):
    D = r * r - 2 * r + a * a
    R = (E * (r * r + a * a) - a * L) ** 2 - D * (r * r + (a * E - L) ** 2 + Q)
    assert abs(R) < 1e-11 * r**4, R
""")

bug("B89", "C07", "known constants given to gamma as an array",
    "known constants are recognised by their truth value",
    [("frequencies.py", """    # compute constants if they are not passed in
    if constants is None:
        constants = constants_of_motion(a, p, e, x)
    E, L, Q = constants
    r1, r2, r3, r4 = stable_radial_roots(a, p, e, x, constants)
    z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
    epsilon0 = a**2 * (1 - E**2) / L**2
    # simplified""", """    # compute constants if they are not passed in
    constants = constants or constants_of_motion(a, p, e, x)
    E, L, Q = constants
    r1, r2, r3, r4 = stable_radial_roots(a, p, e, x, constants)
    z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
    epsilon0 = a**2 * (1 - E**2) / L**2
    # simplified""")],
    """
from kerrgeopy import constants_of_motion, gamma
C = np.array(constants_of_motion(0.9, 8, 0.2, 0.5))
assert abs(gamma(0.9, 8, 0.2, 0.5, C) - gamma(0.9, 8, 0.2, 0.5)) < 1e-9
""")

bug("B90", "C15", "a stable orbit with an initial time, in physical units",
    "the initial time is added after the conversion, in natural units",
    [("stable.py", """        return time_conversion_func[time_units](
            q_t0
            + gamma * mino_time
            + t_r(upsilon_r * mino_time + q_r0)
            + t_theta(upsilon_theta * mino_time + q_theta0)
            - C_t,
            M,
        )
""", """        return q_t0 + time_conversion_func[time_units](
            gamma * mino_time
            + t_r(upsilon_r * mino_time + q_r0)
            + t_theta(upsilon_theta * mino_time + q_theta0)
            - C_t,
            M,
        )
""")],
    """
from kerrgeopy import StableOrbit
from kerrgeopy.units import time_in_seconds
o = StableOrbit(0.9, 6, 0.2, 0.8, initial_phases=(50.0, 0.3, 0.4, 0.5), M=1e6)
t, s = o.trajectory()[0], o.trajectory(time_units="mks")[0]
for lam in (0.0, 1.3, -2.0):
    assert abs(s(lam) - time_in_seconds(t(lam), 1e6)) < 1e-9 * (1 + abs(s(lam)))
""")

bug("B93", "C12", "an event on an inclined orbit exactly in the equatorial plane",
    "motion in the equatorial plane is recognised by the position alone",
    [("initial_conditions.py", """    ) / (1 - cos(theta0) ** 2)

    return E, L, Q
""", """    ) / (1 - cos(theta0) ** 2)
    # remove rounding errors for equatorial orbits
    if abs(cos(theta0)) < 1e-15:
        Q = 0.0

    return E, L, Q
""")],
    """
from kerrgeopy import StableOrbit, Orbit
o = StableOrbit(0.9, 9, 0.3, 0.6)
lam = np.pi / 2 / o.upsilon_theta
x, u = [float(f(lam)) for f in o.trajectory()], [float(f(lam)) for f in o.four_velocity()]
x[2] = np.pi / 2
r = Orbit(0.9, x, u)
assert abs(r.Q - o.Q) < 1e-6, r.Q
""")

bug("B96", "C16", "the separatrix of a spacetime of negative spin",
    "a spacetime of negative spin answers with the separatrix of the opposite orbit",
    [("spacetime.py", "        return separatrix(self.a, e, x)\n", "        return separatrix(abs(self.a), e, x)\n")],
    """
from kerrgeopy import KerrSpacetime, separatrix
try:
    v = KerrSpacetime(-0.9).separatrix(0.2, 1)
except ValueError:
    raise SystemExit(0)
assert abs(v - separatrix(0.9, 0.2, -1)) < 1e-9, v
""")

bug("B98", "C18", "plots made after an animation with a background colour",
    "the background colour is set for all figures that are saved later",
    [("orbit.py", """                ani.save(
                    filename,
                    savefig_kwargs={"facecolor": background_color},
                    writer=FFwriter,
                )
""", """                plt.rcParams["savefig.facecolor"] = background_color
                ani.save(filename, writer=FFwriter)
""")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.animation import FuncAnimation
FuncAnimation.save = lambda self, *a, **k: None
from kerrgeopy import StableOrbit
before = dict(plt.rcParams)
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    StableOrbit(0.9, 6, 0.2, 0.8).animate(os.path.join(d, "x.mp4"), lambda1=0.2, background_color="black")
assert dict(plt.rcParams) == before, "settings changed"
""")

bug("B99", "C18", "floating point warnings or errors that the caller has asked for, after a plunge was evaluated",
    "floating point warnings are switched off for the whole program",
    [("plunge.py", """    r1, r2, r3, r4 = roots  # r1 < r2 are real and r3/r4 are complex conjugates
""", """    # the logarithms diverge at the horizons
    np.seterr(divide="ignore")
    r1, r2, r3, r4 = roots  # r1 < r2 are real and r3/r4 are complex conjugates
""")],
    """
from kerrgeopy import PlungingOrbit
before = np.geterr()
PlungingOrbit(0.9, 0.94, 0.1, 12.0).trajectory()[0](0.1)
assert np.geterr() == before, np.geterr()
""")

bug("B100", "C19", "two threads asking one orbit for four-velocities with different phases",
    "the requested phases are kept on the orbit for the duration of the call",
    [("orbit.py", """        t, r, theta, phi = self.trajectory(initial_phases)
        spacetime = KerrSpacetime(self.a)
        constants = self.E, self.L, self.Q

        return spacetime.four_velocity(
            t,
            r,
            theta,
            phi,
            constants,
            self.upsilon_r,
            self.upsilon_theta,
            initial_phases,
        )
""", """        own_phases, self.initial_phases = self.initial_phases, initial_phases
        try:
            t, r, theta, phi = self.trajectory()
            spacetime = KerrSpacetime(self.a)
            constants = self.E, self.L, self.Q

            return spacetime.four_velocity(
                t,
                r,
                theta,
                phi,
                constants,
                self.upsilon_r,
                self.upsilon_theta,
                self.initial_phases,
            )
        finally:
            self.initial_phases = own_phases
""")],
    """
import threading
from kerrgeopy import StableOrbit
import kerrgeopy.stable as S
o = StableOrbit(0.9, 8, 0.3, 0.6, initial_phases=(0, 0, 0, 0))
want = float(o.trajectory()[1](0.3))
inside, go = threading.Event(), threading.Event()
real = S.stable_trajectory


def slow(*args, **kw):
    if threading.current_thread() is other:
        inside.set()
        go.wait(20)
    return real(*args, **kw)


S.stable_trajectory = slow
other = threading.Thread(target=lambda: o.four_velocity(initial_phases=(0, 2.0, 1.0, 0)))
other.start()
inside.wait(20)
got = float(o.trajectory()[1](0.3))
go.set()
other.join()
assert abs(got - want) < 1e-9, (got, want)
""")

bug("B101", "C20", "a point behind the limb of the hole: close behind the plane of view and inside the disc, but outside the sphere",
    "points less than a horizon radius behind the centre count as lying in front of the hole",
    [("orbit.py", "            (normal_component >= 0)\n", "            (normal_component >= -event_horizon)\n")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.0, 10, 0.2, 0.8)
# seen along +x: behind the plane, inside the disc, outside the sphere of radius 2
assert not o.is_visible(np.array([[-1.8, 1.6, 0.0]]), 0, 0)[0]
""")

bug("B102", "C20", "the last point of a plotted interval",
    "the plotted times stop one step before the end of the interval",
    [("orbit.py", """        time = np.linspace(lambda0, lambda1, num_pts)

        t, r, theta, phi = self.trajectory(initial_phases=initial_phases)
""", """        time = lambda0 + np.arange(num_pts) / point_density

        t, r, theta, phi = self.trajectory(initial_phases=initial_phases)
""")],
    """
import matplotlib
matplotlib.use("Agg")
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.2, 0.8)
fig, ax = o.plot(0, 3, point_density=100)
t, r, th, ph = o.trajectory()
x = r(3.0) * np.sin(th(3.0)) * np.cos(ph(3.0))
pts = [np.asarray(c._offsets3d[0]).ravel() for c in ax.collections if hasattr(c, "_offsets3d")]
assert any(len(p) and abs(p[-1] - x) < 1e-6 for p in pts), (pts, x)
""")

bug("B103", "C21", "component plots of an animation that runs longer than its tail",
    "the component plots show only the piece of the orbit that the tail covers",
    [("orbit.py", "                    theta_plot.set_data(time[:j], theta(time[:j]))\n", "                    theta_plot.set_data(time[j0:j], theta(time[j0:j]))\n")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.animation import FuncAnimation
import os, tempfile
from kerrgeopy import StableOrbit
seen = []
close = plt.close


def save(self, *a, **k):
    for i in range(0, 60):
        self._func(i, *self._args)
    ax = [q for q in self._fig.axes if q.get_ylabel() == r"$\\theta$"][0]
    seen.append(len(ax.lines[0].get_xdata()))


FuncAnimation.save = save
with tempfile.TemporaryDirectory() as d:
    StableOrbit(0.9, 6, 0.2, 0.8).animate(os.path.join(d, "x.mp4"), lambda1=3, tail_length=0.5, plot_components=True)
assert seen[0] == 59 * 8, seen
""")

bug("B105", "C22", "a hole whose spin is minus zero, with the inclination flipped",
    "minus zero counts as a positive spin",
    [("constants.py", "    return abs(a), x * copysign(1, a)\n", "    return abs(a), x if a >= 0 else -x\n")],
    """
from kerrgeopy import StableOrbit
o, m = StableOrbit(0.0, 10, 0.2, 0.5), StableOrbit(-0.0, 10, 0.2, -0.5)
assert abs(o.trajectory()[3](1.0) - m.trajectory()[3](1.0)) < 1e-9
""")

bug("B109", "C04", "constants of an inclined orbit around a slowly spinning hole",
    "the inclination of orbits around slowly spinning holes is that of the non-spinning formula",
    [("constants.py", "    x = np.sign(L) * sqrt(1 - z_minus)\n", "    x = L / sqrt(L**2 + Q) if abs(a) < 0.02 else np.sign(L) * sqrt(1 - z_minus)\n")],
    """
from kerrgeopy import constants_of_motion, apex_from_constants
for a in (0.015, 0.01):
    E, L, Q = constants_of_motion(a, 9.0, 0.3, 0.4)
    assert abs(apex_from_constants(a, E, L, Q)[3] - 0.4) < 1e-9
""")

bug("B110", "C14", "trajectory deltas of an orbit from initial conditions that is stable, with overriding phases",
    "the radial deltas of such orbits keep the orbit's own radial phase",
    [("orbit.py", """        return (
            lambda q_r: t_r(q_r + q_r0),
            lambda q_theta: t_theta(q_theta + q_theta0),
            lambda q_r: phi_r(q_r + q_r0),
            lambda q_theta: phi_theta(q_theta + q_theta0),
        )
""", """        return (
            lambda q_r: t_r(q_r + q_r0),
            lambda q_theta: t_theta(q_theta + q_theta0),
            lambda q_r: phi_r(q_r + (self.initial_phases[1] if self.stable else q_r0)),
            lambda q_theta: phi_theta(q_theta + q_theta0),
        )
""")],
    """
from kerrgeopy import StableOrbit, Orbit
s = StableOrbit(0.9, 6, 0.4, 0.8)
x, u = [float(f(0.2)) for f in s.trajectory()], [float(f(0.2)) for f in s.four_velocity()]
o = Orbit(0.9, x, u)
ph = (0.0, 2.0, 1.0, 0.0)
a, b = o.trajectory_deltas(ph), s.trajectory_deltas(ph)
for q in (0.0, 0.7, 2.0):
    for f, g in zip(a, b):
        assert abs(f(q) - g(q)) < 1e-6, (f(q), g(q))
""")

bug("B111", "C09", "phases of a stable orbit many turns away from the first one",
    "the radial phase is reduced to one turn with ten digits of pi",
    [("stable.py", """        u_r = ellipk(k_r**2) * q_r / pi

        sn, cn, dn, psi_r = ellipj(u_r, k_r**2)
        return (r3""", """        u_r = ellipk(k_r**2) * np.mod(q_r, 2 * 3.1415926536) / pi

        sn, cn, dn, psi_r = ellipj(u_r, k_r**2)
        return (r3""")],
    """
from kerrgeopy import StableOrbit
o = StableOrbit(0.9, 6, 0.4, 0.8)
r = o.trajectory()[1]
n = 10**6
T = 2 * np.pi * n / o.upsilon_r
assert abs(r(T + 0.3) - r(0.3)) < 2e-6, r(T + 0.3) - r(0.3)
""")

bug("B112", "C03", "an inclination that is not a number around a hole without spin",
    "the domain of a hole without spin is not tested",
    [("constants.py", """    if (0 <= a <= 1) and (0 <= e <= 1) and (-1 <= x <= 1):
        return True
    return False
""", """    if (0 <= a <= 1) and (0 <= e <= 1) and (a == 0 or -1 <= x <= 1):
        return True
    return False
""")],
    """
from kerrgeopy import energy, separatrix, constants_of_motion, fundamental_frequencies
for x in (1.5, -2, float("nan")):
    for f in (lambda: separatrix(0, 0.2, x), lambda: energy(0, 10, 0.2, x), lambda: constants_of_motion(0, 10, 0.2, x)):
        try:
            f()
        except ValueError:
            continue
        raise SystemExit("answered")
""")

