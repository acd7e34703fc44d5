BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("B02", "C02", "eccentricities above 1 - grid spacing in the interpolated separatrix",
    "the interpolation grid stops one step short of e = 1, so the spline is clamped there and the separatrix of nearly parabolic orbits is wrong",
    [("constants.py", "    e = np.linspace(0, 1, num_e_pts)\n", "    e = np.linspace(0, 1, num_e_pts, endpoint=False)\n")],
    """
from kerrgeopy.constants import fast_separatrix, separatrix
f = fast_separatrix(0.5, 0.05)
for e in (0.3, 0.9, 0.99, 1.0):
    for x in (-0.7, 0.4, 1.0):
        assert abs(float(f(e, x)[0, 0]) - separatrix(0.5, e, x)) < 5e-3, (e, x)
""")

bug("B03", "C03", "the already known energy is passed to angular_momentum together with unsupported parameters",
    "the validity checks are skipped when the energy is supplied, so parameters inside the separatrix or outside the domain give numbers",
    [("constants.py", """    if not is_stable(a, p, e, x):
        raise ValueError("Not a stable orbit")

    # compute energy if not given
    if E is None:
        E = energy(a, p, e, x)

    # polar case
""", """    # compute energy if not given, which also checks that the orbit is stable
    if E is None:
        E = energy(a, p, e, x)

    # polar case
""")],
    """
from kerrgeopy.constants import angular_momentum, energy
ok = angular_momentum(0.9, 10, 0.2, 0.5, energy(0.9, 10, 0.2, 0.5))
assert abs(ok - angular_momentum(0.9, 10, 0.2, 0.5)) < 1e-12
try:
    angular_momentum(0.5, 4.5, 0.2, 0.5, 0.93)
except ValueError:
    pass
else:
    raise SystemExit("orbit inside the separatrix accepted")
""")

bug("B04", "C04", "an orbit of small but resolvable eccentricity converted from its constants of motion",
    "eccentricities below 1e-3 are snapped to zero when constants are converted back to orbital parameters",
    [("constants.py", """    p = 2 * r1 * r2 / (r1 + r2)
    e = (r1 - r2) / (r1 + r2)
    x = np""", """    p = 2 * r1 * r2 / (r1 + r2)
    # treat orbits whose turning points coincide as spherical
    e = (r1 - r2) / (r1 + r2) if abs(r1 - r2) > 1e-3 * (r1 + r2) else 0.0
    x = np""")],
    """
import kerrgeopy as kg
for e in (0.0, 5e-4, 0.01, 0.3):
    c = kg.constants_of_motion(0.8, 9.0, e, 0.6)
    out = kg.constants.apex_from_constants(0.8, *c)
    assert abs(out[2] - e) < 1e-5, (e, out)
""")

bug("B05", "C04", "from_constants called with initial phases",
    "the orbit created from constants of motion ignores the initial phases",
    [("stable.py", "        return cls(a, p, e, x, initial_phases, M, mu)\n", "        return cls(a, p, e, x, M=M, mu=mu)\n")],
    """
import kerrgeopy as kg
ref = kg.StableOrbit(0.7, 9.0, 0.3, 0.4, initial_phases=(1.0, 2.0, 0.5, -1.0))
orb = kg.StableOrbit.from_constants(0.7, ref.E, ref.L, ref.Q, initial_phases=(1.0, 2.0, 0.5, -1.0))
for f, g in zip(orb.trajectory(), ref.trajectory()):
    assert abs(f(0.7) - g(0.7)) < 1e-6
""")

bug("B09", "C09", "initial time or azimuth phases outside one turn",
    "all four phases are reduced modulo a full turn, although the first is a time and the last an azimuth that accumulates windings",
    [("stable.py", """    q_t0, q_r0, q_theta0, q_phi0 = initial_phases

    distance_conversion_func""", """    # the phases are angles and only matter up to whole turns
    q_t0, q_r0, q_theta0, q_phi0 = (q % (2 * pi) for q in initial_phases)

    distance_conversion_func""")],
    """
import kerrgeopy as kg
ref = kg.StableOrbit(0.7, 9.0, 0.3, 0.4)
orb = kg.StableOrbit(0.7, 9.0, 0.3, 0.4, initial_phases=(100.0, 0, 0, 0))
assert abs(orb.trajectory()[0](0.3) - ref.trajectory()[0](0.3) - 100) < 1e-8
""")

bug("B10", "C14", "trajectory deltas of a plunge with four real roots created from initial conditions",
    "the quarter-period shift of the polar phase is applied to every plunge in Orbit.trajectory_deltas, also to those that use the stable solutions",
    [("orbit.py", """            radial_roots = plunging_radial_roots(self.a, self.E, self.L, self.Q)
            if np.iscomplex(radial_roots[3]):
                from .plunge import (
                    plunging_radial_solutions_complex,
                    plunging_polar_solutions,
                )

                # adjust q_theta0 so that initial conditions are consistent with stable orbits
                q_theta0 = q_theta0 + pi / 2
""", """            radial_roots = plunging_radial_roots(self.a, self.E, self.L, self.Q)
            # adjust q_theta0 so that initial conditions are consistent with stable orbits
            q_theta0 = q_theta0 + pi / 2
            if np.iscomplex(radial_roots[3]):
                from .plunge import (
                    plunging_radial_solutions_complex,
                    plunging_polar_solutions,
                )

""")],
    """
import kerrgeopy as kg
for c in ((0.9, 0.94, 2.0, 1.0), (0.9, 0.94, 0.1, 12.0), (0.8, 0.97, 1.0, 12.5), (0.9, 0.95, 3.0, 3.0)):
    try:
        p = kg.PlungingOrbit(*c, initial_phases=(0.0, 0.3, 0.7, 0.0))
        o = kg.Orbit(c[0], p.initial_position, p.initial_velocity)
    except ValueError:
        continue
    if o.stable:
        continue
    t, r, th, ph = o.trajectory()
    tr, tt, pr, pt = o.trajectory_deltas()
    lam = np.linspace(0, 0.4, 9)
    res = ph(lam) - ph(0) - (pr(o.upsilon_r * lam) - pr(0.0)) - (pt(o.upsilon_theta * lam) - pt(0.0))
    # what is left must grow linearly
    res = res - res[-1] * lam / lam[-1]
    assert np.max(np.abs(res)) < 1e-6, (c, res)
""")

bug("B11", "C11", "four_velocity called with phases other than the orbit's own",
    "the signs of the radial and polar velocity are those of the orbit's own phases even when other phases are requested",
    [("orbit.py", """            self.upsilon_r,
            self.upsilon_theta,
            initial_phases,
        )

    def _four""", """            self.upsilon_r,
            self.upsilon_theta,
            self.initial_phases,
        )

    def _four""")],
    """
import kerrgeopy as kg
orb = kg.StableOrbit(0.8, 9.0, 0.4, 0.5, initial_phases=(0, 0.5, 0.5, 0))
ph = (0, 4.0, 4.0, 0)
for f, g in zip(orb.four_velocity(ph), orb.numerical_four_velocity(initial_phases=ph)):
    assert abs(f(0.0) - g(0.0)) < 1e-5
""")

bug("B12", "C12", "an orbit created from a position inside the inner well when the outer well also holds a bound orbit",
    "deeply bound plunges whose constants also allow a stable orbit farther out are classified as that stable orbit",
    [("initial_conditions.py", """    if (r2 > r_minus) & (r0 <= r1 + tol) & (r0 >= r2 - tol):
        return True
""", """    if (r2 > r_minus) & (r0 <= r1 + tol):
        return True
""")],
    """
import kerrgeopy as kg
st = kg.StableOrbit(0.5, 7.5, 0.3, 0.6)
p = kg.PlungingOrbit(0.5, st.E, st.L, st.Q)
r = kg.constants.stable_radial_roots(0.5, 7.5, 0.3, 0.6)
from kerrgeopy.initial_conditions import is_stable
E, L, Q = st.E, st.L, st.Q
a = 0.5
def event(r0):
    R = (E*(r0**2+a*a)-a*L)**2-(r0**2-2*r0+a*a)*(r0**2+(a*E-L)**2+Q)
    th = np.pi/2
    sig, dl = r0**2, r0**2-2*r0+a*a
    ut = ((r0**2+a*a)/dl*(E*(r0**2+a*a)-a*L)-a*a*E+a*L)/sig
    up = (a/dl*(E*(r0**2+a*a)-a*L)+L-a*E)/sig
    return (0, r0, th, 0), (ut, -np.sqrt(R)/sig, np.sqrt(Q)/sig, up)
assert is_stable(a, *event((r[0] + r[1]) / 2))
r0 = (r[2] + 1 + np.sqrt(1-a*a)) / 2
assert not is_stable(a, *event(r0)), "plunge called stable"
assert not kg.Orbit(a, *event(r0)).stable
""")

bug("B13", "C13", "an initial velocity whose norm is below -1",
    "only velocities that are too short are refused as not normalized, longer timelike vectors are accepted",
    [("orbit.py", "        if abs(initial_norm + 1) > 1e-6:\n", "        if initial_norm + 1 > 1e-6:\n")],
    """
import kerrgeopy as kg
orb = kg.StableOrbit(0.8, 9.0, 0.4, 0.5)
u = np.array(orb.initial_velocity)
kg.Orbit(0.8, orb.initial_position, u)
for k in (0.9, 1.01):
    try:
        kg.Orbit(0.8, orb.initial_position, k * u)
    except ValueError:
        continue
    raise SystemExit("velocity scaled by %g accepted" % k)
""")

bug("B14", "C15", "scale_constants with a primary mass other than one",
    "the Carter constant is scaled with the first instead of the second power of the mass",
    [("constants.py", "    return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2\n",
      "    return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M\n")],
    """
from kerrgeopy.constants import scale_constants
E, L, Q = scale_constants((0.9, 3.0, 4.0), 2.0, 0.5)
assert (E, L, Q) == (0.45, 3.0, 4.0), (E, L, Q)
""")

bug("B15", "C15", "time in days for a plunge with four real roots",
    "one of the two plunging branches converts days as seconds",
    [("plunge.py", """        "cgs": time_in_seconds,
        "days": time_in_days,
    }

    # Calculate normalization""", """        "cgs": time_in_seconds,
        "days": time_in_seconds,
    }

    # Calculate normalization""")],
    """
import kerrgeopy as kg
for c in ((0.9, 0.94, 0.1, 12.0), (0.9, 0.94, 2.0, 1.0), (0.5, 0.93, 2.0, 7.0), (0.9, 0.95, 1.6, 8.0)):
    p = kg.PlungingOrbit(*c, M=1e6)
    s = p.trajectory(time_units="mks")[0](0.05)
    d = p.trajectory(time_units="days")[0](0.05)
    assert abs(s / 86400 - d) < 1e-9 * abs(d), (c, s, d)
""")

bug("B16", "C18", "two requests on one orbit that differ only in units",
    "the trajectory functions are cached by initial phases, so the second request in other units gets the units of the first",
    [("stable.py", """        return stable_trajectory(
            self.a, self.p, self.e, self.x, initial_phases, self.M, distance_units, time_units
        )
""", """        # computing the solutions is expensive, reuse them if the phases have not changed
        key = tuple(initial_phases)
        cached = self.__dict__.get("_trajectory_cache")
        if cached is None or cached[0] != key or distance_units != "natural":
            cached = key, stable_trajectory(
                self.a, self.p, self.e, self.x, initial_phases, self.M, distance_units, time_units
            )
            self._trajectory_cache = cached
        return cached[1]
""")],
    """
import kerrgeopy as kg
orb = kg.StableOrbit(0.8, 9.0, 0.4, 0.5, M=1e6)
r0 = orb.trajectory()[1](0.3)
orb.trajectory(distance_units="km")
assert abs(orb.trajectory()[1](0.3) - r0) < 1e-9
""")

bug("B17", "C19", "a thread switch between the two statements that store and return the memoized frequencies",
    "mino_frequencies remembers its last result in two module variables that are not read and written together; a second thread with another orbit gets in between",
    [("frequencies.py", """    constants = constants_of_motion(a, p, e, x)
    upsilon_r = r_frequency(a, p, e, x, constants)
    upsilon_theta = theta_frequency(a, p, e, x, constants)
    upsilon_phi = phi_frequency(a, p, e, x, constants, upsilon_r, upsilon_theta)
    Gamma = gamma(a, p, e, x, constants, upsilon_r, upsilon_theta)

    return upsilon_r, abs(upsilon_theta), upsilon_phi, Gamma
""", """    if _last_mino.get("orbit") == (a, p, e, x):
        return _last_mino["frequencies"]
    constants = constants_of_motion(a, p, e, x)
    upsilon_r = r_frequency(a, p, e, x, constants)
    upsilon_theta = theta_frequency(a, p, e, x, constants)
    upsilon_phi = phi_frequency(a, p, e, x, constants, upsilon_r, upsilon_theta)
    Gamma = gamma(a, p, e, x, constants, upsilon_r, upsilon_theta)

    _last_mino["orbit"] = (a, p, e, x)
    _last_mino["frequencies"] = upsilon_r, abs(upsilon_theta), upsilon_phi, Gamma
    return _last_mino["frequencies"]
"""), ("frequencies.py", """def mino_frequencies(a, p, e, x):
""", """_last_mino = {}  # result of the most recent call


def mino_frequencies(a, p, e, x):
""")],
    """
import threading, time
import kerrgeopy as kg
from kerrgeopy import frequencies as F
A, B = (0.9, 8.0, 0.3, 0.5), (0.9, 9.0, 0.3, 0.5)
want = {q: kg.fundamental_frequencies(*q) for q in (A, B)}
ref = {}
for q in (A, B):
    kg.mino_frequencies(0.1, 20.0, 0.1, 0.9)
    ref[q] = kg.mino_frequencies(*q)
# explore every place (line of the function) at which the first thread can be interrupted by the whole second call
code = kg.mino_frequencies.__code__
def interrupted(n):
    count = [0]
    def tracer(frame, event, arg):
        if frame.f_code is not code:
            return None
        def local(frame, event, arg):
            if event == "line":
                count[0] += 1
                if count[0] == n:
                    th = threading.Thread(target=lambda: got.append(kg.mino_frequencies(*B)))
                    sys.settrace(None)
                    th.start(); th.join()
            return local
        return local
    got, out = [], []
    kg.mino_frequencies(0.1, 20.0, 0.1, 0.9)
    def first():
        sys.settrace(tracer)
        out.append(kg.mino_frequencies(*A))
        sys.settrace(None)
    th = threading.Thread(target=first); th.start(); th.join()
    return count[0] < n, out[0], (got or [ref[B]])[0]
n = 1
while True:
    done, first, second = interrupted(n)
    assert np.allclose(first, ref[A], rtol=1e-12) and np.allclose(second, ref[B], rtol=1e-12), n
    assert np.allclose(kg.mino_frequencies(*A), ref[A], rtol=1e-12) and np.allclose(kg.mino_frequencies(*B), ref[B], rtol=1e-12), n
    if done:
        break
    n += 1
""")

bug("B18", "C21", "an animation with a moving camera in which a hidden piece of the tail comes into view later",
    "points hidden in one frame stay hidden in all later frames because the tail overwrites the orbit's own array",
    [("orbit.py", "                trajectory_z_visible = trajectory_z[j0:j].copy()\n", "                trajectory_z_visible = trajectory_z[j0:j]\n")],
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.animation as an
import kerrgeopy as kg
import kerrgeopy.orbit as ko
frames = []
class Writer:
    def __init__(self, *a, **k): pass
class Ani:
    def __init__(self, fig, func, frames_, fargs=()):
        self.a = fig, func, frames_, fargs
    def save(self, *a, **k):
        fig, func, n, fargs = self.a
        for i in range(n):
            func(i, *fargs)
            tail = fargs[1]
            frames.append(np.array(tail._segments3d) if len(tail._segments3d) else np.zeros((0, 2, 3)))
ko.FuncAnimation, ko.FFMpegWriter = Ani, Writer
orb = kg.StableOrbit(0.0, 7.0, 0.0, 0.999)
orb.animate("unused.mp4", lambda1=2, azimuthal_pan=lambda lam: 180.0 * lam, elevation=0, tail_length=5, speed=4)
hid = [np.isnan(f[:, :, 2]).any(axis=1) for f in frames]
reappeared = any((a & ~b[:len(a)]).any() for a, b in zip(hid, hid[1:]) if len(a))
assert any(h.any() for h in hid) and reappeared, "what was hidden once never comes back"
""")

bug("B19", "C20", "plot asked for phases other than the orbit's own",
    "the plotted curve always starts from the orbit's own phases",
    [("orbit.py", "        t, r, theta, phi = self.trajectory(initial_phases=initial_phases)\n", "        t, r, theta, phi = self.trajectory()\n")],
    """
import matplotlib; matplotlib.use("Agg")
import kerrgeopy as kg
orb = kg.StableOrbit(0.5, 9.0, 0.3, 0.7)
fig, ax = orb.plot(lambda1=1, initial_phases=(0, 2.0, 1.0, 0.5))
t, r, th, ph = orb.trajectory((0, 2.0, 1.0, 0.5))
seg = ax.collections[1]._segments3d if hasattr(ax.collections[1], "_segments3d") else ax.collections[0]._segments3d
x0 = r(0) * np.sin(th(0)) * np.cos(ph(0))
assert abs(seg[0][0][0] - x0) < 1e-6, (seg[0][0][0], x0)
""")

bug("B20", "C10", "a plunge with a complex pair of roots around a hole of negative spin",
    "the azimuth accumulated in the radial motion uses the magnitude of the spin in one horizon term",
    [("plunge.py", """        return a * (
            (E * (r_minus**2 + a**2) - a * L) / (r_minus - r_plus) * I_r_minus(q_r)
""", """        return a * (
            (E * (r_minus**2 + a**2) - abs(a) * L) / (r_minus - r_plus) * I_r_minus(q_r)
""")],
    """
import kerrgeopy as kg
for E, L, Q in ((0.94, 0.1, 12.0), (0.9, 1.5, 2.0), (0.95, -1.0, 3.0)):
    t, r, th, ph = kg.PlungingOrbit(0.7, E, L, Q).trajectory()
    t2, r2, th2, ph2 = kg.PlungingOrbit(-0.7, E, -L, Q).trajectory()
    for lam in (0.1, 0.3):
        assert abs(ph(lam) + ph2(lam)) < 1e-8 and abs(t(lam) - t2(lam)) < 1e-7, (E, L, Q)
""")

bug("B23", "C22", "the special value of the inclination is approached: equatorial orbits with a polar phase",
    "nearly equatorial orbits are treated as exactly equatorial, which makes the polar motion jump as the inclination is varied",
    [("constants.py", """    z_minus = 1 - x**2
    # z_plus""", """    # rounding errors in x must not turn an equatorial orbit into an inclined one
    z_minus = 1 - x**2 if abs(x) < 1 - 1e-8 else 0.0
    # z_plus""")],
    """
import kerrgeopy as kg
for d in (1e-3, 1e-6, 4e-9, 1e-10):
    x = 1 - d
    th = kg.StableOrbit(0.8, 9.0, 0.2, x).trajectory()[2](0.0)
    assert abs(np.pi / 2 - th - np.arcsin(np.sqrt(1 - x * x))) < 1e-3 * np.sqrt(d), (d, th)
""")

bug("B24", "C16", "the spacetime of a hole of negative spin asked whether an orbit is stable",
    "the stability test of the spacetime drops the inclination for high eccentricities",
    [("spacetime.py", "        return is_stable(self.a, p, e, x)\n", "        return p > self.separatrix(e, abs(x))\n")],
    """
import kerrgeopy as kg
s = kg.KerrSpacetime(0.9)
assert s.is_stable(5.0, 0.2, 0.5) and not s.is_stable(5.0, 0.2, -0.5)
""")

bug("B01", "C01", "a nearly polar orbit, 0 < |x| < 1e-3",
    "the angular momentum of nearly polar orbits is rounded to that of the polar orbit",
    [("constants.py", """        E = energy(a, p, e, x)

    # polar case
    if x == 0:
        return 0
""", """        E = energy(a, p, e, x)

    # polar case
    if abs(x) < 1e-3:
        return 0
""")],
    """
import kerrgeopy as kg
a, p, e, x = 0.9, 8.0, 0.3, 5e-4
E, L, Q = kg.constants_of_motion(a, p, e, x)
z = 1 - x * x
assert abs((Q - z * (a*a * (1 - E*E) + L*L / (1 - z))) / Q) < 1e-9
assert L > 0
""")

bug("B06", "C06", "a slowly spinning hole, 0 < a < 0.01",
    "the time dilation factor treats slowly spinning holes as non-spinning in the modulus of the polar integrals",
    [("frequencies.py", """    h_r = (r1 - r2) / (r1 - r3)

    # equation 13
    k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
    k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))

    # equation 21
    return (
        4 * E
        + 2
        * a2sqrt_zp_over_e0
        * E
        * upsilon_theta
        * (ellipk(k_theta**2) - ellipe(k_theta**2))
        / (pi * L)
        + 2
        * upsilon_r
        / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
        * (
            E
            / 2
            * (
                (r3 * (r1 + r2 + r3) - r1 * r2) * ellipk(k_r**2)
                + (r2 - r3) * (r1 + r2 + r3 + r4) * _ellippi(h_r, k_r**2)
                + (r1 - r3) * (r2 - r4) * ellipe(k_r**2)
            )
            + 2 * E * (r3 * ellipk(k_r**2) + (r2 - r3) * _ellippi(h_r, k_r**2))
            + 2
            / (r_plus - r_minus)
            * (
                ((4 * E - a * L) * r_plus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
            )
        )
    )


def mino""", """    h_r = (r1 - r2) / (r1 - r3)

    # equation 13
    k_theta = 0 if a < 0.01 else sqrt(z_minus / z_plus)
    k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))

    # equation 21
    return (
        4 * E
        + 2
        * a2sqrt_zp_over_e0
        * E
        * upsilon_theta
        * (ellipk(k_theta**2) - ellipe(k_theta**2))
        / (pi * L)
        + 2
        * upsilon_r
        / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
        * (
            E
            / 2
            * (
                (r3 * (r1 + r2 + r3) - r1 * r2) * ellipk(k_r**2)
                + (r2 - r3) * (r1 + r2 + r3 + r4) * _ellippi(h_r, k_r**2)
                + (r1 - r3) * (r2 - r4) * ellipe(k_r**2)
            )
            + 2 * E * (r3 * ellipk(k_r**2) + (r2 - r3) * _ellippi(h_r, k_r**2))
            + 2
            / (r_plus - r_minus)
            * (
                ((4 * E - a * L) * r_plus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
            )
        )
    )


def mino""")],
    """
from kerrgeopy.frequencies import gamma
# second differences in the spin are smooth
a = np.array([0.008, 0.009, 0.0095, 0.0105, 0.011, 0.012])
g = np.array([gamma(v, 9.0, 0.3, 0.4) for v in a])
fit = np.polyval(np.polyfit(a[[0, 1, 4, 5]], g[[0, 1, 4, 5]], 2), a)
assert np.max(np.abs(g - fit)) < 1e-9, g - fit
""")

bug("B07", "C07", "phi_frequency called with a known radial but no polar frequency",
    "the polar frequency is computed only when the radial one is missing as well",
    [("frequencies.py", """    if upsilon_r is None:
        upsilon_r = r_frequency(a, p, e, x, constants)
    if upsilon_theta is None:
        upsilon_theta = theta_frequency(a, p, e, x, constants)
    # the expression below assumes that the polar frequency has the sign of L
    upsilon_theta = copysign(upsilon_theta, L)

    # simplified form of epsilon0*z_plus
""", """    if upsilon_r is None:
        upsilon_r = r_frequency(a, p, e, x, constants)
        upsilon_theta = theta_frequency(a, p, e, x, constants)
    # the expression below assumes that the polar frequency has the sign of L
    upsilon_theta = copysign(upsilon_theta, L)

    # simplified form of epsilon0*z_plus
""")],
    """
from kerrgeopy.frequencies import phi_frequency, r_frequency
v = phi_frequency(0.9, 8.0, 0.3, 0.5)
assert abs(phi_frequency(0.9, 8.0, 0.3, 0.5, upsilon_r=r_frequency(0.9, 8.0, 0.3, 0.5)) - v) < 1e-12
""")

bug("B08", "C08", "Mino times so far away that more than 32767 quarter periods have passed",
    "the number of half periods of the third-kind integral is kept in a 16-bit integer",
    [("frequencies.py", """    # count the number of half periods
    num_cycles = floor(phi / (pi / 2))
    # map phi to [0,pi/2]
    phi = abs(arcsin(sin(phi)))
    # formula""", """    # count the number of half periods
    num_cycles = floor(phi / (pi / 2)).astype("int16")
    # map phi to [0,pi/2]
    phi = abs(arcsin(sin(phi)))
    # formula""")],
    """
import kerrgeopy as kg
orb = kg.StableOrbit(0.9, 8.0, 0.4, 0.6)
t, r, th, ph = orb.trajectory()
# after whole radial periods the azimuth differs from linear growth only by the polar part, which is bounded
lam = 2 * np.pi / orb.upsilon_r * np.arange(0, 20000, 997.0)
assert np.max(np.abs(ph(lam) - orb.upsilon_phi * lam)) < 10
""")

bug("B21", "C05", "a plunge with four real roots, two of them inside the inner horizon, around a rapidly spinning hole",
    "the inner horizon is approximated by its small-spin value when the roots are ordered",
    [("constants.py", """    r_minus = 1 - sqrt(1 - a**2)

    # if there are 4""", """    # expanded because 1 - sqrt(1 - a**2) cancels for small spins
    r_minus = a**2 / 2 + a**4 / 8

    # if there are 4""")],
    """
import kerrgeopy as kg
a, n = 0.998, 0
rm, rp = 1 - np.sqrt(1 - a*a), 1 + np.sqrt(1 - a*a)
for E in (0.8, 0.9, 0.95, 0.965):
    for L in np.linspace(1.3, 2.1, 17):
        for Q in np.linspace(0.05, 0.6, 12):
            c = np.array([-a*a*Q, 2*L*L+2*Q+2*a*a*E*E-4*a*E*L, a*a*E*E-L*L-Q-a*a, 2, E*E-1])
            z = np.roots(c[::-1])
            if np.abs(z.imag).max() > 1e-9:
                continue
            z = np.sort(z.real)
            if np.min(np.diff(z)) < 1e-2 or not z[2] < rm - 1e-3 or not z[3] > rp:
                continue
            n += 1
            r = kg.constants.plunging_radial_roots(a, E, L, Q)
            assert np.allclose(r, z[::-1], atol=1e-7), (E, L, Q, r, z)
assert n > 3, n
""")

bug("B22", "C17", "whole-number Mino times",
    "the radial phase is written into an array of the type of the Mino time, so it is truncated for integers",
    [("stable.py", """        return distance_conversion_func[distance_units](
            r_phases(upsilon_r * mino_time + q_r0), 
            M)
""", """        q_r = np.empty_like(mino_time)
        q_r[...] = upsilon_r * mino_time + q_r0
        return distance_conversion_func[distance_units](r_phases(q_r), M)
""")],
    """
import kerrgeopy as kg
r = kg.StableOrbit(0.8, 9.0, 0.4, 0.5, initial_phases=(0, 0.5, 0.7, 0)).trajectory()[1]
assert abs(r(1) - r(1.0)) < 1e-12 and np.allclose(r(np.arange(3)), r(np.arange(3.0)))
""")
