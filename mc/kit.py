"""Shared helpers for the check modules."""
import functools
import math
import itertools
import json
import os

import numpy as np

from . import core, lattice, ref, sepref

LD = np.longdouble
PI = np.pi


def kg():
    return core.lib()


def std(a, x):
    """The documented convention: (a, x) and (-a, -x) are the same orbit."""
    return (-a, -x) if np.copysign(1.0, a) < 0 else (a, x)


@functools.lru_cache(maxsize=1)
def _table():
    d = json.load(open(os.path.join(os.path.dirname(__file__), "sep_table.json")))
    return dict(zip(itertools.product(d["A"], d["E"], d["X"]), d["p"]))


@functools.lru_cache(maxsize=200000)
def psep(a, e, x):
    """Reference separatrix as a float (tabulated for the alphabets)."""
    a, x = std(a, x)
    v = _table().get((a, e, x))
    return float(sepref.separatrix(a, e, x)) if v is None else v


def p_of(a, e, x, d):
    """Semi-latus rectum a fraction d outside the reference separatrix."""
    return psep(a, e, x) * (1 + d)


def grid4(k, d_axis=None, a_axis=None, e_axis=None, x_axis=None, keep=None):
    """Stable-orbit cells (a, e, x, d), at most k coordinates off the core."""
    axes = [a_axis or lattice.A, e_axis or lattice.E, x_axis or lattice.X, d_axis or lattice.D]
    out = lattice.product(axes, k)
    if keep:
        out = [c for c in out if keep(*c)]
    return out


def fl(v):
    return [float(q) for q in v]


def cond(p, e, d):
    """How much a rounding error is amplified in E, and in L and Q: two close
    turning points (1/e), a near double root at the separatrix (1/d), and the
    subtraction of energies close to one far from the hole (r_max)."""
    kE = (1 + 1e-2 / e if e > 0 else 1.0) * (1 + 1e-3 / d)
    rmax = p / (1 - e) if e < 1 else p
    return kE, kE * (1 + 0.05 * rmax)


# ---- plunging orbits: constants of motion chosen directly, plus the plunges
# that share their constants with a stable orbit (four real radial roots)
PA = ([0.5, 0.9], [1e-5, 1e-3, 0.01, 0.05, 0.1, 0.3, 0.7, 0.98, 0.998, -0.5, -0.9, -1e-4])
PE = ([0.8, 0.94], [0.1, 0.3, 0.6, 0.9, 0.97, 0.99, 0.999, 0.0, -0.1, -0.4, -0.8, 0.9999])
PL = ([2.0, -1.0], [0.1, -0.1, 0.5, 1.0, 3.0, -3.0, 4.0, -4.5, 0.0, 1e-9, -1e-4, 8.0, -9.0, 0.02])
PQ = ([1.0, 10.0], [0.0, 1e-6, 0.01, 0.1, 3.0, 12.0, 20.0, 0.2, 0.02, 50.0, 200.0])


def plunges(k):
    """(a, E, L, Q) without the polar plunges, which are not supported"""
    return [c for c in lattice.product((PA, PE, PL, PQ), k) if c[2] or c[3] < c[0] ** 2 * (1 - c[1] ** 2)]


def near_axis(a, E, L, Q):
    """sin^2 of the polar turning point: how closely the orbit approaches the axis"""
    beta = a * a * (1 - E * E)
    b = Q + L * L - beta
    s = math.sqrt(b * b + 4 * beta * L * L)
    return 2 * L * L / (b + s) if b > 0 else (s - b) / (2 * beta)


# constants at which the sum of the real roots equals the sum of the complex
# pair: the closed form solutions divide by zero there (A = B in their notation)
BALANCED = [
    (0.5, 0.8, 2.0, 1.8963492063492058), (0.5, 0.8, -1.0, 11.067777777777772),
    (0.5, 0.8, 0.5, 8.732063492063489), (0.5, 0.94, -1.0, 10.51228208041738),
    (0.5, 0.94, 0.5, 10.834430151324575), (0.9, 0.6, 2.0, 0.8123285714285707),
    (0.9, 0.6, 3, 0.7494714285714266), (0.9, 0.8, -1.0, 12.915092063492057),
    (0.9, 0.8, 0.5, 8.110806349206346), (0.9, 0.94, -1.0, 10.805653775933543),
    (0.998, 0.6, 2.0, 2.00657113142857), (0.998, 0.6, 3, 2.4813139885714257),
    (0.998, 0.8, -1.0, 13.385253503492056), (0.998, 0.8, 0.5, 7.976167789206347),
    (0.998, 0.94, -1.0, 10.883210626935004), (-0.9, 0.8, 2.0, 13.617949206349197),
    (-0.9, 0.8, -1.0, 5.509377777777776), (-0.9, 0.8, 0.5, 11.813663492063487),
    (-0.9, 0.8, 3, 12.320806349206338), (-0.9, 0.94, 2.0, 8.31907609084491),
    (-0.9, 0.94, 0.5, 11.29894261847786), (-0.9, 0.94, 3, 3.8324984057562768),
]


def balanced(k):
    """plunges at and next to those constants"""
    D = ([0.0], [1e-13, -1e-11, 1e-9, -1e-6, 1e-4, 1e-2])
    return [(a, E, L, Q * (1 + f)) for a, E, L, Q in BALANCED for (f,) in lattice.product((D,), k)]


# constants at which a characteristic of the closed form's principal values
# reaches one at a horizon (A |r+- - r1| = B |r2 - r+-| in their notation)
CRITICAL = [
    (0.5, 0.94, 2.0, 0.9406258584651173), (0.5, 0.94, 2.0, 6.991184237407795),
    (0.5, 0.94, -1.0, 1.6613695907886128), (0.5, 0.94, -1.0, 13.799673187505777),
    (0.5, 0.94, 0.5, 3.551470877812743), (0.5, 0.94, 0.5, 12.6338969795285),
    (0.5, 0.98, 2.0, 1.1634661904353907), (0.5, 0.98, -1.0, 1.3039526276838012),
    (0.5, 0.98, 0.5, 3.45444987184755), (0.9, 0.8, -1.0, 0.716952012092903),
    (0.9, 0.8, -1.0, 11.651566238790863), (0.9, 0.8, 0.5, 1.8621486443142095),
    (0.9, 0.8, 0.5, 7.49004060216204), (0.9, 0.94, 2.0, 0.8243744535963128),
    (0.9, 0.94, 0.5, 1.162627941964618), (0.9, 0.94, 0.5, 13.88782098724769),
    (0.9, 0.98, 2.0, 1.2565803417171142), (0.9, 0.98, 0.5, 1.0486590401106202),
    (0.998, 0.6, -1.0, 0.46920706745763885), (0.998, 0.6, 0.5, 0.29031621952990094),
    (0.998, 0.8, 0.5, 0.362832805111253), (0.998, 0.94, 0.5, 0.33234510117960897),
    (0.998, 0.98, 2.0, 0.5723205204387225), (0.998, 0.98, 0.5, 0.31305530416738897),
    (-0.9, 0.8, 2.0, 11.919575463898566), (-0.9, 0.8, -1.0, 1.8555578299399258),
    (-0.9, 0.8, -1.0, 5.088577718614879), (-0.9, 0.8, 0.5, 1.511682018566366),
    (-0.9, 0.8, 0.5, 10.766541516837668), (-0.9, 0.8, 3.0, 10.186323264603523),
    (-0.9, 0.94, -1.0, 1.1946542883049633), (-0.9, 0.94, -1.0, 10.988341241006994),
    (-0.9, 0.94, 0.5, 0.39657294387721603), (-0.9, 0.98, -1.0, 1.0886362630157465),
    (-0.9, 0.98, 0.5, 0.17201054140780164), (0.9, 0.8, 0.5, 0.04795906824421093),
    (0.9, 0.94, 0.5, 0.061482108574319044), (0.9, 0.98, 0.5, 0.05646160369274659),
    (0.998, 0.6, 2.0, 12.975107652305736), (0.998, 0.6, 0.5, 0.07519785558441323),
    (0.998, 0.8, 2.0, 9.207651651569002), (0.998, 0.8, 0.5, 0.22501245249582824),
    (0.998, 0.94, 0.5, 0.22646660029366253), (0.998, 0.98, 0.5, 0.21430619564090725),
    (-0.9, 0.6, -1.0, 0.10568548108462314),
]


def critical(k):
    """plunges at and next to those constants"""
    D = ([0.0], [1e-15, 1e-13, -1e-11, 1e-9, 1e-7, 1e-5, 1e-3])
    return [(a, E, L, Q * (1 + f)) for a, E, L, Q in CRITICAL for (f,) in lattice.product((D,), k)]


# orbits whose third radial root coincides with the outer horizon, where
# E (r_+^2 + a^2) = a L: the closed forms of the literature divide zero by zero
GRAZING = [
    (0.9, 12.0, 0.0, 0.8101781750307213), (0.9, 12.0, 0.1, 0.8102178517064438),
    (0.9, 12.0, 0.5, 0.8111736921746027), (0.9, 12.0, 0.9, 0.8134311577721377),
    (0.998, 2, 0.0, 0.9510838754542709), (0.998, 3, 0.0, 0.8375503430520033),
    (0.998, 6.0, 0.0, 0.6823194799602075), (0.998, 12.0, 0.0, 0.5348475659224264),
    (0.998, 2, 0.1, 0.9523979599798014), (0.998, 3, 0.1, 0.8377174461819034),
    (0.998, 6.0, 0.1, 0.6823169471089783), (0.998, 12.0, 0.1, 0.5348424625954392),
    (0.998, 2, 0.5, 0.995409488658678), (0.998, 3, 0.5, 0.8421256841125578),
    (0.998, 6.0, 0.5, 0.6822637510671594), (0.998, 12.0, 0.5, 0.5347203140497232),
    (0.998, 3, 0.9, 0.8561696854974524), (0.998, 6.0, 0.9, 0.6821983005073424),
    (0.998, 12.0, 0.9, 0.5344377873626973), (0.9999, 1.3, 0.0, 0.9925526289638303),
    (0.9999, 1.6, 0.0, 0.9032465621668385), (0.9999, 2, 0.0, 0.8544435020837751),
    (0.9999, 3, 0.0, 0.7796404935754345), (0.9999, 6.0, 0.0, 0.6457862921781768),
    (0.9999, 12.0, 0.0, 0.5083571654647782), (0.9999, 1.6, 0.1, 0.9045070389806175),
    (0.9999, 2, 0.1, 0.8546488532775081), (0.9999, 3, 0.1, 0.7796176488577757),
    (0.9999, 6.0, 0.1, 0.6457608698989622), (0.9999, 12.0, 0.1, 0.5083483655567063),
    (0.9999, 2, 0.5, 0.8620622489696026), (0.9999, 3, 0.5, 0.7791495908973267),
    (0.9999, 6.0, 0.5, 0.6451524259525744), (0.9999, 12.0, 0.5, 0.5081373113960218),
    (0.9999, 3, 0.9, 0.7788211881316311),
    (0.9999, 6.0, 0.9, 0.6437458039264826), (0.9999, 12.0, 0.9, 0.5076459270987316),
]


def grazing(k):
    """(a, p, e, x) at and next to those parameters"""
    D = ([0.0], [1e-15, -1e-15, 1e-13, -1e-11, 1e-9, 1e-7, -1e-5])
    return [(a, p, e, x * (1 + f)) for a, p, e, x in GRAZING for (f,) in lattice.product((D,), k)]


def deep_plunges(k):
    """(a, e, x, d) of stable orbits whose constants also admit a plunge."""
    A = (lattice.A[0], [0.05, 0.1, 0.3, 0.7, 0.98, 0.998])
    E = (lattice.E[0], [0.05, 0.4, 0.8, 0.9])
    X = (lattice.X[0], [1.0, -1.0, 0.995, -0.995, 0.9, -0.9, 0.3, -0.3, 0.1, -0.1])
    D = ([0.5, 2.0], [0.02, 0.1, 0.25, 1.0, 4.0])
    return lattice.product((A, E, X, D), k)


def deep_constants(a, e, x, d):
    return fl(ref.constants(a, p_of(a, e, x, d), e, x))


@functools.lru_cache(maxsize=64)
def plunge_geo(a, E, L, Q):
    """Reference plunge and its kind, or None: nearly coincident roots (the
    homoclinic boundary between two kinds of motion) and turning points that
    coincide with a horizon to 1e-14 are left out."""
    rts = ref.radial_roots_exact(a, E, L, Q)
    c = ref.radial_coeffs(a, E, L, Q)
    rts = [complex(r) for r in rts]
    gap = min(abs(u - v) / (abs(u) + abs(v) + 1e-3) for i, u in enumerate(rts) for v in rts[:i])
    if gap < 1e-3:
        return None
    try:
        g = ref.plunge(a, E, L, Q)
    except ref.NoOrbit:
        return None
    rm = LD(a) ** 2 / (1 + np.sqrt(1 - LD(a) ** 2))
    if min(abs(g.rhi - g.rp), abs(g.rlo - rm)) < 1e-14:
        return None  # it turns on a horizon, to the rounding of the roots
    re, co = ref.classify_roots(a, E, L, Q)
    g.kind = "two complex roots" if co else ("inner of four" if g.rhi < float(re[3]) else "outer of four")
    g.roots = [float(r) for r in re]
    g.pair = complex(co[0]) if co else None
    g.gap = gap
    return g


@functools.lru_cache(maxsize=64)
def stable_geo(a, p, e, x):
    return ref.stable(a, p, e, x)


def lam_grid(u1, u2, phases=(0, 0, 0, 0)):
    """Mino times: the start, both senses, exact quarter periods (turning points
    and equator crossings) of each motion, generic points, and far away."""
    g = [0.0, 0.37, -0.81, 2.6, -7.9, 23.4]
    u1, u2 = abs(u1), abs(u2)
    for u, q in ((u1, phases[1]), (u2, phases[2])):
        for n in (1, 2, 3, 4, -1, -2, 9):
            g.append((n * PI / 2 - q) / u)
    return np.array(g)


def near_turn(q):
    """Inverse distance to the nearest multiple of pi/2, where an angle obtained
    from arcsin(sin) keeps only half of the digits."""
    s = np.abs(np.sin(2 * np.asarray(q)))
    return 1 / np.maximum(s, 1e-8)
