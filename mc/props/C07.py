"""C07: every way of asking for a frequency gives the same, correct frequency."""
import itertools

import numpy as np

from .. import kit, lattice, ref
from .C06 import sane, tol_freq

PROPERTY = "C07"
RULE = ("every cell of the stable alphabet with at most k boundary-layer coordinates, times every subset of the optional "
        "already-known quantities of each frequency function (constants, radial and polar frequency, the latter as "
        "returned by the function itself and as returned among the Mino frequencies), and every entry point that "
        "reports frequencies (functions, orbit attributes, orbit methods); plus orbits whose third radial root coincides "
        "with the outer horizon")
BOUNDS = "subsets: all 2+2+2*3+2*3 forms per cell, k=2 (quick) / 3 (thorough); orbit objects: k=2 / 3"
ASSUMPTIONS = ["reference frequencies as in C06"]


def shape(cell):
    if cell[0] == "g":
        a, p, e, x = cell[1:]
        return a, p, e, x, p / kit.psep(a, e, x) - 1
    a, e, x, d = cell
    return a, kit.p_of(a, e, x, d), e, x, d


def reference(cell):
    a, p, e, x, d = shape(cell)
    aa, xx = kit.std(a, x)
    g = kit.stable_geo(aa, p, e, xx)
    t = np.array(tol_freq(a, p, e, x, d)) * 3
    w = np.array([g.Ups_r, g.Ups_th, g.Ups_ph, g.Gamma])
    ok = g.rad_ok and g.pol_ok
    return a, p, e, x, w, t * np.abs(w), w[:3] / w[3], 3 * (t[:3] + t[3]) * np.abs(w[:3] / w[3]), ok


def forms(cell, ctx):
    a, p, e, x, w, tw, om, tom, ok = reference(cell)
    if not ok:
        return
    kg = kit.kg()
    f = kg.frequencies
    ctx.state()
    ctx.trace()
    C = kg.constants_of_motion(a, p, e, x)
    m = kg.mino_frequencies(a, p, e, x)
    th = f.theta_frequency(a, p, e, x)
    ctx.step(3)
    ctx.close("mino", m, w, tw)
    ctx.close("fundamental", kg.fundamental_frequencies(a, p, e, x), om, tom)
    for kw in ({}, {"constants": C}, {"constants": list(C)}, {"constants": np.array(C, float)}):
        form = type(kw.get("constants")).__name__
        ctx.step(2)
        ctx.close("radial", f.r_frequency(a, p, e, x, **kw), w[0], tw[0])
        # the single polar frequency may carry the direction of the orbit
        ctx.close("polar", abs(f.theta_frequency(a, p, e, x, **kw)), w[1], tw[1])
        for kr in ({}, {"upsilon_r": m[0]}):
            for kt in ({}, {"upsilon_theta": m[1]}, {"upsilon_theta": th}):
                ctx.step(2)
                given = sorted(list(kw) + list(kr) + (["upsilon_theta:%s" % ("mino" if kt["upsilon_theta"] is m[1] else "own")] if kt else []))
                ctx.close("azimuthal", f.phi_frequency(a, p, e, x, **kw, **kr, **kt), w[2], tw[2], given=given, form=form)
                ctx.close("time", f.gamma(a, p, e, x, **kw, **kr, **kt), w[3], tw[3], given=given, form=form)


def objects(cell, ctx):
    a, p, e, x, w, tw, om, tom, ok = reference(cell)
    if not ok:
        return
    d = shape(cell)[4]
    kg = kit.kg()
    ctx.state()
    ctx.trace()
    aa, xx = kit.std(a, x)
    o = kg.StableOrbit(a, p, e, x)
    ctx.step(4)
    ctx.close("attributes", (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma), w, tw)
    ctx.close("omega attributes", (o.omega_r, o.omega_theta, o.omega_phi), om, tom)
    ctx.close("mino method", o.mino_frequencies(), w, tw)
    ctx.close("fundamental method", o.fundamental_frequencies(), om, tom)
    ctx.close("mino method (natural)", o.mino_frequencies(units="natural"), w, tw)
    ctx.close("fundamental method (natural)", o.fundamental_frequencies(units="natural"), om, tom)
    E, L, Q = kit.fl(ref.constants(aa, p, e, xx))
    kE, kL = kit.cond(p, e, d)
    ctx.close("constants", o.constants_of_motion(), (E, L, Q), 1e-9 * kL * (1 + L * L + Q) + 5e-14 / x**2)
    ctx.close("constants attributes", (o.E, o.L, o.Q), (E, L, Q), 1e-9 * kL * (1 + L * L + Q) + 5e-14 / x**2)
    ctx.close("parameters", (o.a, o.p, o.e, o.x), (aa, p, e, xx), 1e-12 * p)
    ctx.true("stable", o.stable is True)
    # the same orbit defined by where it starts
    if e >= 0.01 and 1e-3 < d < 50 and abs(x) >= 0.1 and a >= 0:
        q = kg.Orbit(aa, o.initial_position, o.initial_velocity)
        ctx.step()
        ctx.close("orbit from initial conditions", (q.upsilon_r, q.upsilon_theta, q.upsilon_phi, q.gamma), w,
                  tw * 100 + 1e-8 * (1 + 1e-2 / d) * np.abs(w))
        ctx.close("orbit from initial conditions, omega", (q.omega_r, q.omega_theta, q.omega_phi), om,
                  tom * 100 + 1e-8 * (1 + 1e-2 / d) * np.abs(om))


GROUPS = {"optional arguments": forms, "objects": objects}


def plan(tier):
    k = 2 if tier == "quick" else 3
    cells = kit.grid4(k, keep=sane) + [("g",) + c for c in kit.grazing(1)]
    return [("optional arguments", cells), ("objects", cells)]
