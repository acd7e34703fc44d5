"""C02: the separatrix is the stable/unstable boundary, from every entry point."""
import numpy as np

from .. import kit, lattice, ref, sepref

PROPERTY = "C02"
RULE = ("every (spin, eccentricity, inclination) of the alphabet; around each separatrix a ladder of p values on both "
        "sides, each classified by the sign of the gap between the inner turning point and the next radial root")
BOUNDS = "full grid of the alphabet plus a layer of |x| and |a| down to 1e-300; fixed ladder of p around the reference's separatrix and a finer one around the library's"
ASSUMPTIONS = ["reference separatrix: bisection on the definition of stability in extended precision",
               "classification is compared at relative distance >= 1e-5 from the boundary of the reference, and >= 1e-10 from the boundary the library itself offers"]

EA = lattice.E[0] + lattice.E[1] + [1.0, 0.999]
XA = lattice.X[0] + lattice.X[1] + [0.0]
LADDER = [0.4, 0.8, 0.95, 1 - 1e-3, 1 - 1e-5, 1 + 1e-5, 1 + 1e-3, 1.05, 1.3, 2.0, 10.0, 1e4]
FINE = [1 - 1e-7, 1 - 1e-9, 1 - 1e-10, 1 + 1e-10, 1 + 1e-9, 1 + 1e-7]


def sep_cell(cell, ctx):
    a, e, x = cell
    kg = kit.kg()
    want = float(sepref.separatrix(a, e, x))
    ctx.state()
    ctx.trace()
    got = kg.separatrix(a, e, x)
    ctx.step()
    hard = a < 0.05 or 0 < abs(x) < 0.02 or 0.999 < abs(x) < 1 or a > 0.9995
    ctx.close("separatrix (layer)" if hard else "separatrix", got, want, 3e-7 * want if hard else 1e-8 * want)
    st = kg.KerrSpacetime(a)
    ctx.close("spacetime.separatrix", st.separatrix(e, x), got, 1e-12 * want)
    ctx.step(2)
    for f in LADDER:
        p = want * f
        out = f > 1
        ctx.state()
        ctx.step(2)
        # the reference model's own classification of this p
        g = sepref.gap(a, p, e, x)
        if out:
            ctx.true("reference gap agrees", g > 0, p=p)
        elif f > 0.9:
            ctx.true("reference gap agrees", not g > 0, p=p)
        s1, s2 = kg.constants.is_stable(a, p, e, x), st.is_stable(p, e, x)
        ctx.true("is_stable", bool(s1) == out, p=p, factor=f, got=s1)
        ctx.true("spacetime.is_stable", bool(s2) == out, p=p, factor=f, got=s2)
    # the boundary of the classification is the separatrix that is offered, to rounding
    for f in FINE:
        ctx.state()
        ctx.step(2)
        p = got * f
        s1, s2 = kg.constants.is_stable(a, p, e, x), st.is_stable(p, e, x)
        ctx.true("is_stable at the separatrix", bool(s1) == (f > 1), factor=f, p=p, got=s1)
        ctx.true("spacetime.is_stable at the separatrix", bool(s2) == (f > 1), factor=f, p=p, got=s2)
    if e < 1 and x != 0:
        # the boundary is what the orbit classes enforce, too
        for f in (1 - 1e-5, 1 + 1e-5):
            p = want * f
            ctx.step()
            try:
                kg.constants_of_motion(a, p, e, x)
                ok = True
            except ValueError:
                ok = False
            ctx.true("constants accepted iff stable", ok == (f > 1), factor=f)
    ctx.outcome((a == 0, abs(x) == 1, x > 0, x == 0, e == 1))


def order_cell(cell, ctx):
    """Separatrix decreases with x at fixed (a, e) and lies between its equatorial values."""
    a, e = cell
    kg = kit.kg()
    xs = sorted(XA)
    v = [kg.separatrix(a, e, x) for x in xs]
    ctx.step(len(xs))
    ctx.state(len(xs))
    ctx.trace()
    for x0, x1, s0, s1 in zip(xs, xs[1:], v, v[1:]):
        ctx.true("monotone in x", s1 <= s0 + 1e-6, x0=x0, x1=x1, s0=s0, s1=s1)


def fast_cell(cell, ctx):
    a, h = cell
    kg = kit.kg()
    f = kg.fast_separatrix(a, h) if h is not None else kg.fast_separatrix(a)
    ctx.step()
    ctx.trace()
    h = 0.01 if h is None else h
    es, xs = np.linspace(0, 1, int(1 / h)), np.linspace(-1, 1, int(2 / h))
    step = max(1, int(0.1 / h))
    for e in list(es[::step]) + [es[-1]]:
        for x in list(xs[::step]) + [xs[-1]]:
            ctx.state()
            ctx.step()
            ctx.close("node", f(e, x).item(), float(kg.separatrix(a, float(e), float(x))), 1e-6)
    # between nodes the bicubic interpolant is accurate where the surface is smooth
    tol = 0.01 * (h / 0.05) ** 2 * (1 if a < 0.95 else 4)
    for e in (es[:-1] + es[1:])[::step] / 2:
        for x in (xs[:-1] + xs[1:])[::step] / 2:
            ctx.state()
            ctx.step()
            ctx.close("between nodes", f(e, x).item(), float(kg.separatrix(a, float(e), float(x))), tol)
    grid = f(es[:3], xs[:4])
    ctx.true("grid evaluation", np.shape(grid) == (3, 4), shape=np.shape(grid))


GROUPS = {"separatrix": sep_cell, "order": order_cell, "fast": fast_cell}
CHUNK = {"fast": 1}


def plan(tier):
    A = sorted(set(abs(a) for a in lattice.A[0] + lattice.A[1]))
    cells = [(a, e, x) for a in A for e in EA for x in XA]
    tiny = [s * 10.0**-k for k in (4, 6, 8, 10, 13, 16, 50, 100, 300) for s in (1, -1)] + [6.123233995736766e-17, 1 - 2.0**-53, 1 - 1e-12, -1 + 1e-12]
    layer = [(a, e, x) for a in A + [1e-300, 1e-160, 1e-100, 1e-50, 1e-16, 1e-10, 1e-8, 1e-6, 1e-5, 0.99999, 0.999999]
             for e in (0.0, 0.2, 0.9, 1.0) for x in tiny]
    layer += [(a, e, x) for a in (1e-300, 1e-160, 1e-100, 1e-50, 1e-16, 1e-10, 1e-8, 1e-6, 1e-5, 0.99999, 0.999999) for e in (0.0, 0.2, 0.9, 1.0) for x in XA]
    fast = [(0.9, 0.05), (0.5, 0.05), (0.0, 0.1), (0.998, 0.05), (0.01, 0.1), (0.9, None)]
    if tier == "thorough":
        fast += [(0.998, None), (0.3, 0.02), (0.9999, 0.02)]
        extra = [0.05, 0.2, 0.4, 0.6, 0.8, 0.95, 0.97, 0.99]
        ex = [i / 40 for i in range(-40, 41)]
        cells += [(a, e, x) for a in extra for e in [i / 20 for i in range(21)] for x in ex]
    return [("separatrix", cells + layer), ("order", [(a, e) for a in A for e in EA]), ("fast", fast)]
