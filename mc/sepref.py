"""Reference separatrix: bisection on the gap between the inner turning point
and the next radial root, i.e. on the definition of stability itself."""
import functools

import numpy as np

from . import ref

LD = np.longdouble


def gap(a, p, e, x):
    if not LD(p) / (1 + LD(e)) > 1 + np.sqrt(1 - LD(a) ** 2):
        return LD(-1)  # the inner turning point is not outside the horizon
    try:
        g = ref.stable_gap(a, p, e, x)
    except ref.NoOrbit:
        return LD(-1)
    return g if np.isfinite(g) else LD(-1)


def _scan(a, e, x):
    """Outermost sign change of the gap on a fine grid of p."""
    hi = LD(13)
    g_hi = gap(a, hi, e, x)
    if not g_hi > 0:
        raise ValueError("reference model: p=13 is not stable")
    n = 240
    p = hi
    lo_end = LD(1) + LD(e) * LD("0.5")
    for i in range(1, n + 1):
        q = hi - (hi - lo_end) * i / n
        if not gap(a, q, e, x) > 0:
            return q, p
        p = q
    raise ValueError("reference model: no separatrix found")


@functools.lru_cache(maxsize=None)
def separatrix(a, e, x):
    """Smallest p beyond which every orbit is stable (extended precision)."""
    if a < 0:
        a, x = -a, -x
    if a == 0:
        return LD(6) + 2 * LD(e)
    lo, hi = _scan(a, e, x)
    for _ in range(90):
        mid = (lo + hi) / 2
        if mid == lo or mid == hi:
            break
        if gap(a, mid, e, x) > 0:
            hi = mid
        else:
            lo = mid
    return (lo + hi) / 2
