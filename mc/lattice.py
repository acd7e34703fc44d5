"""Finite alphabets and deviation-bounded products.

Every axis has a few *core* values and a list of *layer* values: the boundary
layers, shortcut branches and extremes that one can see in the code or in the
physics (a = 0, e = 0, |x| = 1, nearly so, just outside the separatrix, far
away ...).  ``product(axes, k)`` enumerates every point of the full grid with at
most k coordinates outside the core; k = len(axes) is the full grid.  This is
the input-space analogue of bounding preemptions: simplest points first.
"""
import itertools

A = ([0.5, 0.9], [0.0, 1e-7, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.7, 0.98, 0.998, 0.9999,
                  -0.5, -0.9, -0.0, -0.01, -0.998])
E = ([0.2, 0.6], [0.0, 1e-6, 1e-3, 0.01, 0.05, 0.4, 0.8, 0.9, 0.97, 0.99])
X = ([0.6, -0.6], [1.0, -1.0, 0.999999, -0.999999, 0.995, -0.995, 0.9, -0.9, 0.8, -0.8, 0.3, -0.3,
                   0.1, -0.1, 0.01, -0.01, 1e-3, -1e-3])
A_EXTRA = ([], [0.95, 0.2])
# p = p_separatrix (1 + d)
D = ([0.5, 2.0], [1e-4, 1e-3, 0.02, 0.1, 0.25, 1.0, 4.0, 10.0, 40.0, 200.0, 1000.0])


def product(axes, k):
    """Grid points with at most k coordinates in the layers, fewest first."""
    n = len(axes)
    out = []
    for dev in range(0, min(k, n) + 1):
        for where in itertools.combinations(range(n), dev):
            pools = [axes[i][1] if i in where else axes[i][0] for i in range(n)]
            out.extend(itertools.product(*pools))
    return out


# Coordinates as close to a special case as doubles allow (p is given directly:
# every orbit with p >= 12 is stable whatever the other coordinates are).
FAR_A = ([0.5, 0.9], [0.0, -0.0, 1e-6, 1e-9, -1e-12, 1e-50, 1e-100, -0.9, 1 - 1e-9, 1 - 1e-15])
FAR_P = ([12.0, 40.0], [100.0, 1e4, 1e6, 1e8])
FAR_E = ([0.2, 0.6], [0.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e-16, 1e-100, 1e-300, 1 - 1e-3, 1 - 1e-6, 1 - 1e-9])
FAR_X = ([0.6, -0.6], [s * v for s in (1, -1) for v in (1.0, 1 - 1e-9, 1 - 1e-15, 1e-3, 1e-6, 1e-9, 1e-12, 1e-16)])
