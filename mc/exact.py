"""Constants of motion and radial roots in decimal arithmetic of 1300 digits.

Used where extended precision is not enough: parameters so close to a special case
(circular, polar, equatorial, marginally bound, Schwarzschild) that the two
defining equations agree to hundreds of digits.  Floats convert exactly.
"""
from decimal import Decimal as D, localcontext

DIGITS = 1300


def _row(a, r, x2):
    """A E^2 + 2 B E L + C L^2 = F at a turning point r, with l = L/|x|."""
    z = 1 - x2
    dl = r * r - 2 * r + a * a
    return (r * r + a * a) ** 2 - dl * a * a * x2, -2 * a * r, a * a * x2 - dl, dl * (r * r + z * a * a)


def _row_prime(a, r, x2):
    z = 1 - x2
    dl, dp = r * r - 2 * r + a * a, 2 * r - 2
    return (4 * r * (r * r + a * a) - dp * a * a * x2, -2 * a, -dp, dp * (r * r + z * a * a) + dl * 2 * r)


def orbit(a, p, e, x, digits=DIGITS):
    """Exact (E, L, Q, r3, r4, one_minus_E) as Decimals; r3, r4 are None when e = 1."""
    with localcontext() as ctx:
        ctx.prec = digits
        a, p, e, x = (D(float(v)) for v in (a, p, e, x))
        if a < 0 or (a == 0 and a.is_signed()):
            a, x = -a, -x
        x2, s = x * x, (-1 if x < 0 else 1)
        ax = abs(x)
        z = 1 - x2
        r2 = p / (1 + e)
        A1, B1, C1, F1 = _row(a, r2, x2)
        B1 *= s * ax
        if e == 1:
            E = D(1)
            disc = B1 * B1 - C1 * (A1 - F1)
            ls = [(-B1 + q * disc.sqrt()) / C1 for q in (1, -1)]
            ls = [v for v in ls if v > 0]
            l = min(ls)
        else:
            A2, B2, C2, F2 = _row_prime(a, p, x2) if e == 0 else _row(a, p / (1 - e), x2)
            B2 *= s * ax
            al, be, ga = C1 * F2 - C2 * F1, B1 * F2 - B2 * F1, A1 * F2 - A2 * F1
            sq = (be * be - al * ga).sqrt()
            best = None
            for u in ((-be + sq) / al, (-be - sq) / al):
                if u <= 0:
                    continue
                w = A1 + 2 * B1 * u + C1 * u * u
                if w * F1 <= 0:
                    continue
                E_ = (F1 / w).sqrt()
                if E_ >= 1:
                    continue
                l_ = u * E_
                gap = _others(a, p, e, E_, s * ax * l_, z * (a * a * (1 - E_ * E_) + l_ * l_))
                g = r2 * r2 - gap[0] * r2 + gap[1]
                if best is None or g > best[0]:
                    best = (g, E_, l_)
            g, E, l = best
        L = s * ax * l
        Q = z * (a * a * (1 - E * E) + l * l)
        r3 = r4 = None
        if e < 1:
            S, P = _others(a, p, e, E, L, Q)
            r3 = (S + (S * S - 4 * P).sqrt()) / 2
            r4 = P / r3
        b = a * a * (1 - E * E)
        zp = None if b == 0 else (1 + l * l / b)
        return {"E": E, "L": L, "Q": Q, "r3": r3, "r4": r4, "1-E": 1 - E, "z+": zp, "1-z-": x2}


def _others(a, p, e, E, L, Q):
    k = 1 - E * E
    r12 = p * p / (1 - e * e)
    return 2 / k - 2 * p / (1 - e * e), a * a * Q / (k * r12)


def geodesic(a, p, e, x):
    """The reference geodesic (quadrature) for exact constants, a >= 0 convention."""
    from . import kit, ref

    a, x = kit.std(a, x)
    w = orbit(a, p, e, x)
    with localcontext() as ctx:
        ctx.prec = DIGITS
        S, P = w["r3"] + w["r4"], w["r3"] * w["r4"]
        rlo, rhi = D(float(p)) / (1 + D(float(e))), D(float(p)) / (1 - D(float(e)))
    ld = lambda v: kit.LD(format(v, ".40e"))
    g = ref.Geo(kit.LD(a), ld(w["E"]), ld(w["L"]), ld(w["Q"]), ld(rlo), ld(rhi), ld(S), ld(P))
    return g
