"""Reference model: bound Kerr geodesics from first principles.

Nothing here imports kerrgeopy, and nothing here uses elliptic functions, the
closed forms of Schmidt / Fujita-Hikida / Dyson-van de Meent, or the separatrix
polynomials of Stein-Warburton.  Everything is derived from the separated
geodesic equations printed in the project's documentation

  (dr/dl)^2     = R(r) = (E(r^2+a^2)-aL)^2 - D (r^2 + (aE-L)^2 + Q)
  (dz/dl)^2     = Q - (Q+b+L^2) z^2 + b z^4,          z = cos(theta), b = a^2(1-E^2)
  dt/dl         = (r^2+a^2)(E(r^2+a^2)-aL)/D - a^2 E(1-z^2) + aL
  dphi/dl       = a(E(r^2+a^2)-aL)/D + L/(1-z^2) - aE

with D = r^2-2r+a^2, by regularising the turning points
(r = mid - half cos(psi), z = sqrt(z-) cos(chi)) and integrating the resulting
smooth periodic functions with the spectrally accurate trapezoid rule.
"""
import numpy as np

LD = np.longdouble


class NoOrbit(Exception):
    """The reference model has no geodesic for these parameters."""


# --------------------------------------------------------------------------
# constants of motion from (a, p, e, x)
# --------------------------------------------------------------------------
def _form(a, r, z, x2):
    """R(r)=0 with Q = z(a^2(1-E^2)+L^2/(1-z)) as A E^2 + 2B E L + C L^2 = F."""
    D = r * r - 2 * r + a * a
    A = (r * r + a * a) ** 2 - D * a * a * x2
    B = -a * (r * r + a * a) + D * a
    C = a * a - D * (1 + z / x2)
    F = D * (r * r + z * a * a)
    return A, B, C, F


def _form_prime(a, r, z, x2):
    Dp = 2 * r - 2
    D = r * r - 2 * r + a * a
    A = 4 * r * (r * r + a * a) - Dp * a * a * x2
    B = -2 * a * r + Dp * a
    C = -Dp * (1 + z / x2)
    F = Dp * (r * r + z * a * a) + 2 * r * D
    return A, B, C, F


def constants(a, p, e, x):
    """(E, L, Q) in extended precision; a may be negative, 0<=e<=1, |x|<=1."""
    a, p, e, x = LD(a), LD(p), LD(e), LD(x)
    if a < 0:
        a, x = -a, -x
    z, x2 = 1 - x * x, x * x
    one = LD(1)
    if x == 0:
        # polar: L = 0, unknowns are E^2 and Q, and R(r)=0 is linear in them
        def row(r):
            D = r * r - 2 * r + a * a
            return (r * r + a * a) ** 2 - D * a * a, -D, D * r * r

        def rowp(r):
            D = r * r - 2 * r + a * a
            Dp = 2 * r - 2
            return 4 * r * (r * r + a * a) - Dp * a * a, -Dp, Dp * r * r + 2 * r * D

        if e == 1:
            A, B, F = row(p / 2)
            return one, LD(0), (F - A) / B
        if e == 0:
            r1, r2 = row(p), rowp(p)
        else:
            r1, r2 = row(p / (1 + e)), row(p / (1 - e))
        det = r1[0] * r2[1] - r1[1] * r2[0]
        E2 = (r1[2] * r2[1] - r1[1] * r2[2]) / det
        Q = (r1[0] * r2[2] - r1[2] * r2[0]) / det
        if not (E2 > 0):
            raise NoOrbit
        return np.sqrt(E2), LD(0), Q
    s = np.sign(x)
    rlo = p / (1 + e)
    A1, B1, C1, F1 = _form(a, rlo, z, x2)
    if e == 1:
        # E = 1: C1 L^2 + 2 B1 L + A1 - F1 = 0
        disc = B1 * B1 - C1 * (A1 - F1)
        if disc < 0:
            raise NoOrbit
        cand = [(-B1 + q * np.sqrt(disc)) / C1 for q in (1, -1)]
        cand = [L for L in cand if np.sign(L) == s]
        if not cand:
            raise NoOrbit
        # the orbit with the smaller |L| on its own side plunges from the
        # other branch; both roots have opposite signs outside the ergosphere
        L = cand[0] if len(cand) == 1 else min(cand, key=abs)
        return one, L, z * L * L / x2
    A2, B2, C2, F2 = (
        _form_prime(a, rlo, z, x2) if e == 0 else _form(a, p / (1 - e), z, x2)
    )
    # eliminate E^2 through y = L/E
    al = C1 * F2 - C2 * F1
    be = B1 * F2 - B2 * F1
    ga = A1 * F2 - A2 * F1
    disc = be * be - al * ga
    if disc < 0:
        raise NoOrbit
    sq = np.sqrt(disc)
    out = []
    qd = -(be + (sq if be >= 0 else -sq))
    ys = []
    if al != 0:
        ys.append(qd / al)
    if qd != 0:
        ys.append(ga / qd)
    for y in ys:
        if np.sign(y) != s:
            continue
        for (A, B, C, F) in ((A1, B1, C1, F1), (A2, B2, C2, F2)):
            den = A + 2 * B * y + C * y * y
            if den != 0 and F / den > 0:
                E = np.sqrt(F / den)
                out.append((E, y * E))
                break
    # 0 <= e < 1 is motion between two turning points: bound, so E < 1
    out = [c for c in out if c[0] < 1]
    if not out:
        raise NoOrbit
    if len(out) > 1:
        # exactly one of the two is future directed with the right ordering;
        # prefer the bound one with positive gap between r3 and r2
        out.sort(key=lambda c: -float(_gap(a, c[0], c[1], z, x2, rlo, p, e)))
    E, L = out[0]
    return E, L, z * (a * a * (1 - E * E) + L * L / x2)


def _gap(a, E, L, z, x2, rlo, p, e):
    Q = z * (a * a * (1 - E * E) + L * L / x2)
    S, P = other_roots(a, E, L, Q, p, e)
    return rlo * rlo - S * rlo + P


def other_roots(a, E, L, Q, p, e):
    """Sum and product of the two radial roots that are not turning points."""
    a, E, L, Q, p, e = map(LD, (a, E, L, Q, p, e))
    if e == 1:
        # R = 2 (r-rlo)(r^2 - S r + P)
        rlo = p / 2
        S = -(a * a * E * E - L * L - Q - a * a) / 2 - rlo
        P = a * a * Q / (2 * rlo)
        return S, P
    k = 1 - E * E
    rlo, rhi = p / (1 + e), p / (1 - e)
    P = a * a * Q / (k * rlo * rhi)
    # from the coefficient of r, which suffers no cancellation for e -> 1
    K = (L - a * E) ** 2 + Q
    return (2 * K / k - P * (rlo + rhi)) / (rlo * rhi), P


def stable_gap(a, p, e, x):
    """Positive iff the orbit with these parameters is stable: sign of
    (r2-r3)(r2-r4), zero exactly on the separatrix."""
    a_, x_ = (a, x) if a >= 0 else (-a, -x)
    E, L, Q = constants(a_, p, e, x_)
    S, P = other_roots(a_, E, L, Q, p, e)
    rlo = LD(p) / (1 + LD(e))
    return rlo * rlo - S * rlo + P


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
def radial_coeffs(a, E, L, Q):
    """Ascending coefficients of R(r), expanded independently."""
    a, E, L, Q = map(LD, (a, E, L, Q))
    K = (a * E - L) ** 2 + Q
    # (E r^2 + (E a^2 - aL))^2 - (r^2-2r+a^2)(r^2+K)
    m = E * a * a - a * L
    return [m * m - a * a * K, 2 * K, 2 * E * m - K - a * a, LD(2), E * E - 1]


def polyval(c, r):
    v = c[-1]
    for q in c[-2::-1]:
        v = v * r + q
    return v


def radial_roots_exact(a, E, L, Q):
    """All four roots of R, polished in extended precision, unordered."""
    c = radial_coeffs(a, E, L, Q)
    rts = np.roots([float(q) for q in c[::-1]]).astype(np.clongdouble)
    d = [i * c[i] for i in range(1, 5)]
    for _ in range(60):
        new = []
        for i, r in enumerate(rts):
            # Aberth iteration: converges for clusters too
            f, fp = polyval(c, r), polyval(d, r)
            if f == 0:
                new.append(r)
                continue
            n = f / fp if fp != 0 else LD(1e-6)
            s = sum(1 / (r - q) for j, q in enumerate(rts) if j != i and q != r)
            new.append(r - n / (1 - n * s))
        new = np.array(new, dtype=np.clongdouble)
        if np.all(np.abs(new - rts) <= 1e-19 * (1 + np.abs(new))):
            rts = new
            break
        rts = new
    return rts


# --------------------------------------------------------------------------
# the geodesic
# --------------------------------------------------------------------------
def _cos_series(f):
    """Cosine coefficients of an even 2pi-periodic function on a uniform grid."""
    F = np.fft.rfft(f).real / len(f)
    F[1:] *= 2
    if len(f) % 2 == 0:
        F[-1] /= 2
    return F


class Geo:
    """A bound geodesic moving between r_lo and r_hi.

    ``S`` and ``P`` are the sum and product of the other two radial roots.
    All public methods use the documented phase convention: q_r = 0 at r_lo with
    r increasing afterwards, q_theta = 0 at theta_min with theta increasing.
    """

    def __init__(self, a, E, L, Q, rlo, rhi, S, P, tol=1e-14, nmax=1 << 15):
        self.a, self.E, self.L, self.Q = map(float, (a, E, L, Q))
        self.k = float(1 - LD(E) * LD(E))
        self.rlo, self.rhi = float(rlo), float(rhi)
        self.S, self.P = float(S), float(P)
        self._rlo_ld, self._rhi_ld = LD(rlo), LD(rhi)
        a, E, L, Q = map(LD, (a, E, L, Q))
        b = a * a * (1 - E * E)
        # z- : smaller root of b z^2 - (Q+b+L^2) z + Q
        s = Q + b + L * L
        disc = s * s - 4 * b * Q
        self.zm = float(2 * Q / (s + np.sqrt(disc)))
        self.B = float((s + np.sqrt(disc)) / 2)  # = b z+
        self.b = float(b)
        self.L2_over = float(L)
        # 1 - z- without cancellation:  b(1-z-)^2 + (Q+L^2-b)(1-z-) - L^2 = 0
        g = Q + L * L - b
        dg = np.sqrt(g * g + 4 * b * L * L)
        self.omz = float(2 * L * L / (g + dg)) if g >= 0 else float((dg - g) / (2 * b))
        rp = 1 + np.sqrt(1 - a * a)
        # r_minus without cancellation
        rm = a * a / rp
        self.rp, self.rm = float(rp), float(rm)
        self.sep = float(rp - rm)
        mid, half = (LD(rlo) + LD(rhi)) / 2, (LD(rhi) - LD(rlo)) / 2
        self.mid, self.half = float(mid), float(half)
        self.inside = {}
        for nm, s_ in (("p", rp), ("m", rm)):
            self.inside[nm] = bool(LD(rlo) < s_ < LD(rhi))
        self._build(tol, nmax)

    # -- helpers
    def _h(self, r):
        # r^2 - S r + P
        return r * r - self.S * r + self.P

    def _build(self, tol, nmax):
        N = 128
        while True:
            psi = 2 * np.pi * np.arange(N) / N
            r = self._r_of(psi)
            w = np.sqrt(self.k * self._h(r))
            g = 1 / w
            series = {"1": g, "r": r * g, "r2": r * r * g}
            for nm, s in (("p", self.rp), ("m", self.rm)):
                if self.inside[nm]:
                    Ws = np.sqrt(self.k * self._h(s))
                    G = -self.k * (r + s - self.S) * g / Ws / (w + Ws)
                    series[nm] = G
                else:
                    series[nm] = g / (r - s)
            cs = {n: _cos_series(f) for n, f in series.items()}
            ok = all(
                np.max(np.abs(c[-N // 8 :])) <= tol * np.max(np.abs(c)) for c in cs.values()
            )
            if ok or N >= nmax:
                self.rad_ok = ok
                break
            N *= 2
        self.Nr = N
        self.cr = cs
        N = 128
        while True:
            chi = 2 * np.pi * np.arange(N) / N
            z2 = self.zm * np.cos(chi) ** 2
            omz2 = self.omz + self.zm * np.sin(chi) ** 2
            v = np.sqrt(self.B - self.b * z2)
            series = {"1": 1 / v, "T": omz2 / v}
            if self.L != 0:
                # L/((1-z^2) v) peaks at the poles; take out L/((1-z^2) v1) with
                # v1 = v(z^2=1) = |L|/sqrt(1-z-), whose integral is elementary
                v1 = abs(self.L) / np.sqrt(self.omz)
                series["F"] = -self.b * self.L / (v * v1 * (v1 + v))
            cs = {n: _cos_series(f) for n, f in series.items()}
            ok = all(
                np.max(np.abs(c[-N // 8 :])) <= tol * np.max(np.abs(c)) for c in cs.values()
            )
            if ok or N >= nmax:
                self.pol_ok = ok
                break
            N *= 2
        self.ct = cs
        self.Nt = N
        # trim tails that are at rounding level
        for cs in (self.cr, self.ct):
            n = 1
            for c in cs.values():
                big = np.nonzero(np.abs(c) > 1e-17 * np.max(np.abs(c)))[0]
                n = max(n, (big[-1] + 1) if len(big) else 1)
            for key in cs:
                cs[key] = cs[key][:n]
        # rates per unit Mino time
        self.Ups_r = 1 / self.cr["1"][0]
        self.Ups_th = 1 / self.ct["1"][0]
        a, E, L = self.a, self.E, self.L
        # T_r = E(r^2+2r+a^2+4) + (4E(2r-a^2)-2aLr)/D ; Phi_r = a(2Er-aL)/D
        self.Ap = (4 * E * (2 * self.rp - a * a) - 2 * a * L * self.rp) / self.sep
        self.Am = -(4 * E * (2 * self.rm - a * a) - 2 * a * L * self.rm) / self.sep
        self.Fp = a * (2 * E * self.rp - a * L) / self.sep
        self.Fm = -a * (2 * E * self.rm - a * L) / self.sep
        c = self.cr
        self.cT = E * (c["r2"] + 2 * c["r"] + (a * a + 4) * c["1"]) + self.Ap * c["p"] + self.Am * c["m"]
        self.cF = self.Fp * c["p"] + self.Fm * c["m"]
        self.Tr_mean = self.cT[0] * self.Ups_r
        self.Fr_mean = self.cF[0] * self.Ups_r
        self.dT = -a * a * E * self.ct["T"]
        self.Tt_mean = self.dT[0] * self.Ups_th
        if L != 0:
            self.dF = self.ct["F"]
            self.turn = float(np.sign(L))
        else:
            self.dF = 0 * self.dT
            self.turn = 0.0
        self.Ft_mean = (self.dF[0] + self.turn) * self.Ups_th
        self.Gamma = self.Tr_mean + self.Tt_mean
        self.Ups_ph = self.Fr_mean + self.Ft_mean

    def _r_of(self, psi):
        return self.rlo + 2 * self.half * np.sin(psi / 2) ** 2

    @staticmethod
    def _integ(c, ang):
        """integral of the cosine series from 0 to ang, minus its mean part."""
        k = np.arange(1, len(c))
        return np.sin(np.multiply.outer(ang, k)) @ (c[1:] / k) if len(c) > 1 else 0 * ang

    def _invert(self, q, c):
        """angle with angle + sum c_k/(k c_0) sin(k angle) = q"""
        q = np.atleast_1d(np.asarray(q, float))
        n = np.floor(q / (2 * np.pi) + 0.5)
        q0 = q - 2 * np.pi * n
        cc = c / c[0]
        k = np.arange(1, len(c))
        # bracketed Newton on [-pi, pi] (monotone increasing map)
        lo, hi = np.full_like(q0, -np.pi), np.full_like(q0, np.pi)
        x = q0.copy()
        for it in range(200):
            ka = np.multiply.outer(x, k)
            f = x + np.sin(ka) @ (cc[1:] / k) - q0
            fp = 1 + np.cos(ka) @ cc[1:]
            lo = np.where(f < 0, x, lo)
            hi = np.where(f > 0, x, hi)
            step = x - f / fp
            bad = ~((step >= lo) & (step <= hi))
            step = np.where(bad, (lo + hi) / 2, step)
            if np.all(np.abs(step - x) <= 1e-15 * (1 + np.abs(x))):
                x = step
                break
            x = step
        return x + 2 * np.pi * n

    # -- public
    def psi(self, q):
        return self._invert(q, self.cr["1"])

    def chi(self, q):
        return self._invert(q, self.ct["1"])

    def r(self, q):
        return self._r_of(self.psi(q))

    def theta(self, q):
        c = self.chi(q)
        z = np.sqrt(self.zm) * np.cos(c)
        s = np.sqrt(self.omz + self.zm * np.sin(c) ** 2)
        return np.arctan2(s, z)

    def _pv(self, psi):
        """log parts of the principal-value integrals of T_r and Phi_r"""
        T, F = 0.0 * psi, 0.0 * psi
        for nm, s, At, Af in (("p", self.rp, self.Ap, self.Fp), ("m", self.rm, self.Am, self.Fm)):
            if self.inside[nm]:
                cs = (self.mid - s) / self.half
                # 1 -/+ cos from the horizon's distance to the turning points
                ps = 2 * np.arctan2(np.sqrt(s - self.rlo), np.sqrt(self.rhi - s))
                gs = 1 / np.sqrt(self.k * self._h(s))
                with np.errstate(divide="ignore"):
                    lg = np.log(np.abs(np.sin((psi - ps) / 2) / np.sin((psi + ps) / 2)))
                pv = gs / (self.half * np.sin(ps)) * lg
                T = T + At * pv
                F = F + Af * pv
        return T, F

    def t_r(self, q):
        """oscillating part of the radial contribution to t, zero at q=0"""
        psi = self.psi(q)
        return (
            self._integ(self.cT, psi) - self.Tr_mean * self._integ(self.cr["1"], psi) + self._pv(psi)[0]
        )

    def phi_r(self, q):
        psi = self.psi(q)
        return (
            self._integ(self.cF, psi) - self.Fr_mean * self._integ(self.cr["1"], psi) + self._pv(psi)[1]
        )

    def t_th(self, q):
        chi = self.chi(q)
        return self._integ(self.dT, chi) - self.Tt_mean * self._integ(self.ct["1"], chi)

    def phi_th(self, q):
        chi = self.chi(q)
        s, c, w = np.sin(chi), np.cos(chi), np.sqrt(self.omz)
        # atan(tan(chi)/w) - chi, continued through every half turn
        osc = self.turn * np.arctan2(s * c * (1 / w - 1), c * c + s * s / w) if self.turn else 0.0
        return self._integ(self.dF, chi) + osc - self.Ft_mean * self._integ(self.ct["1"], chi)

    def angles(self, lam, qr=0, qth=0):
        """The two angle variables, whole turns removed where there are many
        (everything evaluated from them is periodic)."""
        out = []
        for u, q in ((self.Ups_r, qr), (self.Ups_th, qth)):
            v = u * np.atleast_1d(np.asarray(lam, float)) + q
            out.append(np.where(np.abs(v) > 50, np.remainder(v, 2 * np.pi), v))
        return out

    def state(self, lam, phases=(0, 0, 0, 0)):
        """(t, r, theta, phi) with t=q_t0, phi=q_phi0 at lam = 0"""
        qt, qr, qth, qph = phases
        lam = np.atleast_1d(np.asarray(lam, float))
        R, TH = self.angles(lam, qr, qth)
        z = np.zeros(1)
        t = qt + self.Gamma * lam + self.t_r(R) - self.t_r(z + qr) + self.t_th(TH) - self.t_th(z + qth)
        ph = (
            qph + self.Ups_ph * lam + self.phi_r(R) - self.phi_r(z + qr)
            + self.phi_th(TH) - self.phi_th(z + qth)
        )
        return t, self.r(R), self.theta(TH), ph

    def velocity(self, lam, phases=(0, 0, 0, 0)):
        """four-velocity components d x^mu / d tau"""
        qt, qr, qth, qph = phases
        lam = np.atleast_1d(np.asarray(lam, float))
        R, TH = self.angles(lam, qr, qth)
        return self.velocity_at(self.psi(R), self.chi(TH))

    def velocity_at(self, psi, chi):
        """the same from the regular angles"""
        r = self._r_of(psi)
        z = np.sqrt(self.zm) * np.cos(chi)
        s2 = self.omz + self.zm * np.sin(chi) ** 2
        a, E, L = self.a, self.E, self.L
        Sig = r * r + a * a * z * z
        D = (r - self.rp) * (r - self.rm)
        drdl = self.half * np.sin(psi) * np.sqrt(self.k * self._h(r))
        dzdl = -np.sqrt(self.zm) * np.sin(chi) * np.sqrt(self.B - self.b * z * z)
        H = E * (r * r + a * a) - a * L
        with np.errstate(divide="ignore", invalid="ignore"):
            dt = (r * r + a * a) * H / D - a * a * E * s2 + a * L
            dph = a * H / D + (L / s2 if L != 0 else 0) - a * E
        return dt / Sig, drdl / Sig, -dzdl / np.sqrt(s2) / Sig, dph / Sig


def stable(a, p, e, x, **kw):
    """Reference geodesic of a stable orbit. a<0 is the same as (-a, -x)."""
    if a < 0:
        a, x = -a, -x
    E, L, Q = constants(a, p, e, x)
    S, P = other_roots(a, E, L, Q, p, e)
    rlo, rhi = LD(p) / (1 + LD(e)), LD(p) / (1 - LD(e))
    if not rlo * rlo - S * rlo + P > 0:
        raise NoOrbit
    return Geo(a, E, L, Q, rlo, rhi, S, P, **kw)


def classify_roots(a, E, L, Q, tol=1e-9):
    """Real roots (sorted) and complex pair of R in extended precision."""
    rts = radial_roots_exact(a, E, L, Q)
    re = sorted(LD(r.real) for r in rts if abs(r.imag) <= 1e-12 * (1 + abs(r)))
    co = [r for r in rts if abs(r.imag) > 1e-12 * (1 + abs(r))]
    return re, co


def plunge(a, E, L, Q, **kw):
    """Reference geodesic of the bound motion that crosses the horizons."""
    re, co = classify_roots(a, E, L, Q)
    rp = 1 + np.sqrt(1 - LD(a) ** 2)
    if len(re) == 2 and len(co) == 2:
        rlo, rhi = re
        S, P = 2 * LD(co[0].real), LD(abs(co[0])) ** 2
    elif len(re) == 4:
        # allowed regions are [r4,r3] and [r2,r1]; take the one holding r_plus
        r4, r3, r2, r1 = re
        if r2 < rp:
            rlo, rhi, S, P = r2, r1, r3 + r4, r3 * r4
        else:
            rlo, rhi, S, P = r4, r3, r2 + r1, r2 * r1
    else:
        raise NoOrbit
    return Geo(a, E, L, Q, rlo, rhi, S, P, **kw)
