From 07145ce081a943eded0dbf2cc460025668e35c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 01/30] fix: separatrix raised for nearly polar, nearly
 equatorial and slowly spinning parameters

---
 kerrgeopy/constants.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..b26b1f1 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -589,6 +589,31 @@ def _S(p, a, e, x):
     # fmt: on
 
 
+def _bracketed_root(f, args, bracket):
+    """Finds the root of a separatrix polynomial in the given bracket. 
+    If the polynomial does not change sign over the bracket, the root coincides 
+    with one of the ends of the bracket up to rounding error and that end is returned.
+
+    Parameters
+    ----------
+    f : function
+        separatrix polynomial
+    args : tuple
+        extra arguments to pass to f
+    bracket : tuple(double, double)
+        bracket containing the root
+
+    Returns
+    -------
+    double
+    """
+    f0, f1 = f(bracket[0], *args), f(bracket[1], *args)
+    if f0 * f1 > 0:
+        return bracket[0] if abs(f0) < abs(f1) else bracket[1]
+
+    return root_scalar(f, args=args, bracket=bracket).root
+
+
 def separatrix(a, e, x):
     """Returns the value of p at the separatrix for the given orbital parameters 
     computed using the bracked root finding method described in 
@@ -638,12 +663,10 @@ def separatrix(a, e, x):
         return p_equatorial_retrograde.root
 
     if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
+        return _bracketed_root(_S, (a, e, x), [p_equatorial_prograde.root, p_polar.root])
 
     if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+        return _bracketed_root(_S, (a, e, x), [p_polar.root, 12])
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0


From ce4cd8995e46013ff365669e17b1eb18b789ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 02/30] fix: polar roots lost all precision for small spins

---
 kerrgeopy/constants.py          | 35 +++++++++++++++++++++++++++------
 kerrgeopy/frequencies.py        |  8 ++------
 kerrgeopy/initial_conditions.py |  8 ++------
 kerrgeopy/plunge.py             |  7 ++-----
 4 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index b26b1f1..7151347 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -440,6 +440,34 @@ def constants_of_motion(a, p, e, x):
     return E, L, Q
 
 
+def _polar_roots_from_constants(a, E, L, Q):
+    r"""Computes the roots of the polar polynomial :math:`Q - (Q + \beta + L^2) z
+    + \beta z^2` with :math:`\beta = a^2 (1 - E^2)` and :math:`z = \cos^2\theta`.
+    The smaller root is computed without dividing by :math:`\beta`, so that it
+    stays accurate for small spins.
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin of the black hole
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    tuple(double, double)
+        tuple of roots :math:`(z_-, z_+)`. :math:`z_+` is infinite if a = 0.
+    """
+    beta = a**2 * (1 - E**2)
+    s = Q + beta + L**2
+    s_plus_d = s + sqrt((Q - beta) ** 2 + L**2 * (L**2 + 2 * Q + 2 * beta))
+    return 2 * Q / s_plus_d, inf if a == 0 else s_plus_d / (2 * beta)
+
+
 def apex_from_constants(a, E, L, Q):
     r"""Computes the orbital parameters :math:`(a,p,e,x)` for a 
     stable bound orbit with the given constants of motion
@@ -474,12 +502,7 @@ def apex_from_constants(a, E, L, Q):
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..838b9fc 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params
+from .constants import _polar_roots_from_constants, _standardize_params
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, arcsin, floor, where
@@ -511,11 +511,7 @@ def plunging_mino_frequencies(a, E, L, Q):
         # equation 53
         upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)
     else:
-        # polar polynomial written in terms of z = cos^2(theta)
-        Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-        polar_roots = Z.roots()
-        if a == 0:
-            polar_roots = [polar_roots[0], polar_roots[0]]
+        polar_roots = _polar_roots_from_constants(a, E, L, Q)
         constants = (E, L, Q)
         upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
             a, constants, radial_roots, polar_roots
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..2eb5651 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,7 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import plunging_radial_roots
+from .constants import _polar_roots_from_constants, plunging_radial_roots
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -180,11 +180,7 @@ def stable_orbit_initial_phases(
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots_from_constants(a, E, L, Q)
     z_minus, z_plus = polar_roots
 
     # recompute radial roots if they are not passed in
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..e0444a6 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -3,6 +3,7 @@ from numpy import sqrt, arctan, arctan2, arccos, log, pi
 from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
+from .constants import _polar_roots_from_constants
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
 from .orbit import Orbit
@@ -652,11 +653,7 @@ def _real_plunge_trajectory(
     constants = (E, L, Q)
     radial_roots = plunging_radial_roots(a, E, L, Q)
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots_from_constants(a, E, L, Q)
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
         a, constants, radial_roots, polar_roots
-- 
2.43.0


From 031d813c4db0793624fef096c32a9cad5dc33c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 03/30] fix: circular and spherical orbits were taken for
 plunges or given complex parameters

---
 kerrgeopy/constants.py          | 26 +++++++++++++++++++++++++-
 kerrgeopy/initial_conditions.py | 15 ++++++++++++---
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 7151347..6651174 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -468,6 +468,30 @@ def _polar_roots_from_constants(a, E, L, Q):
     return 2 * Q / s_plus_d, inf if a == 0 else s_plus_d / (2 * beta)
 
 
+def _merge_double_root(radial_roots, tol=1e-4):
+    """Replaces the two outermost roots of the radial polynomial by their common
+    real part if they are a nearly degenerate complex pair. The turning points of
+    circular and spherical orbits coincide, so rounding errors can make them complex.
+
+    Parameters
+    ----------
+    radial_roots : numpy.ndarray
+        radial roots in increasing order
+    tol : double, optional
+        size of the imaginary part relative to the real part below which
+        the roots are considered equal, defaults to 1e-4
+
+    Returns
+    -------
+    numpy.ndarray
+        radial roots in increasing order
+    """
+    if np.iscomplex(radial_roots[2:]).all() and np.isreal(radial_roots[:2]).all():
+        if abs(radial_roots[3].imag) < tol * radial_roots[3].real:
+            return radial_roots.real
+    return radial_roots
+
+
 def apex_from_constants(a, E, L, Q):
     r"""Computes the orbital parameters :math:`(a,p,e,x)` for a 
     stable bound orbit with the given constants of motion
@@ -498,7 +522,7 @@ def apex_from_constants(a, E, L, Q):
             E**2 - 1,
         ]
     )
-    radial_roots = R.roots()
+    radial_roots = _merge_double_root(R.roots())
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 2eb5651..54634b0 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,11 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import _polar_roots_from_constants, plunging_radial_roots
+from .constants import (
+    _merge_double_root,
+    _polar_roots_from_constants,
+    plunging_radial_roots,
+)
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -100,6 +104,11 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     )
     radial_roots = R.roots()
 
+    # circular or spherical orbit at the double root r1 = r2
+    merged_roots = _merge_double_root(radial_roots, tol)
+    if merged_roots[3] == merged_roots[2] and abs(r0 - merged_roots[3]) <= tol * r0:
+        return True
+
     # get the real roots and the complex roots
     real_roots = np.sort(np.real(radial_roots[np.isreal(radial_roots)]))
     complex_roots = radial_roots[np.iscomplex(radial_roots)]
@@ -194,14 +203,14 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
+        radial_roots = _merge_double_root(R.roots())
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
     else:
         r1, r2, r3, r4 = radial_roots
 
     # check for turning points in r
-    if abs(r0 - r2) < tol:
+    if abs(r0 - r2) < tol or r1 == r2:
         q_r0 = 0
     elif abs(r0 - r1) < tol:
         q_r0 = pi
-- 
2.43.0


From deb3e09902b8578aaeaa9111bf7cd01d8efa2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 04/30] fix: wrong polar phase for inclined Schwarzschild
 orbits and for positive frequencies of retrograde orbits

---
 kerrgeopy/initial_conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 54634b0..c279b14 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -206,6 +206,7 @@ def stable_orbit_initial_phases(
         radial_roots = _merge_double_root(R.roots())
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
+        radial_roots = r1, r2, r3, r4
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -255,7 +256,9 @@ def stable_orbit_initial_phases(
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        # the sign of the frequency follows different conventions for prograde and retrograde orbits
+        upsilon_theta = abs(upsilon_theta)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From e778f8bd6c728ee5cdadacc1da1c5dac60f08b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 05/30] fix: nan initial phases for plunging orbits at turning
 points

---
 kerrgeopy/initial_conditions.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index c279b14..bac2263 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -353,17 +353,13 @@ def plunging_orbit_initial_phases(
         A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
         B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
         k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
+        # keep the arguments of arcsin in range at the turning points despite rounding errors
+        y_r = np.clip((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1)), -1, 1)
+        y_theta = np.clip(cos(theta0) / z1, -1, 1) if z1 > 0 else 1
         # equation 49
-        lambda_r0 = (
-            -1
-            / sqrt((1 - E**2) * A * B)
-            * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
-                k_r**2,
-            )
-        )
+        lambda_r0 = -1 / sqrt((1 - E**2) * A * B) * ellipkinc(pi / 2 - arcsin(y_r), k_r**2)
         # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(y_theta), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
-- 
2.43.0


From d6b9289b75460de15c07a224e50cb778de2a3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 06/30] fix: trajectory_deltas raised for plunges with four
 real radial roots

---
 kerrgeopy/orbit.py  | 4 +++-
 kerrgeopy/plunge.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..5f9700a 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -3,6 +3,7 @@ from .spacetime import KerrSpacetime
 from .initial_conditions import *
 from .units import *
 from .constants import (
+    _polar_roots_from_constants,
     scale_constants,
     apex_from_constants,
     stable_polar_roots,
@@ -156,8 +157,9 @@ class Orbit:
 
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
+                polar_roots = _polar_roots_from_constants(self.a, self.E, self.L, self.Q)
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index e0444a6..90151fc 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -110,7 +110,9 @@ class PlungingOrbit(Orbit):
         else:
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            theta, t_theta, phi_theta = polar_solutions(
+                self.a, constants, _polar_roots_from_constants(self.a, self.E, self.L, self.Q)
+            )
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From b7c91b32ee76d23bf544dfa0e6e4074bb1adf6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 07/30] fix: is_visible compared the norm of all points
 together with the horizon radius

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 5f9700a..fd2a5b4 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -587,7 +587,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 9ba90337a5ffd116af156003b2cecb6be73539df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 08/30] fix: angular momentum and Carter constant in physical
 units were scaled by the solar mass in kg

---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 6651174..7635e74 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -812,5 +812,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From d9afdbd0125ba096c0bf26c3bb32d31a99d624b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 09/30] fix: animate raised for fractional tail lengths

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index fd2a5b4..f97b389 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -796,7 +796,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, j - int(tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0


From f5a1e9a9cc8d0e616d402f56694e99716032c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 10/30] fix: stable_trajectory mixed two conventions for
 negative spins

---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From d2ee3fef57ea85a1d4382c3f32c8c2f0cca5cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 11/30] fix: infinite time for equatorial plunges with four
 real radial roots

---
 kerrgeopy/frequencies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 838b9fc..4f2b85d 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -689,13 +689,11 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From ee9f0f5ef4e68a701268829e85062723230cc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 12/30] fix: azimuthal and time frequencies wrong for
 retrograde orbits when given the polar frequency

---
 kerrgeopy/frequencies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 4f2b85d..3f93101 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -250,6 +250,8 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
         upsilon_r = r_frequency(a, p, e, x, constants)
     if upsilon_theta is None:
         upsilon_theta = theta_frequency(a, p, e, x, constants)
+    # the expression below assumes that the polar frequency has the sign of L
+    upsilon_theta = copysign(upsilon_theta, L)
 
     # simplified form of epsilon0*z_plus
     e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
@@ -342,6 +344,8 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
         upsilon_r = r_frequency(a, p, e, x, constants)
     if upsilon_theta is None:
         upsilon_theta = theta_frequency(a, p, e, x, constants)
+    # the expression below assumes that the polar frequency has the sign of L
+    upsilon_theta = copysign(upsilon_theta, L)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
-- 
2.43.0


From a4be1a84774a0cbb50e4699f0be73551dfce3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 13/30] fix: polar motion of plunges lost all precision for
 small spins

---
 kerrgeopy/frequencies.py        | 28 +++-------------------------
 kerrgeopy/initial_conditions.py | 28 +++-------------------------
 kerrgeopy/plunge.py             | 26 +++-----------------------
 3 files changed, 9 insertions(+), 73 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 3f93101..01454dd 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -485,31 +485,9 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_r = pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(k_r**2))
 
         # equation 14
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
 
         # equation 53
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index bac2263..59fe362 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -320,31 +320,9 @@ def plunging_orbit_initial_phases(
     r1, r2, r3, r4 = radial_roots
 
     if np.iscomplex(r3):
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
         rho_r = np.real(r3)
         rho_i = np.imag(r4)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 90151fc..476f230 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -421,29 +421,9 @@ def plunging_polar_solutions(a, E, L, Q):
         tuple of polar solutions :math:`(\theta(q_\theta),
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
-    z1 = sqrt(
-        1
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            - sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
-    z2 = sqrt(
-        a**2
-        * (1 - E**2)
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            + sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
+    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+    z1 = sqrt(z_minus)
+    z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From 6d6c56615e35a18fccff19fc671b76c50d72b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/30] fix: unbound orbits were accepted and gave nan
 trajectories

---
 kerrgeopy/orbit.py  | 3 +++
 kerrgeopy/plunge.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index f97b389..6d4d018 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -81,6 +81,9 @@ class Orbit:
         )
         self.E, self.L, self.Q = E, L, Q
 
+        if abs(E) >= 1:
+            raise ValueError("Unbound orbits are not currently supported")
+
         if is_stable(a, initial_position, initial_velocity):
             self.stable = True
             a, p, e, x = apex_from_constants(a, E, L, Q)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 476f230..5e813f0 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -72,6 +72,8 @@ class PlungingOrbit(Orbit):
 
         if a == 0:
             raise ValueError("Schwarzschild plunges are not currently supported")
+        if abs(E) >= 1:
+            raise ValueError("Unbound orbits are not currently supported")
 
         self.stable = False
         self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From e411dd0065b3f309ad40fcc3765ba1a0dd9bfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 15/30] fix: plunging orbits around extreme black holes were
 accepted and gave nan times

---
 kerrgeopy/orbit.py  | 2 ++
 kerrgeopy/plunge.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 6d4d018..4f3ad2d 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -81,6 +81,8 @@ class Orbit:
         )
         self.E, self.L, self.Q = E, L, Q
 
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
         if abs(E) >= 1:
             raise ValueError("Unbound orbits are not currently supported")
 
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5e813f0..d878447 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -72,6 +72,8 @@ class PlungingOrbit(Orbit):
 
         if a == 0:
             raise ValueError("Schwarzschild plunges are not currently supported")
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
         if abs(E) >= 1:
             raise ValueError("Unbound orbits are not currently supported")
 
-- 
2.43.0


From a4872d93f7cfefa34abcf28aca4b9742005289ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 16/30] fix: is_visible raised for points given as a list

---
 kerrgeopy/orbit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 4f3ad2d..e2a8786 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -568,6 +568,7 @@ class Orbit:
         np.array
             boolean array indicating whether each point is visible
         """
+        points = np.asarray(points)
         # compute event horizon radius
         event_horizon = 1 + sqrt(1 - self.a**2)
 
-- 
2.43.0


From 0d91a0a8cc42447452144eba0cfd1022a89a1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 17/30] fix: energy of nearly circular orbits lost all
 precision

---
 kerrgeopy/constants.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 7635e74..213b09c 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -195,6 +195,37 @@ def _coefficients_derivative(r, a, x):
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
 
 
+def _coefficients_difference(r1, r2, a, x):
+    """Computes the difference quotients :math:`(f(r_1)-f(r_2))/(r_1-r_2)` and likewise
+    for g, h and d of the coefficients from equation B.5 in
+    `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_
+
+    Parameters
+    ----------
+    r1 : double
+        dimensionless distance from the black hole
+    r2 : double
+        dimensionless distance from the black hole
+    a : double
+        dimensionless spin of the black hole
+    x : double
+        cosine of the orbital inclination
+
+    Returns
+    -------
+    tuple(double, double, double, double)
+    """
+    z = sqrt(1 - x**2)
+    quartic = (r1 + r2) * (r1**2 + r2**2)
+    cubic = r1**2 + r1 * r2 + r2**2
+    f = quartic + a**2 * ((1 + z**2) * (r1 + r2) + 2 * (1 - z**2))
+    g = 2 * a
+    h = (r1 + r2 - 2) / (1 - z**2)
+    d = quartic - 2 * cubic + a**2 * ((1 + z**2) * (r1 + r2) - 2 * z**2)
+
+    return f, g, h, d
+
+
 def _standardize_params(a, x):
     """Changes signs of a and x so that a is positive 
     and x encodes the direction of the orbit.
@@ -274,8 +305,10 @@ def energy(a, p, e, x):
     else:
         r1 = p / (1 - e)
         r2 = p / (1 + e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
+        f1, g1, h1, d1 = _coefficients(r2, a, x)
+        # the difference quotients give the same ratio as the coefficients at r1
+        # without cancellation for nearly circular orbits
+        f2, g2, h2, d2 = _coefficients_difference(r1, r2, a, x)
 
     # equation B.19 - B.21
     kappa = d1 * h2 - h1 * d2
-- 
2.43.0


From f0a6f4f0f4e038e4d94f9830ee5dce6493a173d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 18/30] fix: separatrix raised for minute spins

---
 kerrgeopy/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 213b09c..0a5ad17 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -688,7 +688,7 @@ def _bracketed_root(f, args, bracket):
     double
     """
     f0, f1 = f(bracket[0], *args), f(bracket[1], *args)
-    if f0 * f1 > 0:
+    if (f0 > 0 and f1 > 0) or (f0 < 0 and f1 < 0):
         return bracket[0] if abs(f0) < abs(f1) else bracket[1]
 
     return root_scalar(f, args=args, bracket=bracket).root
-- 
2.43.0


From 9aba21f9813284a9c98da086795623784c99a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 19/30] fix: constants of motion of nearly polar orbits lost
 all precision

---
 kerrgeopy/constants.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 0a5ad17..300539e 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -163,7 +163,7 @@ def _coefficients(r, a, x):
     delta = r**2 - 2 * r + a**2
     f = lambda r: r**4 + a**2 * (r * (r + 2) + z**2 * delta)
     g = lambda r: 2 * a * r
-    h = lambda r: r * (r - 2) + z**2 / (1 - z**2) * delta
+    h = lambda r: r * (r - 2) + z**2 / x**2 * delta
     d = lambda r: (r**2 + a**2 * z**2) * delta
 
     return f(r), g(r), h(r), d(r)
@@ -187,9 +187,9 @@ def _coefficients_derivative(r, a, x):
     tuple(double, double, double, double)
     """
     z = sqrt(1 - x**2)
-    f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + (1 - z**2))
+    f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + x**2)
     g_prime = lambda r: 2 * a
-    h_prime = lambda r: 2 * (r - 1) / (1 - z**2)
+    h_prime = lambda r: 2 * (r - 1) / x**2
     d_prime = lambda r: 2 * (2 * r - 3) * r**2 + 2 * a**2 * ((1 + z**2) * r - z**2)
 
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
@@ -218,9 +218,9 @@ def _coefficients_difference(r1, r2, a, x):
     z = sqrt(1 - x**2)
     quartic = (r1 + r2) * (r1**2 + r2**2)
     cubic = r1**2 + r1 * r2 + r2**2
-    f = quartic + a**2 * ((1 + z**2) * (r1 + r2) + 2 * (1 - z**2))
+    f = quartic + a**2 * ((1 + z**2) * (r1 + r2) + 2 * x**2)
     g = 2 * a
-    h = (r1 + r2 - 2) / (1 - z**2)
+    h = (r1 + r2 - 2) / x**2
     d = quartic - 2 * cubic + a**2 * ((1 + z**2) * (r1 + r2) - 2 * z**2)
 
     return f, g, h, d
@@ -444,7 +444,7 @@ def carter_constant(a, p, e, x, E=None, L=None):
     if L is None:
         L = angular_momentum(a, p, e, x, E)
     #  equation B.4
-    return z**2 * (a**2 * (1 - E**2) + L**2 / (1 - z**2))
+    return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
 
 def constants_of_motion(a, p, e, x):
-- 
2.43.0


From 6b8a864168e78e8f56c7e8110088c53858f11f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 20/30] fix: angular momentum of highly eccentric orbits lost
 all precision

---
 kerrgeopy/constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 300539e..062ab42 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -378,10 +378,10 @@ def angular_momentum(a, p, e, x, E=None):
 
     # generic case
     else:
-        r1 = p / (1 - e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
+        r2 = p / (1 + e)
+        f2, g2, h2, d2 = _coefficients(r2, a, x)
         # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From fb3ea5b6a964a760d965167a047b70d138b3f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 21/30] fix: radial roots of highly eccentric and very wide
 orbits lost all precision

---
 kerrgeopy/constants.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 062ab42..074ba26 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -39,8 +39,11 @@ def stable_radial_roots(a, p, e, x, constants=None):
     r1 = p / (1 - e)
     r2 = p / (1 + e)
 
-    A_plus_B = 2 / (1 - E**2) - r1 - r2
     AB = a**2 * Q / (r1 * r2 * (1 - E**2))
+    # obtained from the linear coefficient of the radial polynomial because 2/(1-E^2)-r1-r2
+    # suffers from cancellation. L and a have the same sign for prograde orbits
+    K = (abs(L) - copysign(a, a * x) * E) ** 2 + Q
+    A_plus_B = (2 * K / (1 - E**2) - AB * (r1 + r2)) / (r1 * r2)
 
     r3 = (A_plus_B + sqrt(A_plus_B**2 - 4 * AB)) / 2
     r4 = AB / r3
-- 
2.43.0


From bc4596d65e4df6a71876f5141f325385b8da2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 22/30] fix: energy was nan for some nearly marginally bound
 orbits

---
 kerrgeopy/constants.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 074ba26..635f07e 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -320,15 +320,14 @@ def energy(a, p, e, x):
     epsilon = d1 * g2 - g1 * d2
     eta = f1 * g2 - g1 * f2
 
+    # rounding errors can make this negative for nearly marginally bound orbits
+    discriminant = max(
+        sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2), 0
+    )
+
     # equation B.22
     return sqrt(
-        (
-            kappa * rho
-            + 2 * epsilon * sigma
-            - sign(x)
-            * 2
-            * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
-        )
+        (kappa * rho + 2 * epsilon * sigma - sign(x) * 2 * sqrt(discriminant))
         / (rho**2 + 4 * eta * sigma)
     )
 
-- 
2.43.0


From 65f6ef7bc98ab2a95fed8efa9af20652f347f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 23/30] fix: polar roots of nearly polar orbits raised
 ZeroDivisionError

---
 kerrgeopy/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 635f07e..9302d2f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -140,7 +140,7 @@ def stable_polar_roots(a, p, e, x, constants=None):
     z_minus = 1 - x**2
     # z_plus = a**2*(1-E**2)/(L**2*epsilon0)+1/(epsilon0*(1-z_minus))
     # simplified using definition of carter constant
-    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * (1 - z_minus))
+    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * x**2)
 
     return z_minus, z_plus
 
-- 
2.43.0


From 9b423e2f8f2228c62b0f1384dc152167d94ea9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 24/30] fix: frequencies and trajectories of nearly polar
 orbits lost all precision

---
 kerrgeopy/frequencies.py        | 67 ++++++++++++++++++++++++++-------
 kerrgeopy/initial_conditions.py |  4 +-
 kerrgeopy/plunge.py             |  9 ++++-
 kerrgeopy/stable.py             | 11 +++---
 4 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 01454dd..6c411c9 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -40,7 +40,7 @@ def _ellipeinc(phi, m):
     return result.item() if np.isscalar(phi) else result
 
 
-def _ellippi(n, m):
+def _ellippi(n, m, n_complement=None):
     r"""Complete elliptic integral of the third kind defined as 
     :math:`\Pi(n,m) = \int_0^{\frac{\pi}{2}} \frac{d\theta}{(1-n\sin^2{\theta})\sqrt{1-m\sin^2{\theta}}}`
 
@@ -48,18 +48,22 @@ def _ellippi(n, m):
     ----------
     n : double
     m : double
+    n_complement : double, optional
+        value of 1 - n, can be passed in to avoid loss of precision if n is close to 1
 
     Returns
     -------
     double
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
+    if n_complement is None:
+        n_complement = 1 - n
 
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
-    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, 1 - n)
+    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, n_complement)
 
 
-def _ellippiinc(phi, n, m):
+def _ellippiinc(phi, n, m, n_complement=None):
     r"""Incomplete elliptic integral of the third kind defined as 
     :math:`\Pi(\phi,n,m) = \int_0^{\phi} \frac{1}{1-n\sin^2\theta}\frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`.
 
@@ -68,12 +72,16 @@ def _ellippiinc(phi, n, m):
     phi : double
     n : double
     m : double
+    n_complement : double, optional
+        value of 1 - n, can be passed in to avoid loss of precision if n is close to 1
 
     Returns
     -------
     double
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
+    if n_complement is None:
+        n_complement = 1 - n
 
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
@@ -82,18 +90,47 @@ def _ellippiinc(phi, n, m):
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-    ) ** 3 * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, 1 - n * sin(phi) ** 2)
+    ) ** 3 * elliprj(
+        cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, cos(phi) ** 2 + n_complement * sin(phi) ** 2
+    )
 
     result = where(
         num_cycles % 2 == 0,
-        num_cycles * _ellippi(n, m) + integral,
-        (num_cycles + 1) * _ellippi(n, m) - integral,
+        num_cycles * _ellippi(n, m, n_complement) + integral,
+        (num_cycles + 1) * _ellippi(n, m, n_complement) - integral,
     )
 
     # return scalar for scalar input
     return result.item() if np.isscalar(phi) else result
 
 
+def _z_minus_complement(a, constants, polar_roots):
+    r"""Computes :math:`1 - z_-` without loss of precision for nearly polar orbits
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin of the black hole
+    constants : tuple(double, double, double)
+        dimensionless constants of motion for the orbit in the form
+        :math:`(\mathcal{E},\mathcal{L},\mathcal{Q})`
+    polar_roots : tuple(double, double)
+        tuple containing the roots of the polar equation :math:`(z_-, z_+)`
+
+    Returns
+    -------
+    double
+    """
+    E, L, Q = constants
+    z_minus, z_plus = polar_roots
+    if z_minus < 0.5:
+        return 1 - z_minus
+    if a == 0:
+        return L**2 / (L**2 + Q)
+    # the product of 1 - z_- and 1 - z_+ is the value of the polar polynomial at z = 1
+    return L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
+
+
 def r_frequency(a, p, e, x, constants=None):
     """Computes the frequency of motion in r in Mino time
 
@@ -188,7 +225,7 @@ def theta_frequency(a, p, e, x, constants=None):
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * x**2 + L**2) / (L**2 * x**2)
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -254,7 +291,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     upsilon_theta = copysign(upsilon_theta, L)
 
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * x**2 + L**2) / (L**2 * x**2)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
@@ -268,7 +305,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, x**2
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
@@ -334,7 +371,7 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
+        L**2 / ((1 - E**2) * abs(x))
         if a == 0
         else a**2 * z_plus / sqrt(epsilon0 * z_plus)
     )
@@ -560,8 +597,9 @@ def _theta_frequency_from_constants(a, constants, radial_roots, polar_roots):
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
+    z_complement = _z_minus_complement(a, constants, polar_roots)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * z_complement + L**2) / (L**2 * z_complement)
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -612,8 +650,9 @@ def _phi_frequency_from_constants(
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
+    z_complement = _z_minus_complement(a, constants, polar_roots)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * z_complement + L**2) / (L**2 * z_complement)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
@@ -627,7 +666,7 @@ def _phi_frequency_from_constants(
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, z_complement
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
@@ -679,7 +718,7 @@ def _gamma_from_constants(
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
+        L**2 / ((1 - E**2) * sqrt(_z_minus_complement(a, constants, polar_roots)))
         if a == 0
         else a**2 * z_plus / sqrt(epsilon0 * z_plus)
     )
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 59fe362..fcc65ad 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -2,6 +2,7 @@
 from .frequencies import (
     _r_frequency_from_constants,
     _theta_frequency_from_constants,
+    _z_minus_complement,
     plunging_mino_frequencies,
 )
 from .constants import (
@@ -253,7 +254,8 @@ def stable_orbit_initial_phases(
 
         k_theta = sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
-        e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+        z_complement = _z_minus_complement(a, (E, L, Q), polar_roots)
+        e0zp = (a**2 * (1 - E**2) * z_complement + L**2) / (L**2 * z_complement)
 
         # Fujita and Hikida equation 37
         lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index d878447..4879341 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -4,7 +4,11 @@ from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
 from .constants import _polar_roots_from_constants
-from .frequencies import _mino_frequencies_from_constants, _ellippiinc
+from .frequencies import (
+    _mino_frequencies_from_constants,
+    _ellippiinc,
+    _z_minus_complement,
+)
 from .stable import *
 from .orbit import Orbit
 from .units import *
@@ -429,6 +433,7 @@ def plunging_polar_solutions(a, E, L, Q):
     z1 = sqrt(z_minus)
     z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
+    z_complement = _z_minus_complement(a, (E, L, Q), (z_minus, z_plus))
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
@@ -458,7 +463,7 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
         # equation 31
-        return L / z2 * _ellippiinc(xi_theta, z1**2, k_theta**2)
+        return L / z2 * _ellippiinc(xi_theta, z_minus, k_theta**2, z_complement)
 
     return theta, t_theta, phi_theta
 
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 73486b7..06f2c05 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -1,7 +1,7 @@
 """Module implementing the stable bound orbit solutions of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_"""
 from .constants import *
 from .constants import _standardize_params
-from .frequencies import _ellippi, _ellippiinc, _ellipeinc
+from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _z_minus_complement
 from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
@@ -410,11 +410,12 @@ def polar_solutions(a, constants, polar_roots):
     E, L, Q = constants
     z_minus, z_plus = polar_roots
     epsilon0 = a**2 * (1 - E**2) / L**2
+    z_complement = _z_minus_complement(a, constants, polar_roots)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (a**2 * (1 - E**2) * z_complement + L**2) / (L**2 * z_complement)
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
+        L**2 / ((1 - E**2) * sqrt(z_complement))
         if a == 0
         else a**2 * z_plus / sqrt(epsilon0 * z_plus)
     )
@@ -453,8 +454,8 @@ def polar_solutions(a, constants, polar_roots):
             * 1
             / sqrt(e0zp)
             * (
-                _ellippiinc(psi_theta, z_minus, k_theta**2)
-                - 2 / pi * _ellippi(z_minus, k_theta**2) * (q_theta + pi / 2)
+                _ellippiinc(psi_theta, z_minus, k_theta**2, z_complement)
+                - 2 / pi * _ellippi(z_minus, k_theta**2, z_complement) * (q_theta + pi / 2)
             )
         )
 
-- 
2.43.0


From 0045c8d55ac6983d7a1f3b5070e36dfc233cda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 25/30] fix: wrong constants of motion for large p given as a
 fixed width integer

---
 kerrgeopy/constants.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 9302d2f..0bebfaf 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -274,6 +274,9 @@ def energy(a, p, e, x):
     if not is_stable(a, p, e, x):
         raise ValueError("Not a stable orbit")
 
+    # fixed width integers would overflow in the powers of p below
+    p = float(p)
+
     # marginally bound case
     if e == 1:
         return 1
@@ -420,6 +423,9 @@ def carter_constant(a, p, e, x, E=None, L=None):
     if not is_stable(a, p, e, x):
         raise ValueError("Not a stable orbit")
 
+    # fixed width integers would overflow in the powers of p below
+    p = float(p)
+
     # polar case
     if x == 0:
         # expression from ConstantsOfMotion.m in the KerrGeodesics mathematica library
-- 
2.43.0


From 6d17dfdb8884a9ded2efd48346a8a0505ed63858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 26/30] fix: azimuth of plunges with vanishing angular momentum
 was not a number

---
 kerrgeopy/frequencies.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 6c411c9..3690735 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -125,10 +125,13 @@ def _z_minus_complement(a, constants, polar_roots):
     z_minus, z_plus = polar_roots
     if z_minus < 0.5:
         return 1 - z_minus
-    if a == 0:
-        return L**2 / (L**2 + Q)
-    # the product of 1 - z_- and 1 - z_+ is the value of the polar polynomial at z = 1
-    return L**2 / (a**2 * (1 - E**2) * (z_plus - 1))
+    # 1 - z_- is the positive root of beta*u**2 + b*u - L**2, computed without cancellation
+    beta = a**2 * (1 - E**2)
+    b = Q + L**2 - beta
+    sqrt_discriminant = sqrt(b**2 + 4 * beta * L**2)
+    if b > 0:
+        return 2 * L**2 / (b + sqrt_discriminant)
+    return (sqrt_discriminant - b) / (2 * beta)
 
 
 def r_frequency(a, p, e, x, constants=None):
-- 
2.43.0


From 4bd1cd1ee24ad112a3d5ae850d26e73fc10a8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:21 +0000
Subject: [PATCH 27/30] fix: polar plunges were accepted and had an azimuth
 that is not a number

---
 kerrgeopy/orbit.py  | 2 ++
 kerrgeopy/plunge.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index e2a8786..5146ba4 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -105,6 +105,8 @@ class Orbit:
         else:
             if a == 0:
                 raise ValueError("Schwarzschild plunges are not currently supported")
+            if L == 0 and Q >= a**2 * (1 - E**2):
+                raise ValueError("Polar orbits not supported")
             self.stable = False
             self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
             self.initial_phases = plunging_orbit_initial_phases(
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 4879341..bc13220 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -80,6 +80,8 @@ class PlungingOrbit(Orbit):
             raise ValueError("Extreme Kerr not supported")
         if abs(E) >= 1:
             raise ValueError("Unbound orbits are not currently supported")
+        if L == 0 and Q >= a**2 * (1 - E**2):
+            raise ValueError("Polar orbits not supported")
 
         self.stable = False
         self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From 18908658fe85b56159d25120f61d5cfa659dd4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:58 +0000
Subject: [PATCH 28/30] fix: time along plunges was wrong or not a number where
 the distances A and B coincide

---
 kerrgeopy/plunge.py | 56 +++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index bc13220..a0583ad 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -2,7 +2,7 @@
 from numpy import sqrt, arctan, arctan2, arccos, log, pi
 from numpy.polynomial import Polynomial
 import numpy as np
-from scipy.special import ellipj, ellipeinc, ellipk
+from scipy.special import ellipj, ellipeinc, ellipk, elliprj
 from .constants import _polar_roots_from_constants
 from .frequencies import (
     _mino_frequencies_from_constants,
@@ -160,6 +160,30 @@ class PlungingOrbit(Orbit):
         )
 
 
+def _ellippiinc_difference(phi, n, m):
+    r"""Computes :math:`(\Pi(\phi,n,m) - F(\phi,m))/n`, the integral 
+    :math:`\int_0^{\phi} \frac{\sin^2\theta}{1-n\sin^2\theta}
+    \frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`, without loss of precision for small n.
+
+    Parameters
+    ----------
+    phi : double
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    # number of half periods between phi and the interval [-pi/2,pi/2]
+    num_half_periods = np.floor(phi / pi + 1 / 2)
+    s = np.sin(phi - num_half_periods * pi)
+    # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
+    complete = elliprj(0, 1 - m, 1, 1 - n) / 3
+    incomplete = s**3 / 3 * elliprj(1 - s**2, 1 - m * s**2, 1, 1 - n * s**2)
+    return 2 * num_half_periods * complete + incomplete
+
+
 def plunging_radial_integrals(a, E, L, Q):
     r"""Computes the radial integrals :math:`I_r`, :math:`I_{r^2}` and 
     :math:`I_{r_\pm}` defined in equation 39 of `Dyson and van de Meent 
@@ -194,7 +218,8 @@ def plunging_radial_integrals(a, E, L, Q):
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
     B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
-    f = 4 * A * B / (A - B) ** 2
+    # inverse of f as defined in equation 42, which stays finite when A = B
+    f_inv = (A - B) ** 2 / (4 * A * B)
     k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -211,37 +236,40 @@ def plunging_radial_integrals(a, E, L, Q):
         # equation 43
         sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
         mino_time = q_r / upsilon_r
-        # equation 46
+        # equation 46, where the terms that diverge when A = B cancel
         return (
-            (A * r1 - B * r2) / (A - B) * mino_time
+            (r1 + r2) / 2 * mino_time
             - 1 / sqrt(1 - E**2) * arctan((r2 - r1) * sn / (2 * sqrt(A * B) * dn))
-            + (A + B)
+            - (A + B)
             * (r2 - r1)
-            / (2 * (A - B) * sqrt(A * B * (1 - E**2)))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
+            * (A - B)
+            / (8 * A * B * sqrt(A * B * (1 - E**2)))
+            * _ellippiinc_difference(xi_r, -f_inv, k_r**2)
         )
 
     def I_r2(q_r):
         # equation 43
         sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
         mino_time = q_r / upsilon_r
-        # equation 47
+        # equation 47, where the terms that diverge when A = B cancel
         return (
-            (A * r1**2 - B * r2**2) / (A - B) * mino_time
+            ((r1**2 + r2**2) / 2 - (A + B) ** 2 / 4) * mino_time
             + sqrt(A * B) / sqrt(1 - E**2) * ellipeinc(xi_r, k_r**2)
-            - (A + B)
+            + (A + B)
             * (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
-            / (4 * (A - B) * sqrt((1 - E**2) * A * B))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
+            * (A - B)
+            / (16 * A * B * sqrt((1 - E**2) * A * B))
+            * _ellippiinc_difference(xi_r, -f_inv, k_r**2)
             - sqrt(A * B)
             * (A + B - (A - B) * cn)
             * sn
             * dn
-            / ((A - B) * sqrt(1 - E**2) * (f + sn**2))
+            * (A - B)
+            / (4 * A * B * sqrt(1 - E**2) * (1 + f_inv * sn**2))
             + (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
             / (4 * (r2 - r1) * sqrt(1 - E**2))
             * arctan2(
-                2 * sn * dn * sqrt(f * (1 + f * k_r**2)), f - (1 + 2 * f * k_r**2) * sn**2
+                2 * sn * dn * sqrt(f_inv + k_r**2), 1 - (f_inv + 2 * k_r**2) * sn**2
             )
         )
 
-- 
2.43.0


From ca61d8b3b3fa4b8cc651a237c07e38d80c179d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 29/30] fix: time and azimuth of plunges were wrong or not a
 number where the principal values of the horizon integrals degenerate

---
 kerrgeopy/plunge.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index a0583ad..96b9a24 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -231,6 +231,18 @@ def plunging_radial_integrals(a, E, L, Q):
     D_minus = sqrt(4 * A * B * (r2 - r_minus) * (r_minus - r1)) / (
         A * (r_minus - r1) + B * (r2 - r_minus)
     )
+    # 1 - 1/D**2 without loss of precision for D close to 1, kept from vanishing
+    # because the integrals of the third kind are principal values
+    D_plus_complement = -max(
+        (A * (r_plus - r1) - B * (r2 - r_plus)) ** 2
+        / (4 * A * B * (r2 - r_plus) * (r_plus - r1)),
+        1e-100,
+    )
+    D_minus_complement = -max(
+        (A * (r_minus - r1) - B * (r2 - r_minus)) ** 2
+        / (4 * A * B * (r2 - r_minus) * (r_minus - r1)),
+        1e-100,
+    )
 
     def I_r(q_r):
         # equation 43
@@ -289,7 +301,7 @@ def plunging_radial_integrals(a, E, L, Q):
                 * (r2 - r_plus)
                 * (A * (r1 - r_plus) - B * (r2 - r_plus))
             )
-            * _ellippiinc(xi_r, 1 / D_plus**2, k_r**2)
+            * _ellippiinc(xi_r, 1 - D_plus_complement, k_r**2, D_plus_complement)
             - (
                 sqrt(r2 - r1)
                 * log(
@@ -329,7 +341,7 @@ def plunging_radial_integrals(a, E, L, Q):
                 * (r2 - r_minus)
                 * (A * (r1 - r_minus) - B * (r2 - r_minus))
             )
-            * _ellippiinc(xi_r, 1 / D_minus**2, k_r**2)
+            * _ellippiinc(xi_r, 1 - D_minus_complement, k_r**2, D_minus_complement)
             - (
                 sqrt(r2 - r1)
                 * log(
-- 
2.43.0


From 277a95bcff2dd3a71d89dd0d25bfa7c0b66f2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:52 +0000
Subject: [PATCH 30/30] fix: time, azimuth and frequencies of bound orbits were
 not a number where a radial root coincides with a horizon

---
 kerrgeopy/frequencies.py | 97 ++++++++++++++++++++++++++++++----------
 kerrgeopy/plunge.py      | 27 +----------
 kerrgeopy/stable.py      | 47 +++++++++++++------
 3 files changed, 109 insertions(+), 62 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 3690735..0af7759 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -104,6 +104,71 @@ def _ellippiinc(phi, n, m, n_complement=None):
     return result.item() if np.isscalar(phi) else result
 
 
+def _ellippi_difference(n, m):
+    r"""Computes :math:`(\Pi(n,m) - K(m))/n`, the integral :math:`\int_0^{\frac{\pi}{2}} 
+    \frac{\sin^2\theta}{1-n\sin^2\theta}\frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`, 
+    without loss of precision for small n.
+
+    Parameters
+    ----------
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    return elliprj(0, 1 - m, 1, 1 - n) / 3
+
+
+def _ellippiinc_difference(phi, n, m):
+    r"""Computes :math:`(\Pi(\phi,n,m) - F(\phi,m))/n`, the integral 
+    :math:`\int_0^{\phi} \frac{\sin^2\theta}{1-n\sin^2\theta}
+    \frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`, without loss of precision for small n.
+
+    Parameters
+    ----------
+    phi : double
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    # number of half periods between phi and the interval [-pi/2,pi/2]
+    num_half_periods = np.floor(phi / pi + 1 / 2)
+    s = np.sin(phi - num_half_periods * pi)
+    # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
+    incomplete = s**3 / 3 * elliprj(1 - s**2, 1 - m * s**2, 1, 1 - n * s**2)
+    return 2 * num_half_periods * _ellippi_difference(n, m) + incomplete
+
+
+def _horizon_integral(r1, r2, r3, r_h, m):
+    r"""Computes :math:`\frac{1}{r_3-r_h}\left(K(m)-\frac{r_2-r_3}{r_2-r_h}\Pi(h,m)\right)` where 
+    :math:`h = \frac{(r_1-r_2)(r_3-r_h)}{(r_1-r_3)(r_2-r_h)}`, which stays finite when :math:`r_3` 
+    coincides with the horizon radius :math:`r_h`.
+
+    Parameters
+    ----------
+    r1 : double
+    r2 : double
+    r3 : double
+        roots of the radial polynomial
+    r_h : double
+        horizon radius
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    slope = (r1 - r2) / ((r1 - r3) * (r2 - r_h))
+    return (
+        ellipk(m) - (r2 - r3) * slope * _ellippi_difference(slope * (r3 - r_h), m)
+    ) / (r2 - r_h)
+
+
 def _z_minus_complement(a, constants, polar_roots):
     r"""Computes :math:`1 - z_-` without loss of precision for nearly polar orbits
 
@@ -299,8 +364,6 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
 
-    h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-    h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
@@ -313,11 +376,9 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
         (2 * E * r_plus - a * L)
-        / (r3 - r_plus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+        * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
         - (2 * E * r_minus - a * L)
-        / (r3 - r_minus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+        * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
     )
 
 
@@ -391,8 +452,6 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     r_minus = 1 - sqrt(1 - a**2)
 
     h_r = (r1 - r2) / (r1 - r3)
-    h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-    h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -423,11 +482,9 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
             / (r_plus - r_minus)
             * (
                 ((4 * E - a * L) * r_plus - 2 * a**2 * E)
-                / (r3 - r_plus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                 - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
-                / (r3 - r_minus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
             )
         )
     )
@@ -660,8 +717,6 @@ def _phi_frequency_from_constants(
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
 
-    h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-    h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
@@ -674,11 +729,9 @@ def _phi_frequency_from_constants(
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
         (2 * E * r_plus - a * L)
-        / (r3 - r_plus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+        * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
         - (2 * E * r_minus - a * L)
-        / (r3 - r_minus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+        * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
     )
 
 
@@ -736,8 +789,6 @@ def _gamma_from_constants(
     r_minus = 1 - sqrt(1 - a**2)
 
     h_r = (r1 - r2) / (r1 - r3)
-    h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-    h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -768,11 +819,9 @@ def _gamma_from_constants(
             / (r_plus - r_minus)
             * (
                 ((4 * E - a * L) * r_plus - 2 * a**2 * E)
-                / (r3 - r_plus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+                * _horizon_integral(r1, r2, r3, r_plus, k_r**2)
                 - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
-                / (r3 - r_minus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+                * _horizon_integral(r1, r2, r3, r_minus, k_r**2)
             )
         )
     )
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 96b9a24..a3a6e72 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -2,11 +2,12 @@
 from numpy import sqrt, arctan, arctan2, arccos, log, pi
 from numpy.polynomial import Polynomial
 import numpy as np
-from scipy.special import ellipj, ellipeinc, ellipk, elliprj
+from scipy.special import ellipj, ellipeinc, ellipk
 from .constants import _polar_roots_from_constants
 from .frequencies import (
     _mino_frequencies_from_constants,
     _ellippiinc,
+    _ellippiinc_difference,
     _z_minus_complement,
 )
 from .stable import *
@@ -160,30 +161,6 @@ class PlungingOrbit(Orbit):
         )
 
 
-def _ellippiinc_difference(phi, n, m):
-    r"""Computes :math:`(\Pi(\phi,n,m) - F(\phi,m))/n`, the integral 
-    :math:`\int_0^{\phi} \frac{\sin^2\theta}{1-n\sin^2\theta}
-    \frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`, without loss of precision for small n.
-
-    Parameters
-    ----------
-    phi : double
-    n : double
-    m : double
-
-    Returns
-    -------
-    double
-    """
-    # number of half periods between phi and the interval [-pi/2,pi/2]
-    num_half_periods = np.floor(phi / pi + 1 / 2)
-    s = np.sin(phi - num_half_periods * pi)
-    # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
-    complete = elliprj(0, 1 - m, 1, 1 - n) / 3
-    incomplete = s**3 / 3 * elliprj(1 - s**2, 1 - m * s**2, 1, 1 - n * s**2)
-    return 2 * num_half_periods * complete + incomplete
-
-
 def plunging_radial_integrals(a, E, L, Q):
     r"""Computes the radial integrals :math:`I_r`, :math:`I_{r^2}` and 
     :math:`I_{r_\pm}` defined in equation 39 of `Dyson and van de Meent 
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 06f2c05..7ef7431 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -1,7 +1,14 @@
 """Module implementing the stable bound orbit solutions of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_"""
 from .constants import *
 from .constants import _standardize_params
-from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _z_minus_complement
+from .frequencies import (
+    _ellippi,
+    _ellippi_difference,
+    _ellippiinc,
+    _ellippiinc_difference,
+    _ellipeinc,
+    _z_minus_complement,
+)
 from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
@@ -299,8 +306,12 @@ def radial_solutions(a, constants, radial_roots):
     r_minus = 1 - sqrt(1 - a**2)
 
     h_r = (r1 - r2) / (r1 - r3)
-    h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-    h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h_plus / (r3 - r_plus), which stays finite when r3 coincides with the horizon
+    slope_plus = (r1 - r2) / ((r1 - r3) * (r2 - r_plus))
+    h_plus = slope_plus * (r3 - r_plus)
+    # h_minus / (r3 - r_minus), which stays finite when r3 coincides with the horizon
+    slope_minus = (r1 - r2) / ((r1 - r3) * (r2 - r_minus))
+    h_minus = slope_minus * (r3 - r_minus)
 
     # equation 13
     k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
@@ -345,17 +356,19 @@ def radial_solutions(a, constants, radial_roots):
                 * (
                     ((4 * E - a * L) * r_plus - 2 * a**2 * E)
                     * (r2 - r3)
-                    / ((r3 - r_plus) * (r2 - r_plus))
+                    / (r2 - r_plus)
+                    * slope_plus
                     * (
-                        _ellippiinc(psi_r, h_plus, k_r**2)
-                        - q_r / pi * _ellippi(h_plus, k_r**2)
+                        _ellippiinc_difference(psi_r, h_plus, k_r**2)
+                        - q_r / pi * _ellippi_difference(h_plus, k_r**2)
                     )
                     - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
                     * (r2 - r3)
-                    / ((r3 - r_minus) * (r2 - r_minus))
+                    / (r2 - r_minus)
+                    * slope_minus
                     * (
-                        _ellippiinc(psi_r, h_minus, k_r**2)
-                        - q_r / pi * _ellippi(h_minus, k_r**2)
+                        _ellippiinc_difference(psi_r, h_minus, k_r**2)
+                        - q_r / pi * _ellippi_difference(h_minus, k_r**2)
                     )
                 )
             )
@@ -373,12 +386,20 @@ def radial_solutions(a, constants, radial_roots):
             * (
                 (2 * E * r_plus - a * L)
                 * (r2 - r3)
-                / ((r3 - r_plus) * (r2 - r_plus))
-                * (_ellippiinc(psi_r, h_plus, k_r**2) - q_r / pi * _ellippi(h_plus, k_r**2))
+                / (r2 - r_plus)
+                * slope_plus
+                * (
+                    _ellippiinc_difference(psi_r, h_plus, k_r**2)
+                    - q_r / pi * _ellippi_difference(h_plus, k_r**2)
+                )
                 - (2 * E * r_minus - a * L)
                 * (r2 - r3)
-                / ((r3 - r_minus) * (r2 - r_minus))
-                * (_ellippiinc(psi_r, h_minus, k_r**2) - q_r / pi * _ellippi(h_minus, k_r**2))
+                / (r2 - r_minus)
+                * slope_minus
+                * (
+                    _ellippiinc_difference(psi_r, h_minus, k_r**2)
+                    - q_r / pi * _ellippi_difference(h_minus, k_r**2)
+                )
             )
         )
 
-- 
2.43.0

