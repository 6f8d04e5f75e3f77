From 442d5e3d2fc7ebd4dec4cee4a832a9627439cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 01/24] fix: moment equilibrium of free segments under surface
 load

The particular integral of unsupported segments lacked the coupling
contribution of the tangential surface load to the rotation, so that
M' = V - zs*qt + h/2*pt was violated for layered slabs.
---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..f50653b 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,7 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From f05484e8f5855e77e4f774e40b3aec202763496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 02/24] fix: compute collapse height with the current
 inclination

set_tc depends on the slope-normal load, but ran before set_phi, so the
collapse height was that of the previous inclination.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From fc32479f711c00a9f9caf3787b83fdff3c461d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 03/24] fix: horizontal centroid of vertical-face slab wedge

The strip at depth z of the wedge has the length (H/2 - z)*tan(phi) and
its centroid lies at half of that, not at (H/2 - z)*tan(phi/2).
---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 31c550a1c3ac1ceffa25f32b1542dab0bb635a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 04/24] fix: exclude weight settlement from translational
 substitute stiffness

The deflection under the unit force contained the uniform settlement of
the slab under its own weight and surface load, so that the spring
stiffness depended on (and could even diverge with) the loads.
---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..8c30cea 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -622,7 +622,9 @@ class SlabContactMixin:
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
+            # Discard settlement under the distributed loads
+            w0 = self.w(self.zp(x=0, phi=0))[0]
+            k = abs(1 / (self.w(z_pst)[0] - w0))
 
         # Reset to previous system and eigensystem
         self.system = tempsys
-- 
2.43.0


From 0f5ead764ae97d65390c61acbd543dfd56ccc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 05/24] fix: provide slab contact methods to Inverse

calc_segments() needs SlabContactMixin, without which every Inverse model
raised an AttributeError.
---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From 5365c283b6c22d8973d44dedf1fb5d71856d659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 06/24] fix: let Inverse fall back to the default slab without
 layers

Inverse() crashed with an IndexError for its default layers=None.
---
 weac/inverse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 40ccd5f..b18db71 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -50,6 +50,8 @@ class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
-        self.set_beam_properties(layers=layers, C0=C0, C1=C1)
+        self.set_beam_properties(
+            layers=layers if layers is not None else [[240, 200], ],
+            C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
-- 
2.43.0


From 9a8edbe0a7c4e1cfaee696d44db6b7f2bf7ad7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 07/24] fix: accept layers given as ndarray in Layered

The truth value of an array is ambiguous, so an ndarray profile raised a
ValueError although set_beam_properties supports it.
---
 weac/layered.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..80880ca 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,7 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties(
+            layers if layers is not None and len(layers) else [[240, 200], ])
         self.set_foundation_properties()
         self.calc_fundamental_system()
-- 
2.43.0


From 41a8c61230b7a4f2591ac200c3628fd5235ca2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 08/24] fix: accept layers given as ndarray in
 touchdown_distance

The truth value of an array is ambiguous, so the annotated ndarray input
raised a ValueError.
---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..ce1436e 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -301,7 +301,7 @@ def touchdown_distance(
     # Check if layering is defined
     layers = (
         layers
-        if layers
+        if layers is not None and len(layers)
         else [
             [240, 200],
         ]
-- 
2.43.0


From 667852bbb7af9928738ffff02de60b974edaf798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 09/24] fix: normalize weak-layer principal stress
 independently of unit

Stresses in MPa were divided by the strength in kPa.
---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 8c30cea..80705d7 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1765,7 +1765,9 @@ class AnalysisMixin:
 
         # Normalize compressive stresses to compressive strength
         if normalize and val == "min":
-            return ps / sc
+            # Strength is given in kPa
+            convert = {"kPa": 1, "MPa": 1e-3}
+            return ps / (convert[unit] * sc)
 
         # Return absolute principal stresses
         return ps
-- 
2.43.0


From 20a426a8476117e0e08c6e273170b856da5d1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 10/24] fix: impose touchdown conditions only where they are
 assembled

Only the boundary equations of systems pst- and -pst are set up for
slab touchdown. For vertical-face PSTs, the deflection tc was assigned to
the right-hand side of the shear-force equation.
---
 weac/mixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 80705d7..e213acb 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1220,6 +1220,8 @@ class SolutionMixin:
             # Length, foundation and position of segment i
             l, k, pos = li[i], ki[i], pi[i]
             # Set displacement BC in stage B
+            if self.system not in ["pst-", "-pst"]:
+                break
             if not k and bool(self.mode in ["B"]):
                 if i == 0:
                     rhs[:3] = np.vstack([0, 0, self.tc])
-- 
2.43.0


From 46ebbb1074e603b0333964bbc7f6cd17d815853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 11/24] fix: handle columns too short for slab touchdown

If the slab cannot reach (full) contact within the column, there is no
stage transition and the root search raised a ValueError instead of
classifying the cut as stage A (or B).
---
 weac/mixins.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index e213acb..7a3015f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -664,6 +664,10 @@ class SlabContactMixin:
             c5 = -tc / qn
             return c1 * x**4 + c2 * x**3 + c3 * x**2 + c4 * x + c5
 
+        # No contact within the column
+        if polynomial(999 / 1000 * L) < 0:
+            return L
+
         # Find root
         a1 = brentq(polynomial, L / 1000, 999 / 1000 * L)
 
@@ -701,6 +705,10 @@ class SlabContactMixin:
                 c1 * x**6 + c2 * x**5 + c3 * x**4 + c4 * x**3 + c5 * x**2 + c6 * x + c7
             )
 
+        # No full contact within the column
+        if polynomial(999 / 1000 * L) < 0:
+            return L
+
         # Find root
         a2 = brentq(polynomial, L / 1000, 999 / 1000 * L)
 
-- 
2.43.0


From a7e7a57456bd21ec699a6469075299d07927c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 12/24] fix: solve systems with a single segment

The dummy segment was appended to the caller's sequences in place, which
fails for the arrays that calc_segments() returns and left the caller
with a different number of segments than constants.
---
 weac/mixins.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 7a3015f..6c6fcf8 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1154,15 +1154,13 @@ class SolutionMixin:
         # --- PREPROCESSING ---------------------------------------------------
 
         # Determine size of linear system of equations
-        nS = len(li)  # Number of beam segments
+        nS = nSeg = len(li)  # Number of beam segments
 
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li, ki, mi = np.append(li, 0), np.append(ki, True), np.append(mi, 0)
             nS = 2
 
         # Assemble position vector
@@ -1258,7 +1256,8 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        # and drop those of a dummy segment
+        return C.reshape([-1, nDOF]).T[:, :nSeg]
 
 
 class AnalysisMixin:
-- 
2.43.0


From 5ae37cbb7dd777742613d8d5019c1481030cb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 13/24] fix: include surface load in slab shear and transverse
 normal stresses

The stresses of a slab under surface load did not match the traction on
the top surface nor, at the bottom, the weak-layer stress.
---
 weac/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 6c6fcf8..22c8b43 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1600,6 +1600,8 @@ class AnalysisMixin:
         # to obtain shear stress Txz in MPa
         Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
         Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
+        # Shear traction of the surface load
+        Txz += self.get_surface_load(phi)[1]
 
         # Return shear stress Txz in specified unit
         return convert[unit] * Txz
@@ -1657,6 +1659,8 @@ class AnalysisMixin:
         integrand = cumulative_trapezoid(dsxx_dxdx, zi, axis=0, initial=0)
         Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
         Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
+        # Normal traction of the surface load
+        Szz -= self.get_surface_load(phi)[0]
 
         # Return shear stress txz in specified unit
         return convert[unit] * Szz
-- 
2.43.0


From 782060b7324f40a904c825d9f68f6907e3cf7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 14/24] fix: place line labels within short data series

Plots of coarse grids, or of weak-layer quantities with only few
supported points, raised an IndexError.
---
 weac/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..059d923 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -470,8 +470,10 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                # Keep label within the data
+                pos = np.clip(labelpos - 10*i, 1 - len(x), len(x) - 1)
+                xtx = (x[pos - 1] + x[pos])/2
+                ytx = (y[pos - 1] + y[pos])/2
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
-- 
2.43.0


From d8dac2389977a323c69a9e5b69733427b2abc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 15/24] fix: strain energy of layered slabs and cut columns

internal_potential() neglected the bending-extension coupling, scaled the
weak-layer energy with the length of the whole model instead of the
supported length, used a shear deformation that differs from the one of
the weak-layer shear stress, and took M*psi^2 instead of M*psi for the
work of the substitute rotational spring.
---
 weac/mixins.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 22c8b43..56642b8 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1881,11 +1881,15 @@ class OutputMixin:
 
         # Compute weak layer displacements
         wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
+        uweak = self.tau(zweak) / self.kt
 
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
         nweak = len(xweak)
+        # Lengths of slab and weak layer and bending moment w.r.t. neutral axis
+        L = np.sum(segments["li"])
+        Lweak = np.sum(segments["li"][segments["ki"]])
+        M0 = M - self.B11 / self.A11 * N
         # energy share from moment, shear force, wl normal and tangential springs
         Pi_int = (
             L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
@@ -1893,16 +1897,16 @@ class OutputMixin:
             / 2
             / n
             / (self.D11 - self.B11**2 / self.A11)
-            * np.sum([Mi**2 for Mi in M])
+            * np.sum([Mi**2 for Mi in M0])
             + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            + Lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
+            + Lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int -= 1 / 2 * M[-1] * self.psi(zq)[-1]
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * M[0] * self.psi(zq)[0]
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 29f195f280377984b6b332d31cb23e42c4a60b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 16/24] fix: potential of the surface load

external_potential() moved the tangential surface load to the center of
gravity of the slab and took the loads of the inclination of the last
calc_segments() call rather than those of its argument phi.
---
 weac/mixins.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 56642b8..4f44aa6 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1823,9 +1823,12 @@ class OutputMixin:
         # Compute displacements where weight loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
-        # Get weight loads
-        qn = self.calc_qn()
-        qt = self.calc_qt()
+        ut = self.u(zq, z0=-self.h / 2)
+        # Get weight loads and surface loads
+        (qn, qt), (pn, pt) = self.get_weight_load(phi), self.get_surface_load(phi)
+        qn = qn + pn
+        # Tangential loads times displacements of their points of action
+        us = qt * us + pt * ut
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
         Pi_ext = (
@@ -1838,8 +1841,8 @@ class OutputMixin:
         elif self.system in ["-pst"]:
             ub = us[0]
         Pi_ext += (
-            -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
-            - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
+            -(segments["li"][0] + segments["li"][1]) * np.average(us)
+            - (L - (segments["li"][0] + segments["li"][1])) * ub
         )
         if self.system not in ["pst-", "-pst"]:
             print("Input error: Only pst-setup implemented at the moment.")
-- 
2.43.0


From 3c08255888867e4a6a04854e6197899080219a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 17/24] fix: sign of the weak-layer shear strain

gamma had the opposite sign of tau, so that the mode II crack opening
work was negative and ginc() returned G_I - G_II instead of G_I + G_II.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 4f44aa6..d7700e7 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From cea73ebc2d49897115e205777ae2a86e45795230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 18/24] fix: bracket transition lengths that are short compared
 to the column

---
 weac/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index d7700e7..23a33b9 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -669,7 +669,7 @@ class SlabContactMixin:
             return L
 
         # Find root
-        a1 = brentq(polynomial, L / 1000, 999 / 1000 * L)
+        a1 = brentq(polynomial, 0, 999 / 1000 * L)
 
         return a1
 
@@ -710,7 +710,7 @@ class SlabContactMixin:
             return L
 
         # Find root
-        a2 = brentq(polynomial, L / 1000, 999 / 1000 * L)
+        a2 = brentq(polynomial, 0, 999 / 1000 * L)
 
         return a2
 
-- 
2.43.0


From b5320f3df478fea86c796c0743c888fe79e00989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 19/24] fix: touchdown length right after the transition to
 stage C

---
 weac/mixins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 23a33b9..b92be68 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -777,8 +777,12 @@ class SlabContactMixin:
                 c1 * x**6 + c2 * x**5 + c3 * x**4 + c4 * x**3 + c5 * x**2 + c6 * x + c7
             )
 
+        # Rested part too short to be resolved
+        if polynomial((1 - 1e-4) * a) < 0:
+            return (1 - 1e-4) * a
+
         # Find root
-        lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
+        lC = brentq(polynomial, 0, (1 - 1e-4) * a)
 
         return lC
 
-- 
2.43.0


From ba3df58dc0322ddbde414253267c336200288530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 20/24] fix: take weak-layer stress at crack tips from the
 supported side

---
 weac/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b92be68..4d1b750 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1453,8 +1453,11 @@ class AnalysisMixin:
 
         # Compute energy relase rate of all crack tips
         for j, idx in enumerate(ict):
-            # Solution at crack tip
-            z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=ki[idx])
+            # Solution at crack tip (supported side, where the weak layer acts)
+            if ki[idx]:
+                z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=True)
+            else:
+                z = self.z(0, C[:, [idx + 1]], li[idx + 1], phi, bed=True)
             # Mode I and II differential energy release rates
             Gdif[1:, j] = np.concatenate(
                 (self.Gi(z, unit=unit), self.Gii(z, unit=unit))
-- 
2.43.0


From f7aa74730549131bb91863746019de70d4f79202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 21/24] fix: contour plot of fields that vanish everywhere

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 059d923..1c4c430 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -336,7 +336,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 
     # Normalize colormap
     absmax = np.nanmax(np.abs([slab.min(), slab.max(), weak.min(), weak.max()]))
-    clim = np.round(absmax, significant_digits(absmax))
+    clim = np.round(absmax, significant_digits(absmax)) if absmax > 0 else 1
     levels = np.linspace(-clim, clim, num=levels+1, endpoint=True)
     # nanmax = np.nanmax([slab.max(), weak.max()])
     # nanmin = np.nanmin([slab.min(), weak.min()])
-- 
2.43.0


From 7045b8623573f08199fc3ee77385da6f64f847b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 22/24] fix: line plots without segment data

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 1c4c430..0c7ec87 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -406,7 +406,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From 8921961e667dd07326cec7e686a383b6c06796ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 23/24] fix: integer coordinates overflowed in unsupported
 segments

---
 weac/eigensystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index f50653b..05ff56c 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -509,6 +509,8 @@ class Eigensystem:
                        self.evC.imag*np.cos(self.ewC.imag*x)
                        + self.evC.real*np.sin(self.ewC.imag*x))], axis=1)
         else:
+            # Powers of integer coordinates overflow
+            x = 1.0*x
             # Abbreviations
             H14 = 3*self.B11/self.A11*x**2
             H24 = 6*self.B11/self.A11*x
@@ -573,6 +575,8 @@ class Eigensystem:
                 [-(qt*(h + t - 2*zs) + pt*(2*h + t))/(2*kA55)],
                 [0]])
         else:
+            # Powers of integer coordinates overflow
+            x = 1.0*x
             zp = np.array([
                 [(-3*(qt + pt)/A11 - B11*(qn + pn)*x/K0)/6*x**2],
                 [(-2*(qt + pt)/A11 - B11*(qn + pn)*x/K0)/2*x],
-- 
2.43.0


From 8090f190246373f3815a05269f5a0a45df7b5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 24/24] fix: reject undefined substitute springs before
 adjusting the model

---
 weac/mixins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 4d1b750..a7f2c89 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -592,6 +592,12 @@ class SlabContactMixin:
         -------
         k : stiffness of substitute spring.
         """
+        # Reject undefined springs before the model is adjusted
+        if support not in ["rested", "supported"]:
+            raise ValueError(f"Support {support} is not defined.")
+        if dof not in ["rot", "trans"]:
+            raise ValueError(f"Degree of freedom {dof} is not defined.")
+
         # adjust system to substitute system
         if dof in ["rot"]:
             tempsys = self.system
-- 
2.43.0

