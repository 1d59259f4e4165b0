From 6b9b12f664ee708179a817ef21015be536984f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 01/22] fix: read NIST values that have no uncertainty

Values without a parenthesized uncertainty were cut to an empty string.
The reader then returned the default value.
The isotopic composition of all 22 monoisotopic elements was read as zero.
Their element mass and their attenuation per atom were zero as a result.
---
 ries/constituents/natural_element_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..4e6353a 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -174,9 +174,9 @@ class NISTElementDataReader:
 
         - float, value
         """
-        return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
-        )
+        if "(" in line:
+            line = line[0 : line.find("(") + 1]
+        return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
         """Find all element symbols in the data file and organize them in a dictionary.
-- 
2.43.0


From 946fe082d11927546d4a71da25543d69c90d8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 02/22] fix: match the whole element symbol when reading
 densities

The reader accepted any line whose symbol contained the requested one.
Boron got the density of beryllium, sulfur that of silicon and iodine that
of indium.
---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index 4e6353a..f0db9d6 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -259,7 +259,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if X == line[0:2].strip():
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From 969e95d13f127eb7aa9a3d14a2985355da1e864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 03/22] fix: read the last line of XRMAC files without a
 trailing newline

The reader cut the last two characters of each line.
The last line of the data files has no newline, so the last digit of its
mass-energy absorption coefficient was lost.
---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..bced4d5 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -214,7 +214,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From a9cd830c6abfbffa6017883fbe3c6f46695c1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 04/22] fix: bind the element mass in the per-atom XRMAC
 conversion

All stored conversion functions shared the loop variable.
After the import, each of them used the mass of uranium.
---
 ries/nonresonant/xrmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index bced4d5..1ace6be 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -238,9 +238,9 @@ for Z in range(1, 93):
     xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / "{:02d}.txt".format(Z)))
     xrmac_fm2_per_atom[X[Z]] = XRMAC(
         str(xrmac_data_dir / "{:02d}.txt".format(Z)),
-        xrmac_conversion=lambda xrmac: xrmac
+        xrmac_conversion=lambda xrmac, amu=natural_elements[X[Z]].amu: xrmac
         * cm_to_fm ** 2
-        * natural_elements[X[Z]].amu
+        * amu
         * physical_constants["atomic mass constant"][0]
         * kg_to_g,
     )
-- 
2.43.0


From 25bb8bc8a42cea38f4672e639924669a763fd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 05/22] fix: correct the symbols of manganese and vanadium

The table of Debye temperatures used 'Ma' and 'Va'.
---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From d457f1974b70957bcc01fcb0690bf2b3809605f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 06/22] fix: accept arrays as integration limits in
 quad_partition

The truth value of the documented (n_d - 1, 2) array is ambiguous, so the
function raised a ValueError.
---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 470caf30edc8ffbe2579ca37c65456f075149c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 07/22] fix: allow the default arguments of
 CrossSectionWeightedSum

The constructor called len() on None when no reactions were given.
---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..fa62b58 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -222,7 +222,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From bef7a2ca1e7d1111788079159a9c5c47a4b13df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 08/22] fix: set negative lower limits of coverage intervals to
 zero

The documentation and the warning announce this, but the negative limit was
returned.
The coverage in the warning message now also takes into account the
parameters of the probability distribution.
---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..d14e69e 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From bd51a0f7bf59960e30157d6773ef9702747d470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 09/22] fix: use the half width as scale of the pseudo-Voigt
 Cauchy term

The attribute gamma_L already is half of the FWHM.
It was divided by two again, so the Lorentzian part was too narrow by a
factor of two.
---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..db6c89b 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From 8629e91ea566ff05f876205fc1a45136f26de266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 10/22] fix: use the PPF fallback if only some of the quantiles
 converge

For arrays, scipy raises an error only if all values fail to converge.
Otherwise, the method returned None.
---
 ries/resonance/pseudo_voigt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index db6c89b..45581f8 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -240,11 +240,13 @@ class PseudoVoigtDistribution:
                 return newton_result[0]
 
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
-            return self.pseudo_voigt_expression(quantile, "ppf")
+            pass
+
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+        return self.pseudo_voigt_expression(quantile, "ppf")
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From ed49a519f3bee859126ebf052af6255aa6456ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:29 +0000
Subject: [PATCH 11/22] fix: scale the tolerance of the pseudo-Voigt PPF with
 the width

The root finder used an absolute tolerance of 1.48e-8 MeV.
For resonances of similar or smaller width, it stopped long before the
requested quantile was reached.
---
 ries/resonance/pseudo_voigt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 45581f8..1cb5b8e 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -231,6 +231,12 @@ class PseudoVoigtDistribution:
                 if isinstance(quantile, (float, int))
                 else self.resonance_energy * np.ones(len(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
+                # The default tolerance of scipy (an absolute energy) may exceed the width of the
+                # resonance.
+                tol=max(
+                    min(1.48e-8, 1e-4 * self.Gamma),
+                    4.0 * np.finfo(float).eps * abs(self.resonance_energy),
+                ),
                 full_output=True,
             )
             if isinstance(quantile, (int, float)):
-- 
2.43.0


From 67378cd9496e99acb44b11b8bdfaa2fe632e0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:08 +0000
Subject: [PATCH 12/22] fix: keep probability-grid points inside the given
 limits

If both limits are far away from the resonance on the same side, the CDF is
0 or 1 at both of them.
Only the first and the last grid point were replaced by the limits, and the
points in between were infinite.
---
 ries/resonance/resonance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index d14e69e..6298b85 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -367,7 +367,9 @@ class Resonance(CrossSection):
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
+        # In the same situation, the grid points in between may be infinite as well.
         if not isinstance(coverage_or_limits, (int, float)):
+            equ_dis_pro_grid = np.clip(equ_dis_pro_grid, *coverage_or_limits)
             equ_dis_pro_grid[0] = coverage_or_limits[0]
             equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
-- 
2.43.0


From 730b982877de6cf2c8c933c29b930e1f51bc2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:08 +0000
Subject: [PATCH 13/22] fix: use the mass of the scattering particle in the
 Compton kinematics

The scattered energy, the scattering angle and the differential cross
sections always used the electron mass, while the total cross section used
the mass given by the user.
---
 ries/nonresonant/klein_nishina.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..2a01afe 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -155,8 +155,7 @@ class KleinNishina(Nonresonant):
 
         return self.Ep_over_E(E, np.pi) * E
 
-    @staticmethod
-    def theta(E, Ep):
+    def theta(self, E, Ep):
         """Scattering angle for a given scattered energy
 
         Parameters:
@@ -171,12 +170,11 @@ class KleinNishina(Nonresonant):
         return np.arccos(
             1
             - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / E
         )
 
-    @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
@@ -191,7 +189,7 @@ class KleinNishina(Nonresonant):
         return 1.0 / (
             1.0
             + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
+            / self.mc2
             * (1.0 - np.cos(theta))
         )
 
@@ -262,7 +260,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -280,7 +278,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From a37538ea710d732bbdb8d20ca504f006bd07646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:08 +0000
Subject: [PATCH 14/22] fix: normalize the unpolarized solid-angle cross
 section

The azimuthal average was too large by a factor of 2 pi, because the
integral over the azimuthal angle was not divided by 2 pi.
The cross sections with respect to the scattered energy and to the polar
angle keep their values.
---
 ries/nonresonant/klein_nishina.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 2a01afe..0e8a64a 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -47,7 +47,7 @@ The equation above also contains the energy of the scattered photon, :math:`E^\p
 If no information on the polarization of the incident photon is available, the differential
 cross section can be averaged over the azimuthal angle:
 
-.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{\pi \alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
+.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{1}{2}\frac{\alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
 
 An integration of either :math:`\mathrm{d} \sigma_\mathrm{Compton} / \mathrm{d} \Omega` or
 :math:`\mathrm{d} \sigma_\mathrm{Compton, unpolarized} / \mathrm{d} \Omega` over the azimuthal
@@ -234,7 +234,7 @@ class KleinNishina(Nonresonant):
 
         relative_energy_change = self.Ep_over_E(E, theta)
         return (
-            np.pi
+            0.5
             * self.scale_factor
             * relative_energy_change
             * relative_energy_change
@@ -277,7 +277,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
             * self.mc2
             / (Ep * Ep)
         )
@@ -295,7 +297,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, scattering-angle differential cross section in :math:`\mathrm{fm}^2`.
         """
 
-        return self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        return (
+            2.0 * np.pi * self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        )
 
     def cs_total(self, E):
         r"""Total cross section
-- 
2.43.0


From 1b20f8e50cf2ae1fbba2e29bb72da3fb437c9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:51 +0000
Subject: [PATCH 15/22] fix: return the scattering angle at the Compton edge

Rounding errors moved the argument of the arc cosine below -1 for about a
third of all photon energies.
The scattering angle and the energy-differential cross sections were nan
there.
---
 ries/nonresonant/klein_nishina.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 0e8a64a..918d33a 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -167,12 +167,12 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * self.mc2
-            / E
+        cos_theta = 1 - (E / Ep - 1) * self.mc2 / E
+        # At the Compton edge, rounding errors may exceed the domain of the arc cosine.
+        is_compton_edge = (cos_theta < -1.0) & np.isclose(
+            Ep, self.compton_edge(E), rtol=1e-12, atol=0.0
         )
+        return np.arccos(np.where(is_compton_edge, -1.0, cos_theta))
 
     def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
-- 
2.43.0


From 681e296ee5a4889b5226052f829c265d8041fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:51 +0000
Subject: [PATCH 16/22] fix: avoid cancellation in the Compton cross section at
 low energies

The relative error of the closed expression grows with the third power of
the inverse energy.
Below about 1 eV, the result was dominated by rounding errors, and it was
nan at zero energy.
---
 ries/nonresonant/klein_nishina.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 918d33a..9e14d3f 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -312,13 +312,20 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, total cross section in :math:`\mathrm{fm}^2`.
         """
-        x = E / self.mc2
+        # The terms of the closed expression cancel for low energies.
+        # Replace it by its series expansion around the Thomson limit there.
+        is_low_energy = np.asarray(E) < 0.01 * self.mc2
+        x = np.where(is_low_energy, 1.0, E / self.mc2)
+        closed_expression = x ** -3 * (
+            (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
+            + ((x - 2) * x - 2) * np.log(1 + 2 * x)
+        )
+        x = np.where(is_low_energy, E / self.mc2, 0.0)
+        series_expansion = (8.0 / 3.0) * np.polyval(
+            [3784 / 21, -544 / 7, 1144 / 35, -133 / 10, 26 / 5, -2.0, 1.0], x
+        )
         return (
             np.pi
             * self.scale_factor
-            * x ** -3
-            * (
-                (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
-                + ((x - 2) * x - 2) * np.log(1 + 2 * x)
-            )
+            * np.where(is_low_energy, series_expansion, closed_expression)
         )
-- 
2.43.0


From 42888d250eb2895863638d2d501346e3b24d6a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:34 +0000
Subject: [PATCH 17/22] fix: start probability grids at zero if a coverage
 requires negative energies

The documentation of the Breit-Wigner cross section promises a warning and
a lower limit of zero.
The grid contained negative energies without a warning instead.
---
 ries/resonance/resonance.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 6298b85..2ec5f4a 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -354,7 +354,15 @@ class Resonance(CrossSection):
                 0.5 * (1.0 - coverage_or_limits),
                 0.5 * (1.0 + coverage_or_limits),
             )
-        else:
+            # Coverage intervals that would contain negative energies start at zero.
+            if (
+                self.probability_distribution.ppf(
+                    limits[0], *self.probability_distribution_parameters
+                )
+                < 0.0
+            ):
+                coverage_or_limits = self.coverage_interval(coverage_or_limits)
+        if not isinstance(coverage_or_limits, (int, float)):
             limits = self.probability_distribution.cdf(
                 coverage_or_limits, *self.probability_distribution_parameters
             )
-- 
2.43.0


From 169d4e958dede87df4808ae0dd91ebbdc7554b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:46 +0000
Subject: [PATCH 18/22] fix: evaluate the effective temperature for empty
 arrays

The vectorized function could not determine its output type without at least one element.
---
 ries/resonance/debye_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index a15684e..1849507 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -88,7 +88,7 @@ def effective_temperature_debye_approximation(T, T_D):
 
 
 effective_temperature_debye_approximation = np.vectorize(
-    effective_temperature_debye_approximation
+    effective_temperature_debye_approximation, otypes=[float]
 )
 
 # Source: https://www.knowledgedoor.com/2/elements_handbook/debye_temperature.html
-- 
2.43.0


From cb4d80cf2bd00644f3677bd62e17fdc2c34e33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:56 +0000
Subject: [PATCH 19/22] fix: accept all numpy numbers as summands of cross
 sections

A numpy integer or single-precision number on the right-hand side of an addition was stored as if it were a cross section. The same number on the left-hand side worked.
---
 ries/cross_section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index fa62b58..40f44e8 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -81,7 +81,7 @@ class CrossSection:
 
         See `CrossSectionWeightedSum.__add__()`.
         """
-        if isinstance(other, (int, float)):
+        if isinstance(other, (int, float, np.number)):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
         return CrossSectionWeightedSum([self, other])
 
@@ -253,7 +253,7 @@ class CrossSectionWeightedSum:
             reactions.append(reaction)
             scale_factors.append(self.scale_factors[i])
 
-        if isinstance(other, (int, float)):
+        if isinstance(other, (int, float, np.number)):
             reactions.append(ConstantCrossSection(other))
             scale_factors.append(1.0)
         elif isinstance(other, CrossSection):
-- 
2.43.0


From cda32a4cdf06544ee419fc7465c6215db644674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:03 +0000
Subject: [PATCH 20/22] fix: accept numpy numbers as coverage and as quantile

Coverages given as single-precision or integer numpy scalars were taken for
a pair of limits. The grids and the pseudo-Voigt quantile function raised an
error.
---
 ries/resonance/pseudo_voigt.py | 4 ++--
 ries/resonance/resonance.py    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 1cb5b8e..3ee37d6 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -228,7 +228,7 @@ class PseudoVoigtDistribution:
                 # energy ensures that the algorithm does not have rounding errors from the start
                 # which might cause it to go in the wrong direction.
                 self.resonance_energy
-                if isinstance(quantile, (float, int))
+                if isinstance(quantile, (float, int, np.number))
                 else self.resonance_energy * np.ones(len(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
                 # The default tolerance of scipy (an absolute energy) may exceed the width of the
@@ -239,7 +239,7 @@ class PseudoVoigtDistribution:
                 ),
                 full_output=True,
             )
-            if isinstance(quantile, (int, float)):
+            if isinstance(quantile, (int, float, np.number)):
                 if newton_result[1].converged:
                     return newton_result[0]
             elif False not in newton_result[1]:
diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 2ec5f4a..489c334 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -329,7 +329,7 @@ class Resonance(CrossSection):
 
         - ndarray, array of grid points
         """
-        if isinstance(coverage_or_limits, (int, float)):
+        if isinstance(coverage_or_limits, (int, float, np.number)):
             coverage_or_limits = self.coverage_interval(coverage_or_limits)
         return CrossSection.equidistant_energy_grid(self, coverage_or_limits, n_points)
 
@@ -349,7 +349,7 @@ class Resonance(CrossSection):
 
         - ndarray, array of grid points
         """
-        if isinstance(coverage_or_limits, (int, float)):
+        if isinstance(coverage_or_limits, (int, float, np.number)):
             limits = (
                 0.5 * (1.0 - coverage_or_limits),
                 0.5 * (1.0 + coverage_or_limits),
@@ -362,7 +362,7 @@ class Resonance(CrossSection):
                 < 0.0
             ):
                 coverage_or_limits = self.coverage_interval(coverage_or_limits)
-        if not isinstance(coverage_or_limits, (int, float)):
+        if not isinstance(coverage_or_limits, (int, float, np.number)):
             limits = self.probability_distribution.cdf(
                 coverage_or_limits, *self.probability_distribution_parameters
             )
@@ -376,7 +376,7 @@ class Resonance(CrossSection):
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
         # In the same situation, the grid points in between may be infinite as well.
-        if not isinstance(coverage_or_limits, (int, float)):
+        if not isinstance(coverage_or_limits, (int, float, np.number)):
             equ_dis_pro_grid = np.clip(equ_dis_pro_grid, *coverage_or_limits)
             equ_dis_pro_grid[0] = coverage_or_limits[0]
             equ_dis_pro_grid[-1] = coverage_or_limits[1]
-- 
2.43.0


From ee0c3a67f19654333516f3e6ba7fc72ec71985d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:05 +0000
Subject: [PATCH 21/22] fix: accept arrays of any shape as quantiles of the
 pseudo-Voigt distribution

---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 3ee37d6..573fc24 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -229,7 +229,7 @@ class PseudoVoigtDistribution:
                 # which might cause it to go in the wrong direction.
                 self.resonance_energy
                 if isinstance(quantile, (float, int, np.number))
-                else self.resonance_energy * np.ones(len(quantile)),
+                else self.resonance_energy * np.ones(np.shape(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
                 # The default tolerance of scipy (an absolute energy) may exceed the width of the
                 # resonance.
-- 
2.43.0


From 246c78c6ef872c8a9d9f8aa22c69ebb09e6ed4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:01:00 +0000
Subject: [PATCH 22/22] fix: keep the recoil correction of a resonance as the
 documented attribute

---
 ries/resonance/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 489c334..4eacc27 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -221,6 +221,7 @@ class Resonance(CrossSection):
         self.initial_state = initial_state
         self.intermediate_state = intermediate_state
         self.final_state = final_state
+        self.recoil_correction = recoil_correction
 
         self.resonance_energy = recoil_correction(
             self.intermediate_state.excitation_energy
-- 
2.43.0

