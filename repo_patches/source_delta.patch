From e7a350d8cb4d65e084128afa80cf8b9714209e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:59 +0000
Subject: [PATCH 01/21] fix: recompute omega_m after omega_c or omega_b is
 updated

---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..e9769db 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From bec2a6304e849149621d1641b986b4538b13c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:59 +0000
Subject: [PATCH 02/21] fix: recompute fractions and models of UpsampledSpectra
 after an update

---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..dc3640e 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From 884be0a5121d6216e2ebcad1dd42de6b430afe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:19 +0000
Subject: [PATCH 03/21] fix: drop cached quantities when an update changes a
 model option

The dependencies of a cached quantity are recorded at its first evaluation,
so switching e.g. hmcode_ingredients, mdef_model or nonlinear_mode left
quantities that ignored later updates of newly relevant parameters, and
updating a switch together with another parameter raised a KeyError.
---
 src/onepower/add.py             |  4 +--
 src/onepower/bnl.py             |  5 ++--
 src/onepower/hmi.py             |  5 ++--
 src/onepower/ia.py              |  5 ++--
 src/onepower/utils/framework.py | 48 +++++++++++++++++++++++++++++++++
 5 files changed, 59 insertions(+), 8 deletions(-)
 create mode 100644 src/onepower/utils/framework.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index dc3640e..3a9108a 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -2,12 +2,12 @@ import numpy as np
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
+from .utils.framework import OptionFramework
 
 
-class UpsampledSpectra(Framework):
+class UpsampledSpectra(OptionFramework):
     """
     This class generates one or two :class:`~halomodel.pk.Spectra`,
     extrapolates them to the desired output grid and adds them if requested.
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..b032fdc 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -10,7 +10,8 @@ from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import OptionFramework
 
 try:
     from dark_emulator import darkemu
@@ -21,7 +22,7 @@ except ImportError:  # pragma: nocover
 
 if HAVE_DARKEMU:
 
-    class NonLinearBias(Framework):
+    class NonLinearBias(OptionFramework):
         """
         A class to compute the non-linear bias using the Dark Emulator.
 
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index e9769db..0bc39f6 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,9 +16,10 @@ from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
+from .utils.framework import OptionFramework
+
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
 warnings.filterwarnings('ignore', message='Nonlinear mass outside mass range')
 
@@ -57,7 +58,7 @@ class SOVirial_Mead(SphericalOverdensity):
         return 'SOVirial'
 
 
-class CosmologyBase(Framework):
+class CosmologyBase(OptionFramework):
     """
     A cosmology base class.
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..7f35480 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -13,10 +13,11 @@ from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 
+from .utils.framework import OptionFramework
 
-class AlignmentAmplitudes(Framework):
+
+class AlignmentAmplitudes(OptionFramework):
     """
     Class to IA amplitudes given options and dependencies on either luminosity, stellar mass, or halo mass.
 
diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
new file mode 100644
index 0000000..2293d28
--- /dev/null
+++ b/src/onepower/utils/framework.py
@@ -0,0 +1,48 @@
+from hmf._internals._cache import hidden_loc
+from hmf._internals._framework import Framework
+
+
+class OptionFramework(Framework):
+    """
+    A Framework whose parameters may select between different computations.
+
+    The parameters a cached quantity depends on are recorded by hmf only when the quantity
+    is evaluated for the first time. A parameter that selects a computation (a model name,
+    a flag, or a value that is either given or None) can change those dependencies, so the
+    cached quantities and their recorded dependencies are dropped whenever such a selection changes.
+    """
+
+    def _selected_options(self):
+        """
+        Return the selection made by each parameter: the value itself for names, flags and models,
+        and otherwise only whether the value has been given.
+
+        Returns:
+        --------
+        dict
+            selections, keyed by the parameter name
+        """
+        return {
+            name: val if val is None or isinstance(val, (str, bool, type)) else ...
+            for name, val in self.parameter_values.items()
+        }
+
+    def _forget_quantities(self):
+        """
+        Drop all cached quantities, together with their recorded dependencies.
+        """
+        getattr(self, hidden_loc(self, 'recalc')).clear()
+        getattr(self, hidden_loc(self, 'recalc_prop_par')).clear()
+        for quantities in getattr(self, hidden_loc(self, 'recalc_par_prop')).values():
+            quantities.clear()
+
+    def update(self, **kwargs):
+        """
+        Update parameters of the framework, see :meth:`hmf.Framework.update`.
+        """
+        options = self._selected_options()
+        try:
+            super().update(**kwargs)
+        finally:
+            if self._selected_options() != options:
+                self._forget_quantities()
-- 
2.43.0


From 2b4adcd094894a9e6d72e2ad14fbd3221c07b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 04/21] fix: do not overwrite the first redshift's overdensity
 when building halo models

---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 0bc39f6..1c54703 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1111,7 +1111,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1120,7 +1120,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From dd45f926d19a82c6ee9290c40573979cd0c3955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:27 +0000
Subject: [PATCH 05/21] fix: do not modify the dictionaries given by the caller

---
 src/onepower/add.py |  4 ++--
 src/onepower/hmi.py |  4 ++--
 src/onepower/pk.py  | 33 ++++++++++++++++-----------------
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index 3a9108a..579be62 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -69,7 +69,7 @@ class UpsampledSpectra(OptionFramework):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def _model_2_params(self, val):
@@ -78,7 +78,7 @@ class UpsampledSpectra(OptionFramework):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def fraction_z(self, val):
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 1c54703..82ce283 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -778,7 +778,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def growth_model(self, val):
@@ -796,7 +796,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def norm_cen(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..25ec032 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -308,7 +308,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def pointmass(self, val):
@@ -335,7 +335,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def hod_params(self, val):
@@ -344,7 +344,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def hod_settings(self, val):
@@ -353,7 +353,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def obs_settings(self, val):
@@ -362,7 +362,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('param')
     def t_eff(self, val):
@@ -398,7 +398,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if isinstance(val, dict) else val
 
     @parameter('model')
     def hod_model(self, val):
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From 1d5b53389ecf68a66b06edd959f535bf1abbbdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 06/21] fix: give the default gas pivot mass mb in the units it
 is used in

---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 25ec032..8fbcf32 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -152,7 +152,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From 07ff227da8dd9016cec61aeb8fa5e455aa9de2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 07/21] fix: use the requested dependence of the alignments of
 centrals and satellites

---
 cosmosis_modules/onepower_interface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..cd359ac 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -906,7 +906,7 @@ def execute(block, config):
 
     if alignment:
         align_params = {}
-        if central_IA == 'halo_mass':
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -924,7 +924,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -944,6 +944,8 @@ def execute(block, config):
             )
         align_params.update(
             {
+                'central_ia_depends_on': central_IA,
+                'satellite_ia_depends_on': satellite_IA,
                 'nmass': 5,
                 'n_hankel': 350,
                 'nk': 10,
@@ -974,7 +976,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -992,7 +994,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From ce916dc31a13f1c99fd62ce1b3694fb2f1040724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 08/21] fix: accept observables read from a file in the
 cosmosis interface

---
 cosmosis_modules/onepower_interface.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index cd359ac..4aa5669 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,8 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        # There is only one bin if the observables are read from a file
+        nbins = len(hod_settings.get('obs_min', [None]))
     else:
         hod_settings = {}
         hod_settings_mm = {}
@@ -513,18 +514,7 @@ def save_obs_results(block, power, observable_section_name, obs_settings):
     block.put(observable_section_name, 'obs_func_definition', 'obs_func * obs * ln(10)')
     for nb in range(obs_bins):
         suffix_obs = f'_{nb + 1}'
-        if np.all(
-            np.array(
-                [
-                    obs_settings['obs_min'].size,
-                    obs_settings['obs_max'].size,
-                    obs_settings['zmin'].size,
-                    obs_settings['zmax'].size,
-                    obs_settings['nz'],
-                ]
-            )
-            == 1
-        ):
+        if obs_z.size == 1:
             block.put_double_array_1d(
                 observable_section_name, f'obs_val{suffix_obs}', np.squeeze(obs_range)
             )
-- 
2.43.0


From f042e5e895f22f8f9ea5df94ea86791a61835b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:35 +0000
Subject: [PATCH 09/21] fix: centre the projected separations of pk_to_real on
 the transform grid

---
 cosmosis_modules/pk_to_real/pk_to_real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real.py b/cosmosis_modules/pk_to_real/pk_to_real.py
index 5f3f228..855e75a 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real.py
@@ -111,7 +111,7 @@ class Transformer:
         self.upper = upper
 
         # work out the effective rp values.
-        nc = 0.5 * (n + 1)
+        nc = 0.5 * (n - 1)
         log_kmin = np.log(k_min)
         log_kmax = np.log(k_max)
         log_kmid = 0.5 * (log_kmin + log_kmax)
-- 
2.43.0


From 92699ef5cb03a51cfa9c6c54edc4d584d49d96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 10/21] fix: refuse to dewiggle on wavenumbers that are not
 logarithmically spaced

---
 src/onepower/pk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 8fbcf32..ada8121 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2719,10 +2719,10 @@ class Spectra(HaloModelIngredients):
         ndarray
             The wiggle component of the power spectrum.
         """
-        if not np.isclose(np.all(np.diff(k) - np.diff(k)[0]), 0.0):
-            raise ValueError('Dewiggle only works with linearly-spaced k array')
-
         dlnk = np.log(k[1] / k[0])
+        if not np.allclose(np.diff(np.log(k)), dlnk, rtol=1e-3, atol=0.0):
+            raise ValueError('Dewiggle only works with logarithmically-spaced k array')
+
         sigma = sigma_dlnk / dlnk
 
         Pk_nowiggle = (k**ns) * np.exp(self.Tk_EH_nowiggle_lnt(np.log(k))) ** 2.0
-- 
2.43.0


From 11a727d7adb607492df37958014c6da0190b5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 11/21] fix: use the virial radius at each redshift in the
 satellite alignment

---
 src/onepower/ia.py | 6 ++++--
 src/onepower/pk.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 7f35480..7fc2fae 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -957,6 +957,8 @@ class SatelliteAlignment(AlignmentAmplitudes):
             * self.r_s**3.0
             * (np.log(1.0 + self.c) - self.c / (1.0 + self.c))
         )
+        # The virial radius can be given per mass, or per redshift and mass
+        rvir = np.broadcast_to(self.rvir, (self.z_vec.size, self.mass.size))
         uk_l = np.zeros(
             [self.ell_values.size, self.z_vec.size, self.mass.size, self.k_vec.size]
         )
@@ -969,7 +971,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                             self.gamma_r_nfw_profile(
                                 x,
                                 self.r_s[jz, im],
-                                self.rvir[im],
+                                rvir[jz, im],
                                 self.gamma_1h_amp[jz],
                                 self.gamma_1h_slope,
                                 truncate=self.truncate,
@@ -995,7 +997,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                     self.gamma_r_nfw_profile(
                         r[np.newaxis, np.newaxis, :],
                         self.r_s[:, :, np.newaxis],
-                        self.rvir[np.newaxis, :, np.newaxis],
+                        rvir[:, :, np.newaxis],
                         self.gamma_1h_amp[:, np.newaxis, np.newaxis],
                         self.gamma_1h_slope,
                         truncate=self.truncate,
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index ada8121..32db920 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2088,7 +2088,7 @@ class Spectra(HaloModelIngredients):
             'mass_in': self.mass,
             'c_in': self.conc_cen,
             'r_s_in': self.r_s_cen,
-            'rvir_in': self.rvir_cen[0],
+            'rvir_in': self.rvir_cen,
             'method': 'fftlog',
         }
         return SatelliteAlignment(**align_params)
-- 
2.43.0


From 1aa35ef4369072a2a4ddd2f581a5a3cf15c4ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:00 +0000
Subject: [PATCH 12/21] fix: recompute the alignment amplitude after beta_two
 is updated

---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 7fc2fae..8b11b27 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -169,6 +169,15 @@ class AlignmentAmplitudes(OptionFramework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Second beta parameter for central galaxies, used in the broken power law.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From 5c28245bf54719bb4861853a51a86408c5a44777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 13/21] fix: keep the matter spectrum and the halo-model
 spectrum of the response apart

hmf stores the cached quantities power_spectrum_mm and _power_spectrum_mm in the
same attribute, so with response=True each overwrote the other once read.
---
 src/onepower/pk.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 32db920..341e387 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1541,7 +1541,7 @@ class Spectra(HaloModelIngredients):
         return PowerSpectrumResult(pk_tot=self._pk_lin[np.newaxis, :, :])
 
     @cached_quantity
-    def _power_spectrum_mm(
+    def _halo_model_spectrum_mm(
         self,
     ):
         """
@@ -1650,7 +1650,7 @@ class Spectra(HaloModelIngredients):
                 pk_tot=pk_tot,
                 galaxy_linear_bias=None,
             )
-        return self._power_spectrum_mm
+        return self._halo_model_spectrum_mm
 
     # --------------------------------  Galaxy spectra specific funtions ------------------------------
 
@@ -1966,9 +1966,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2059,9 +2059,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2431,9 +2431,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_sm_1h + pk_cm_2h + pk_sm_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2554,9 +2554,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_ss_1h + pk_cc_2h + pk_ss_2h + pk_cs_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2652,9 +2652,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_cs_1h + pk_cs_2h + pk_cc_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
-- 
2.43.0


From 517fe3304dc650f497a1fa131fb6c1d9f58d1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:41 +0000
Subject: [PATCH 14/21] fix: zero, not undefined, alignment at redshifts
 without galaxies for a negative slope

---
 src/onepower/ia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 8b11b27..2980eec 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -372,7 +372,8 @@ class AlignmentAmplitudes(OptionFramework):
         dz = 0.5 * (z_bins[1] - z_bins[0])
         z_edges = np.append(z_bins - dz, z_bins[-1] + dz)
 
-        bincen = np.zeros([self.z_vec.size, nlbins])
+        # Any finite luminosity will do at a redshift without galaxies, where the pdf is zero; 0 would diverge for beta < 0
+        bincen = np.ones([self.z_vec.size, nlbins])
         pdf = np.zeros([self.z_vec.size, nlbins])
 
         for i in range(self.z_vec.size):
-- 
2.43.0


From ea62c6837aef490d4bc3c27e39cee9744c5c569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:12 +0000
Subject: [PATCH 15/21] fix: check the shape of the linear power spectrum
 before it is dewiggled

---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 341e387..e008787 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -461,12 +461,12 @@ class Spectra(HaloModelIngredients):
         else:
             val = self.matter_power_lin
 
-        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
-            val = self.dewiggle_plin(val)
         if val.shape != (self.z_vec.size, self.k_vec.size):
             raise ValueError(
                 'Shape of input power spectra is not equal to redshift and k-vec dimensions!'
             )
+        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
+            val = self.dewiggle_plin(val)
         return val
 
     @cached_quantity
-- 
2.43.0


From 44da21dc170b73b0408a02ef266c9a53291ed752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:09 +0000
Subject: [PATCH 16/21] fix: do not count the measure of the Hankel transform
 twice in pk_to_real_ogata

HankelTransform.transform() already multiplies the integrand by x, and with 20
nodes the projection is off by tens of per cent.
---
 cosmosis_modules/pk_to_real/pk_to_real_ogata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real_ogata.py b/cosmosis_modules/pk_to_real/pk_to_real_ogata.py
index 11032ef..e71f00c 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real_ogata.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real_ogata.py
@@ -51,7 +51,7 @@ class projected_corr():
         self.q, self.mu = _TRANSFORM_PARAMETERS[transform_type]
 
         # Prepare the Hankel transform.
-        N_hankel = 20#350
+        N_hankel = 4000
         h_hankel = np.pi/N_hankel
         self.h_transform = HankelTransform(self.mu,N_hankel,h_hankel)
 
@@ -81,7 +81,7 @@ class projected_corr():
         result = np.zeros(self.rp.shape)
         h = self.h_transform
         for i in range(result.size):
-            integ = lambda x: pk_iter(x/self.rp[i]) * x
+            integ = lambda x: pk_iter(x/self.rp[i])
             result[i] = h.transform(integ)[0]
         xi = result / (2.0 * np.pi * self.rp**2)
 
-- 
2.43.0


From a382eb1747883170bc341e41cfb71cebca77e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:56 +0000
Subject: [PATCH 17/21] fix: weight all galaxies alike in the mean luminosity
 scaling of alignments

The histogram of luminosities was integrated with the Simpson rule, which
weights neighbouring bins, and so individual galaxies, by 2/3 and 4/3.
---
 src/onepower/ia.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 2980eec..e1f134a 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -8,7 +8,6 @@ import numpy as np
 from astropy.io import fits
 from hankel import HankelTransform
 from scipy.fft import fht, fhtoffset
-from scipy.integrate import simpson
 from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
@@ -316,7 +315,7 @@ class AlignmentAmplitudes(OptionFramework):
         --------
         float : Mean luminosity scaling.
         """
-        return simpson(pdf * (xlum / l0) ** beta, x=xlum)
+        return np.sum(pdf * (xlum / l0) ** beta * np.gradient(xlum, axis=-1), axis=-1)
 
     def broken_powerlaw(self, xlum, pdf, gamma_2h_lum, l0, beta, beta_low):
         """
@@ -346,7 +345,7 @@ class AlignmentAmplitudes(OptionFramework):
             gamma_2h_lum * (xlum / l0) ** beta,
             gamma_2h_lum * (xlum / l0) ** beta_low,
         )
-        return simpson(pdf * alignment_ampl, x=xlum)
+        return np.sum(pdf * alignment_ampl * np.gradient(xlum, axis=-1), axis=-1)
 
     def compute_luminosity_pdf(self, z_loglum_file, nlbins):
         """
-- 
2.43.0


From 66a5aee3477e7902258cf4751ca268be9f3622f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:56 +0000
Subject: [PATCH 18/21] fix: resolve the luminosity distribution of galaxies of
 a single luminosity

np.histogram spreads its bins over a range of width one then, which
10000 bins cannot resolve around a luminosity of 1e10 or more.
---
 src/onepower/ia.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index e1f134a..217b2bc 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -380,10 +380,12 @@ class AlignmentAmplitudes(OptionFramework):
             loglum_bin = loglum_gal[mask_z]
             if loglum_bin.size:
                 lum = 10.0**loglum_bin
-                pdf_tmp, _lum_bins = np.histogram(lum, bins=nlbins, density=True)
+                # In units of the mean: galaxies of one luminosity get a range of unit width
+                lum_mean = np.mean(lum)
+                pdf_tmp, _lum_bins = np.histogram(lum / lum_mean, bins=nlbins, density=True)
                 _dbin = (_lum_bins[-1] - _lum_bins[0]) / (1.0 * nlbins)
-                bincen[i] = _lum_bins[:-1] + 0.5 * _dbin
-                pdf[i] = pdf_tmp
+                bincen[i] = (_lum_bins[:-1] + 0.5 * _dbin) * lum_mean
+                pdf[i] = pdf_tmp / lum_mean
 
         return bincen, pdf
 
-- 
2.43.0


From 265671af512edfa07484a8bf35f318792c48c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:08 +0000
Subject: [PATCH 19/21] fix: keep the downsampled halo quantities of equal
 length when a concentration repeats

---
 src/onepower/ia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 217b2bc..f02044b 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -677,14 +677,16 @@ class SatelliteAlignment(AlignmentAmplitudes):
             )
 
         downsample_factor = self.mass_in.size // self.nmass
+        # The largest mass is always kept
+        skips_last = (self.mass_in.size - 1) % downsample_factor != 0
 
         if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
             downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
+            if skips_last:
                 downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
         else:
             downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
+            if skips_last:
                 downsampled_quantity = np.concatenate(
                     (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
                 )
-- 
2.43.0


From b2b4c90812f32f80f037eed4f20cb65298d01a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 20/21] fix: alignments that decrease with halo mass were nan
 at redshifts without galaxies

---
 src/onepower/pk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index e008787..1d7e336 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2202,7 +2202,10 @@ class Spectra(HaloModelIngredients):
             The central galaxy alignment profile.
         """
         if beta is not None and mpivot is not None and mass_avg is not None:
-            additional_term = (mass_avg / mpivot) ** beta
+            # no alignments where there are no galaxies
+            additional_term = np.where(
+                mass_avg > 0.0, (mass_avg / mpivot) ** beta, 0.0
+            )
         else:
             additional_term = 1.0
         return (
@@ -2238,7 +2241,10 @@ class Spectra(HaloModelIngredients):
             The satellite galaxy alignment profile.
         """
         if beta is not None and mpivot is not None and mass_avg is not None:
-            additional_term = (mass_avg / mpivot) ** beta
+            # no alignments where there are no galaxies
+            additional_term = np.where(
+                mass_avg > 0.0, (mass_avg / mpivot) ** beta, 0.0
+            )
         else:
             additional_term = 1.0
         return f_s * Nsat * wkm_sat / numdenssat * additional_term
-- 
2.43.0


From 148cc4d8bb792c816913f98b857216ed4e2847c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:03 +0000
Subject: [PATCH 21/21] fix: undo the forward powers in the backward transform
 of fftl

---
 cosmosis_modules/pk_to_real/pyfftlog.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cosmosis_modules/pk_to_real/pyfftlog.py b/cosmosis_modules/pk_to_real/pyfftlog.py
index 97ddf47..1f4a269 100644
--- a/cosmosis_modules/pk_to_real/pyfftlog.py
+++ b/cosmosis_modules/pk_to_real/pyfftlog.py
@@ -419,9 +419,9 @@ def fftl(a, xsave, rk=1, tdir=1):
     and applying a biased Hankel transform to a(r).
 
     The steps are:
-    1. a(r) = A(r) r^[-dir*(q-.5)]
+    1. a(r) = A(r) r^[-dir*q+.5]
     2. call fhtq to transform a(r) -> ã(k)
-    3. Ã(k) = ã(k) k^[-dir*(q+.5)]
+    3. Ã(k) = ã(k) k^[-dir*q-.5]
 
     fhti must be called before the first call to fftl, with mu = 1/2 for a sine
     transform, or mu = -1/2 for a cosine transform.
@@ -467,18 +467,18 @@ def fftl(a, xsave, rk=1, tdir=1):
     jc = np.array((fct.size + 1) / 2.0)
     j = np.arange(fct.size) + 1
 
-    # a(r) = A(r) (r/rc)^[-dir*(q-.5)]
-    fct *= np.exp(-tdir * (q - 0.5) * (j - jc) * dlnr)
+    # a(r) = A(r) (r/rc)^[-dir*q+.5]
+    fct *= np.exp(-(tdir * q - 0.5) * (j - jc) * dlnr)
 
     # transform a(r) -> ã(k)
     fct = fhtq(fct, xsave, tdir)
 
-    # Ã(k) = ã(k) k^[-dir*(q+.5)] rc^[-dir*(q-.5)]
-    #      = ã(k) (k/kc)^[-dir*(q+.5)] (kc rc)^(-dir*q) (rc/kc)^(dir*.5)
+    # Ã(k) = ã(k) k^[-dir*q-.5] rc^[-dir*q+.5]
+    #      = ã(k) (k/kc)^[-dir*q-.5] (kc rc)^(-dir*q) (rc/kc)^(dir*.5)
     lnkr = np.log(kr)
     lnrk = np.log(rk)
-    fct *= np.exp(-tdir * ((q + 0.5) * (j - jc)
-                           * dlnr + q * lnkr - lnrk / 2.0))
+    fct *= np.exp(-(tdir * q + 0.5) * (j - jc) * dlnr
+                  - tdir * (q * lnkr - lnrk / 2.0))
 
     return fct
 
-- 
2.43.0

