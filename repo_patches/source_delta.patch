From 3b8905fbe9cea0518c7de34abd7f2ff487a04c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:08 +0000
Subject: [PATCH 01/18] fix: accept an integrator in
 ParticleDistribution.from_density_at_gamma_1

---
 agnpy/spectra/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..9f954e8 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -154,7 +154,9 @@ class ParticleDistribution(ABC):
         mass : :class:`~astropy.units.Quantity`
             particle mass
         """
-        k = n_gamma_1.to("cm-3") / cls.evaluate(1, 1, **kwargs)
+        # the integrator is an argument of the constructor, not of the density
+        spectral_pars = {k: v for k, v in kwargs.items() if k != "integrator"}
+        k = n_gamma_1.to("cm-3") / cls.evaluate(1, 1, **spectral_pars)
         return cls(k=k.to("cm-3"), **kwargs, mass=mass)
 
     @classmethod
-- 
2.43.0


From 0dec0b140eb36c98b343019010a9ca63c69b7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:08 +0000
Subject: [PATCH 02/18] fix: InterpolatedDistribution truncated densities at
 integer Lorentz factors and rejected scalars

---
 agnpy/spectra/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 9f954e8..9efa0c2 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -802,6 +802,8 @@ class InterpolatedDistribution(ParticleDistribution):
     def evaluate(self, gamma, norm, gamma_min, gamma_max):
         self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
+        # densities are real also for scalar or integer Lorentz factors
+        gamma = np.asarray(gamma, dtype=float)
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
         values = np.zeros_like(gamma)
         values[valid_indices] = np.power(10, self.log10_interp(np.log10(gamma[valid_indices])))
-- 
2.43.0


From 4fbda4e343b9a0dd179222e52bd34eb9c3630de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:08 +0000
Subject: [PATCH 03/18] fix: SSA integrands dropped the Lorentz factors on the
 bounds of the distribution because of rounding

---
 agnpy/spectra/spectra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 9efa0c2..a33f580 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -285,6 +285,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             -(p + 2) * np.power(gamma, -p - 1),
@@ -390,6 +391,7 @@ class BrokenPowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -700,6 +702,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
     ):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         prefactor = -(index + 2) / gamma + (-1 / gamma_c)
         return np.where(
-- 
2.43.0


From 71b673de502e5aacb3374ecf6e9778255685c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:52 +0000
Subject: [PATCH 04/18] fix: integrate the SSA opacity with a positive
 integrand, log-log integrators failed on the negative one

---
 agnpy/synchrotron/synchrotron.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/agnpy/synchrotron/synchrotron.py b/agnpy/synchrotron/synchrotron.py
index 761da01..39b4f17 100644
--- a/agnpy/synchrotron/synchrotron.py
+++ b/agnpy/synchrotron/synchrotron.py
@@ -120,10 +120,14 @@ class Synchrotron(RadiativeProcess):
         # multidimensional integration
         _gamma, _epsilon = axes_reshaper(gamma, epsilon)
         SSA_integrand = n_e.evaluate_SSA_integrand(_gamma, *args)
-        integrand = SSA_integrand * single_particle_synch_power(B_cgs, _epsilon, _gamma)
+        # the SSA integrand is negative where the distribution absorbs, change its
+        # sign before integrating: log-log integrators need a positive integrand
+        integrand = -SSA_integrand * single_particle_synch_power(
+            B_cgs, _epsilon, _gamma
+        )
         integral = integrator(integrand, gamma, axis=0)
         prefactor_k_epsilon = (
-            -1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
+            1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
         )
         k_epsilon = (prefactor_k_epsilon * integral).to("cm-1")
         return (2 * k_epsilon * R_b).to_value("")
-- 
2.43.0


From b6b098addaeace0e688f72599f1bef855b43fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 05/18] fix: no attenuation, instead of NaN, in a homogeneous
 absorber with zero optical depth

---
 agnpy/absorption/targets_absorption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..d5a947c 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -744,4 +744,5 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # without optical depth (e.g. below the threshold) there is no attenuation
+        return np.where(t == 0, 1, -np.expm1(-t) / np.where(t == 0, 1, t))
-- 
2.43.0


From 5ea08f6e05367b938cf1c9799bcb1f9c3de4d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 06/18] fix: optical depth was NaN at small viewing angles,
 cosines exceeding 1 by rounding

---
 agnpy/utils/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index fa326e1..7e5d0fc 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -7,7 +7,9 @@ def cos_psi(mu_s, mu, phi):
     zenith and azimuth (mu, phi). The system is symmetric in azimuth for the
     electron phi_s = 0, Eq. 8 in [Finke2016]_."""
     term_1 = mu * mu_s
-    term_2 = np.sqrt(1 - np.power(mu, 2)) * np.sqrt(1 - np.power(mu_s, 2))
+    # mu might exceed 1 by rounding for photons parallel to the axis
+    sin2 = np.clip(1 - np.power(mu, 2), 0, None)
+    term_2 = np.sqrt(sin2) * np.sqrt(1 - np.power(mu_s, 2))
     term_3 = np.cos(phi)
     return term_1 + term_2 * term_3
 
-- 
2.43.0


From 1a727068bfd1e189d5bce3812eb37db9940d3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 07/18] fix: time evolution callback received relative and
 absolute injection rates swapped

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From 41db0b41925959697abcbc68a76f293e9f738427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 08/18] fix: bounds of the empty distribution left by the time
 evolution were arrays

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From a356d3ed864f9fad4e14cd4ab7dc712732854a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 09/18] fix: time evolution failed on an initial_gamma_array of
 integers

---
 agnpy/time_evolution/time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..5864fa6 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -144,6 +144,8 @@ class TimeEvolution:
         if duplicated_keys:
             raise ValueError("Found duplicate keys of energy change or injection functions: " + str(duplicated_keys))
         self._gamma_bounds = gamma_bounds
+        if initial_gamma_array is not None:
+            initial_gamma_array = np.asarray(initial_gamma_array, dtype=float)
         if gamma_bounds is not None and initial_gamma_array is not None:
             if np.any(initial_gamma_array < gamma_bounds[0]):
                 raise ValueError("initial_gamma_array might not contain elements smaller than gamma_min")
-- 
2.43.0


From 7268b29c8d8103bea5f9ef7db0a01bf5a8a0b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:07 +0000
Subject: [PATCH 10/18] fix: Heun method applied the injections twice to the
 fractions of the subgroups

---
 agnpy/time_evolution/time_evolution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 5864fa6..6b4e38a 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -329,7 +329,8 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
-        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
+        initial_subgroups_density = subgroups_density
+        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, initial_subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
 
@@ -340,7 +341,7 @@ class TimeEvolution:
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
             new_gm_bins, new_dens, subgroups_density = (
-                self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
+                self._apply_time_eval(en_bins, density, initial_subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
             en_changes_grouped = averaged_en_chg_rates_grouped
-- 
2.43.0


From d80093e5bd233410d4a0fca46687df614f32003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:27 +0000
Subject: [PATCH 11/18] fix: elapsed time of the results given to the time
 evolution callback changed afterwards

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 6b4e38a..cd6dcf1 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -269,7 +269,7 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From 6694dc75df97288db73c4a122f2e103e1f3a3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:09 +0000
Subject: [PATCH 12/18] fix: gammapy wrappers rejected scalar energies and
 energies on several axes

---
 agnpy/fit/gammapy_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 105e20d..f9a2187 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -163,7 +163,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
 
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.flatten().to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b = _sort_emission_region_parameters("ssc", **kwargs)
@@ -285,7 +285,7 @@ class ExternalComptonSpectralModel(SpectralModel):
         """Evaluate the SED model.
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.flatten().to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b, mu_s, r = _sort_emission_region_parameters(
-- 
2.43.0


From 0d67322749aac015371e2f7c3c5345c2b5db6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 13/18] fix: sherpa EC model returned nothing when the targets
 were listed in another order

---
 agnpy/fit/sherpa_wrapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..3de0884 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,11 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        # the order of the targets does not matter, the parameters are the same
+        targets = set(self.targets)
+        if targets == {"blr"}:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if targets == {"dt"}:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
+        if targets == {"blr", "dt"}:
             return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
-- 
2.43.0


From 73fe91627c017aaabad2ff10bf95ceae6f38c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:10 +0000
Subject: [PATCH 14/18] fix: sherpa data loader failed, or reused the errors of
 another instrument, for instruments without systematics

---
 agnpy/fit/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..3ed0bdb 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -46,14 +46,13 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errn = tab["e2dnde_errn"]
         e2dnde_errp = tab["e2dnde_errp"]
 
-        # add systematic errors
+        # add systematic errors, none for the instruments that are not listed
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From 2a536b7d240a6d34a203c853df5bd19aed14f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 15/18] fix: power laws with an integer index failed on integer
 Lorentz factors

---
 agnpy/spectra/spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index a33f580..0416b2f 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -275,7 +275,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate(gamma, k, p, gamma_min, gamma_max):
         ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
-            (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-p), 0
+            (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-1.0 * p), 0
         )
 
     def __call__(self, gamma):
@@ -288,7 +288,7 @@ class PowerLaw(ParticleDistribution):
         ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
-            -(p + 2) * np.power(gamma, -p - 1),
+            -(p + 2) * np.power(gamma, -1.0 * p - 1),
             0,
         )
 
@@ -575,7 +575,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
         ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
-            k * gamma ** (-p) * np.exp(-gamma / gamma_c),
+            k * gamma ** (-1.0 * p) * np.exp(-gamma / gamma_c),
             0,
         )
 
-- 
2.43.0


From e03c261589e19b374afe4afd8067dde9333c9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 16/18] fix: particle spectra failed on 0-dimensional arrays
 and arrays with several dimensions

---
 agnpy/spectra/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 0416b2f..73472ed 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -217,8 +217,11 @@ class ParticleDistribution(ABC):
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
         """
-        if not isinstance(gamma, Iterable) or len(gamma) == 0:
+        if not isinstance(gamma, Iterable) or np.size(gamma) == 0 or np.ndim(gamma) == 0:
             return
+        if np.ndim(gamma) > 1:
+            # first and last values of an array with several dimensions
+            gamma = np.reshape(gamma, -1)
         if gamma_min > gamma[0]:
             if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
                 gamma[0] = gamma_min
-- 
2.43.0


From 630c9fa218af12203f9189d3329db6ddd51d7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 17/18] fix: self-absorbed synchrotron failed for a scalar
 frequency

---
 agnpy/synchrotron/synchrotron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/synchrotron/synchrotron.py b/agnpy/synchrotron/synchrotron.py
index 39b4f17..8098c59 100644
--- a/agnpy/synchrotron/synchrotron.py
+++ b/agnpy/synchrotron/synchrotron.py
@@ -210,7 +210,7 @@ class Synchrotron(RadiativeProcess):
                 gamma=gamma,
             )
             attenuation = tau_to_attenuation(tau)
-            sed *= attenuation
+            sed *= np.reshape(attenuation, np.shape(sed))
 
         return sed
 
-- 
2.43.0


From e16b45d720fb0be497a7f1efa0a9552f383aeed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:14 +0000
Subject: [PATCH 18/18] fix: jet aligned with the line of sight had no viewing
 angle and no external Compton emission, its cosine exceeding 1 by rounding

---
 agnpy/emission_regions/blob.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 5e08435..0bc62bc 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -109,7 +109,11 @@ class Blob:
     @property
     def mu_s(self):
         """Cosine of the viewing angle from the jet axis to the observer."""
-        return (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        mu_s = (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        # for a jet along the line of sight it might exceed 1 by rounding
+        if 1 < abs(mu_s) < 1 + 1e-12:
+            return np.sign(mu_s)
+        return mu_s
 
     @property
     def theta_s(self):
-- 
2.43.0

