From cc9d42ae2144f9060001d179cf5d76c8bcb291a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 01/37] fix: import without numba (the compiled trapezoid was
 created unconditionally)

---
 src/pystrata/propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..f2e04cb 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,7 +73,6 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
 def _my_trapz_impl(thickness, prop, depth_max):
     total = 0
     depth = 0
@@ -110,7 +109,8 @@ def _my_trapz_python(thickness, prop, depth_max):
     return total / depth_max
 
 
-my_trapz = _my_trapz_impl if HAS_NUMBA else _my_trapz_python
+# The compiled version can only be created if numba is available
+my_trapz = numba.jit(nopython=True)(_my_trapz_impl) if HAS_NUMBA else _my_trapz_python
 
 
 def _calc_waves_python(angular_freqs, comp_shear_vels, comp_shear_mods, thicknesses):
-- 
2.43.0


From 09955d0b71366cd176f2c46b1f01294e49809b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 02/37] fix: locate layers by identity, distinct layers may
 compare equal

---
 src/pystrata/site.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..b27a729 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2106,6 +2106,10 @@ class Profile(collections.abc.Container):
         return Profile([layer.copy() for layer in self], self.wt_depth)
 
     def index(self, layer):
+        # Distinct layers may compare equal (e.g., sublayers), so prefer identity
+        for i, other in enumerate(self.layers):
+            if other is layer:
+                return i
         return self.layers.index(layer)
 
     def append(self, layer):
@@ -2135,7 +2139,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From d181fb16efbe74cd031c703dc5af52d9b3d41849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 03/37] fix: peak velocity and acceleration of random vibration
 theory motions

calc_pgv and calc_pga were only defined for time series, so that an
equivalent-linear calculation with any RVT motion failed.
---
 src/pystrata/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..55280e5 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
@@ -167,18 +179,6 @@ class TimeSeriesMotion(Motion):
             ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
         return ts
 
-    def calc_pgv(self, tf=None):
-        tf = 1 if tf is None else np.asarray(tf)
-        # Compute transfer function from acceleration to velocity
-        # only over non-zero frequencies
-        mask = ~np.isclose(self.angular_freqs, 0)
-        tf_av = np.zeros_like(mask, dtype=complex)
-        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
-        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
-
-    def calc_pga(self, tf=None):
-        return self.calc_peak(tf)
-
     def calc_peak(self, tf=None, **kwargs):
         ts = self.calc_time_series(tf)
         return np.abs(ts).max()
-- 
2.43.0


From 7f453630b019c8ab9147a242ccd9d96db07b0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 04/37] fix: Fourier spectrum of odd lengths

The number of frequencies did not match the number of amplitudes, and the
inverse transform returned a time series of the wrong length.
---
 src/pystrata/motion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index 55280e5..85d841b 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -174,9 +174,11 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, n=self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(
+                tf * self.fourier_amps / self.time_step, n=self._fa_length
+            )
         return ts
 
     def calc_peak(self, tf=None, **kwargs):
@@ -239,8 +241,9 @@ class TimeSeriesMotion(Motion):
 
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
-        freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = np.fft.rfftfreq(n, d=self._time_step)
+        # Length needed to invert the spectrum, which may be odd
+        self._fa_length = n
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From 1a22ddba4481a44b226d7534e6a727e15f767a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 05/37] fix: relative error of the iterations is a magnitude

An increase of the modulus or damping gave a negative error, so that the
equivalent-linear iterations ended before they converged.
---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index b27a729..b3db233 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs(self.previous - self.value) / self.value)
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From 13887e2a717baa5e6a8877336b1c9109546c88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 06/37] fix: equal soil types and layers have equal hashes

The hash was of a temporary object, so that iter_soil_types repeated shared
soil types -- and remembered the layer instead of the soil type.
---
 src/pystrata/site.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index b3db233..34bb478 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -364,7 +364,8 @@ class SoilType:
         return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        # Consistent with __eq__: equal soil types have equal names and unit weights
+        return hash((type(self), self.name, self.unit_wt))
 
 
 class ModifiedHyperbolicSoilType(SoilType, ABC):
@@ -1768,7 +1769,7 @@ class Layer:
         )
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        return hash((self._soil_type, self._thickness, self.initial_shear_vel))
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
@@ -2151,7 +2152,7 @@ class Profile(collections.abc.Container):
             if layer.soil_type in yielded:
                 continue
             else:
-                yielded.add(layer)
+                yielded.add(layer.soil_type)
                 yield layer.soil_type
 
     def auto_discretize(
-- 
2.43.0


From 9a68ade21d436f2786554ee9160acb6e05a3cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 07/37] fix: one varied realization per distinct soil type

Soil types were identified by the address in their default repr.
---
 src/pystrata/variation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..4a40a16 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -910,7 +910,7 @@ class SoilTypeVariation:
         """
         # Map of varied soil types
         varied = {
-            str(st): self(st, sample_index=sample_index)
+            st: self(st, sample_index=sample_index)
             for st in profile.iter_soil_types()
         }
 
@@ -918,7 +918,7 @@ class SoilTypeVariation:
         end = None if self.vary_bedrock else -1
         layers = [
             site.Layer(
-                varied[str(layer.soil_type)],
+                varied[layer.soil_type],
                 layer.thickness,
                 layer.initial_shear_vel,
                 layer.damping_min,
-- 
2.43.0


From b8737294881e53aa62c3acf480cf71d8376adf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 08/37] fix: cycle through the percentiles as documented

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4a40a16..5243d11 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -871,7 +871,7 @@ class SoilTypeVariation:
                 raise ValueError(
                     "sample_index must be provided when sample_mode='fixed_percentiles'"
                 )
-            percentile = self._percentiles[sample_index]
+            percentile = self._percentiles[sample_index % len(self._percentiles)]
             randvar = randnorm.correlated_at_percentile(self.correlation, percentile)
         else:
             randvar = randnorm.correlated(self.correlation)
-- 
2.43.0


From 95d529ee7b43b3fe947f5361cc6db4627011e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 09/37] fix: copied and discretized layers keep the
 small-strain velocity

The strain-compatible velocity became the initial velocity of the new layers,
and linear layers and the half-space were shared with the original profile.
---
 src/pystrata/site.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 34bb478..96c1a59 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1773,7 +1773,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
@@ -2190,14 +2192,14 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From d4c378432673a177fce426655024e67eea0acaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 10/37] fix: varied profiles do not take over or alter the
 seed's half-space

The half-space of the seed was placed in the varied profile, which changed its
depth and owner, and Toro layering dropped its layer-specific damping.
---
 src/pystrata/variation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 5243d11..a4bf8c0 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
@@ -315,7 +317,8 @@ class HalfSpaceDepthVariation:
             for _ in range(count - 1):
                 layers.append(parent.copy())
 
-        layers.append(half_space)
+        # The seed profile keeps its own half-space
+        layers.append(half_space.copy())
 
         return site.Profile(layers, profile.wt_depth)
 
@@ -928,7 +931,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From c465532da61dbf3cc4951368e7674595053853f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 11/37] fix: Vs30 of profiles shallower than 30 m

The travel time through the half-space was missing.
---
 src/pystrata/site.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 96c1a59..994f49f 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2315,8 +2315,11 @@ class Profile(collections.abc.Container):
 
     def vs30(self):
         """Compute the Vs30 of the profile."""
+        depth = self.depth
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
-        time = np.interp(30, self.depth, tot_time)
+        # The half-space extends below the profile
+        rem_depth = max(30 - depth[-1], 0)
+        time = np.interp(30, depth, tot_time) + rem_depth / self[-1].initial_shear_vel
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From fb07a0d5550ccbc20bdc0ba06c6af80bfb99f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 12/37] fix: depths and stresses after inserting a layer at a
 negative index

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 994f49f..8695203 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2122,7 +2122,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # The index may be negative, or beyond the last layer
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From 3686ae9237d1e04b9ec222c508cea518c403ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 13/37] fix: time labels of the Arias intensity build-up

The intensity at the first sample (zero) was left out, so that every value was
labelled with the time one step before.
---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..ef98bb0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From de91ed1e7c8615633c8362a365718d6b23e29be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 14/37] fix: damping and modulus reduction profiles of
 frequency-dependent runs

The spectra of the layers were stored as if they were separate results. Report the
extreme over frequency, as the strain-compatible velocity profile does.
---
 src/pystrata/output.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index ef98bb0..46a291d 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -743,7 +743,8 @@ class DampingProfile(ProfileBasedOutput):
         # Add depth at top of layer
         self._add_refs(calc.profile.depth)
 
-        values = [layer.damping for layer in calc.profile[:-1]]
+        # Largest value if the damping varies with frequency
+        values = [np.max(layer.damping) for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
         self._add_values(values)
@@ -757,7 +758,8 @@ class ShearModReducProfile(ProfileBasedOutput):
         # Add depth at top of layer
         self._add_refs(calc.profile.depth)
 
-        values = [layer.shear_mod_reduc for layer in calc.profile[:-1]]
+        # Smallest value if the modulus varies with frequency
+        values = [np.min(layer.shear_mod_reduc) for layer in calc.profile[:-1]]
         # Bring the first mid-layer value to the surface
         values.insert(0, values[0])
         self._add_values(values)
-- 
2.43.0


From 9191fb8c695c7f8938a85db9fb141c3c996224a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 15/37] fix: statistics and tables of outputs with a single
 result

---
 src/pystrata/output.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 46a291d..e2f87b0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -234,8 +234,13 @@ class Output:
         else:
             self._values = append_arrays(self._values, values)
 
+    @staticmethod
+    def _as_columns(values):
+        """Values with one column per result, also if there is only one."""
+        return values if values.ndim > 1 else values[:, np.newaxis]
+
     def calc_stats(self, as_dataframe=False):
-        ln_values = np.log(self.values)
+        ln_values = np.log(self._as_columns(self.values))
         median = np.exp(np.nanmean(ln_values, axis=1))
         ln_std = np.nanstd(ln_values, axis=1)
 
@@ -654,7 +659,7 @@ class ProfileBasedOutput(Output):
         if ref is None:
             ref = np.linspace(0, np.nanmax(self.refs) * 1.05, num=512)
 
-        n = self.values.shape[1]
+        n = self._as_columns(self.values).shape[1]
         with np.errstate(divide="ignore", invalid="ignore"):
             # Ignore zeros in the data
             ln_values = np.array([self._ln_interp(i, ref) for i in range(n)]).T
@@ -680,11 +685,11 @@ class ProfileBasedOutput(Output):
     def _ln_interp(self, i, ref):
         """Interpolate the values in log-y space."""
 
-        _ref = self.refs[:, i]
+        _ref = self._as_columns(self.refs)[:, i]
         # Only select points with valid entries
         mask = np.isfinite(_ref)
         _ref = _ref[mask]
-        _ln_values = np.log(self.values[mask, i])
+        _ln_values = np.log(self._as_columns(self.values)[mask, i])
 
         if np.any(mask):
             f = interp1d(
@@ -715,7 +720,7 @@ class ProfileBasedOutput(Output):
             columns = self.names
 
         # Ignore zeros in the data
-        n = self.values.shape[1]
+        n = self._as_columns(self.values).shape[1]
         values = np.exp(np.array([self._ln_interp(i, ref) for i in range(n)])).T
 
         df = pd.DataFrame(values, index=ref, columns=columns)
-- 
2.43.0


From 1d943a65f77d5aad866dc5a525d6b9d196d1be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 16/37] fix: cyclic stress ratio of frequency-dependent runs

The modulus spectra of the layers were multiplied with the maximum strain, which
gave one value per frequency (or an error). Take the peak of the stress; it is the
same for frequency-independent moduli.
---
 src/pystrata/output.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index e2f87b0..386ceb3 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -816,13 +816,20 @@ class CyclicStressRatioProfile(ProfileBasedOutput):
     def __call__(self, calc, name=None):
         ProfileBasedOutput.__call__(self, calc, name)
         values = [
-            layer.stress_shear_max / layer.stress_vert(layer.thickness / 2, True)
+            self._calc_stress(calc, layer) / layer.stress_vert(layer.thickness / 2, True)
             for layer in calc.profile[:-1]
         ]
         # Repeat the first value for the surface
         values = self._stress_level * np.array([values[0]] + values)
         self._add_values(values)
 
+    def _calc_stress(self, calc, layer):
+        # Peak of the stress, also if the modulus varies with frequency
+        loc = calc.profile.location("within", depth=layer.depth_mid)
+        return calc.motion.calc_peak(
+            calc.calc_stress_tf(calc.loc_input, loc, damped=False)
+        )
+
 
 class MaxAccelProfile(ProfileBasedOutput):
     xlabel = "Max. Accel. (g)"
-- 
2.43.0


From df571a46a3ee659b031446acb62824be62179f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 17/37] fix: combine results with integer values of different
 length

Profiles given with integer thicknesses or velocities could not be padded with NaN.
---
 src/pystrata/output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 386ceb3..0170794 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -158,6 +158,10 @@ def append_arrays(many, single):
     """
     assert np.ndim(single) == 1
 
+    # Integers cannot be padded with NaN
+    single = np.asarray(single, dtype=np.result_type(single, float))
+    many = np.asarray(many, dtype=np.result_type(many, float))
+
     # Check if the values need to be padded to for equal length
     diff = single.shape[0] - many.shape[0]
     if diff < 0:
-- 
2.43.0


From 1601532e28ed8fe18641cdc96fb28a43dc3c39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 18/37] fix: the fit of the amplification returns its result

The fitted profile was not returned as documented, and the site attenuation was left
at the last value that the optimizer had tried instead of the best one.
---
 src/pystrata/propagation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index f2e04cb..a87bf25 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -540,6 +540,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         slowness = res.x[0:nl]
         if adjust_thickness:
             thickness = res.x[nl : (2 * nl)]
+        if adjust_site_atten:
+            self._site_atten = res.x[-1]
 
         profile = Profile(
             [
@@ -551,6 +553,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         # Update the calculated amplificaiton
         self(self.motion, profile, self.loc_input)
 
+        return profile
+
 
 class LinearElasticCalculator(AbstractCalculator):
     """Class for performing linear elastic site response."""
-- 
2.43.0


From d288dd57676c5e5718f5a4ec79e16658c3801fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 19/37] fix: profiles fitted to an amplification keep the
 damping of the layers

---
 src/pystrata/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index a87bf25..0f91041 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -545,7 +545,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
 
         profile = Profile(
             [
-                Layer(layer.soil_type, thick, 1 / slow)
+                Layer(layer.soil_type, thick, 1 / slow, layer.damping_min)
                 for layer, thick, slow in zip(self.profile, thickness, slowness)
             ],
             self.profile.wt_depth,
-- 
2.43.0


From afb5db02c498fab7d419018e515f364d7c0ac46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 20/37] fix: fit layer thicknesses above a half-space without
 thickness

The relative change of the zero thickness made the objective function NaN.
---
 src/pystrata/propagation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 0f91041..200d941 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -530,7 +530,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
             # Prefer the original values so add the difference to the error
             err += calc_rmse(slowness, _slowness)
             if adjust_thickness:
-                err += calc_rmse(thickness, _thickness)
+                # The half-space has no influence, and commonly no thickness
+                err += calc_rmse(thickness[:-1], _thickness[:-1])
             if adjust_site_atten:
                 err += calc_rmse(self._site_atten, site_atten)
             return err
-- 
2.43.0


From 60031c20e0c6be4d999f852615a0ef408bb66983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 21/37] fix: minimum damping used by WangSoilType.calc_damping
 if not specified

---
 src/pystrata/site.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 8695203..754cba4 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1295,9 +1295,14 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # Contents are expected in percent, but have been converted to decimal
+            percent = ("fines_cont", "plas_index", "water_cont")
+            damping_min = cls.calc_damping_min(
+                soil_group,
+                **{k: 100 * v if k in percent else v for k, v in kwds.items()},
+            )
 
-        gamma_ratio = (100 * strains / gamma_d) ** c
+        gamma_ratio = (100 * np.asarray(strains) / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
         return (d * gamma_ratio + 100 * damping_min) / (gamma_ratio + 1) / 100
 
-- 
2.43.0


From 3dc3b790ee4f21280f300fccd9a0af2e02ca4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 22/37] fix: no further layer after the total depth is reached

---
 src/pystrata/variation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index a4bf8c0..1c2850c 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -237,7 +237,8 @@ class ToroThicknessVariation:
 
             if depth > depth_total:
                 thickness = depth_total - depth_prev
-                depth = depth_prev + thickness
+                # Exactly, so that rounding does not add another thin layer
+                depth = depth_total
 
             depth_mid = (depth_prev + depth) / 2
             yield thickness, depth_mid
-- 
2.43.0


From 52b427b78a285103f4b208c137cb9f1ba8e504b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 23/37] fix: velocity correlation depends on the distance of
 the layers' midpoints

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 1c2850c..b99604b 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -566,7 +566,7 @@ class ToroVelocityVariation(VelocityVariation):
         # t variable from Toro; defined as the difference of the midpoint depths
         # Here the thickness is limited to 100 m to prevent underflow on the
         # exponent. For this thickness, the correlation will be minor
-        thick = np.minimum(np.diff(depth), 100)
+        thick = np.minimum(np.diff(depths_mid)[:-1], 100)
 
         # Remove the depth associated with the final layer. We will set that it is
         # perfectly correlated later.
-- 
2.43.0


From b5b239806e7692c47da3f544bf0c354500cf4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 24/37] fix: standard deviations given for a generic
 depth-dependent model

---
 src/pystrata/variation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index b99604b..fe39a7b 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -770,12 +770,11 @@ class DepthDependToroVelVariation(ToroVelocityVariation):
             Initialized :class:`DepthDependToroVelVariation` with generic parameters.
         """
         p = dict(cls.PARAMS[site_class])
+        # Defaults, which may be overridden
+        p["depth"] = [0, 15]
+        p["ln_std"] = [0.25, 0.15]
         p.update(kwds)
 
-        if "depth" not in kwds:
-            p["depth"] = [0, 15]
-            p["ln_std"] = [0.25, 0.15]
-
         p["ln_std_map"] = ln_std_map
         return cls(**p)
 
-- 
2.43.0


From ade0a172364f79e2ee3ca2297aab15537c26aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 25/37] fix: logic trees with numbers and names as values of
 the same node

---
 src/pystrata/logic_tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index af0edf9..6de7c86 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -59,7 +59,7 @@ class Realization:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, (float, int)):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -123,7 +123,7 @@ class Alternative:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, (float, int)):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -187,7 +187,9 @@ class Node:
         """
         for a in self.alts:
             if (
-                isinstance(value, float) and np.isclose(a.value, value)
+                isinstance(value, float)
+                and isinstance(a.value, (float, int))
+                and np.isclose(a.value, value)
             ) or a.value == value:
                 return a
 
-- 
2.43.0


From 4524dc578c62eafef4231473b8a1e05538b1bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 26/37] fix: logic trees with lists as values

---
 src/pystrata/logic_tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index 6de7c86..f4e0d5a 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -399,11 +399,17 @@ class LogicTree:
         # have the same value but different conditional requirements
         seen_branches = set()
 
+        def to_hashable(value):
+            # Tuples are read from JSON as lists
+            return tuple(value) if isinstance(value, list) else value
+
         for reals in itertools.product(*self.nodes):
             branch = Branch({r.name: r for r in reals})
             if self.is_valid(branch):
                 # Create a hashable representation of the branch values
-                branch_key = tuple(sorted((k, v) for k, v in branch.as_dict().items()))
+                branch_key = tuple(
+                    sorted((k, to_hashable(v)) for k, v in branch.as_dict().items())
+                )
                 if branch_key not in seen_branches:
                     seen_branches.add(branch_key)
                     yield branch
-- 
2.43.0


From d619cd8c6fabd9838e590cdff4eab3873fe77e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 27/37] fix: thicknesses of the layers to which the damping is
 adjusted

---
 src/pystrata/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..3d8aaf9 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,8 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    # The selected layers may not be adjacent, or include the half-space
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From 621cc94dad280120d208826f9b082899c7f33da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 28/37] fix: scattering attenuation depended on the strains of
 previous calculations

---
 src/pystrata/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 3d8aaf9..7c70cdc 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -334,7 +334,7 @@ def calc_atten_scatter(
             site.Layer(
                 site.SoilType(layer.soil_type.name, layer.soil_type.unit_wt, 0, 0.01),
                 layer.thickness,
-                layer.shear_vel,
+                layer.initial_shear_vel,
                 layer.damping_min,
             )
             for layer in profile
-- 
2.43.0


From 46605d37d4813e9671442cdfb14895c33ae483a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 29/37] fix: nrattle control files with an integer half-space
 velocity

---
 src/pystrata/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 7c70cdc..4554c1b 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -271,6 +271,9 @@ def read_nrattle_ctl(fpath):
 
     profile = []
     while line := lines.pop(0):
+        if len(line.split()) < 5:
+            # Half-space with only velocity and density
+            break
         try:
             profile.append(split_line(line, [int, float, float, float, float]))
         except ValueError:
-- 
2.43.0


From 0da58ce12dab3656ac33425c1434a5f05947a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 30/37] fix: documented regions and scalar depths of
 kea16_profile

---
 src/pystrata/generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..a8836e3 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -52,6 +52,9 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     database." Bulletin of the Seismological Society of America, 106(4),
     1710-1723.
     """
+    region = region.lower()
+    depth = np.atleast_1d(depth)
+
     # Coefficients from Table 2 [cite: 184, 185]
     if region == "california":
         b1 = 0.25
-- 
2.43.0


From b1df6cb1ef664020f99ef83d5d4673f5814d28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 31/37] fix: depth range of the amplification plot

---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 0170794..ccc3868 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -106,7 +106,7 @@ def plot_amplification_evolv(
         xscale="log",
         ylabel="Depth (m)",
         yscale="linear",
-        ylim=(depths[0], 0),
+        ylim=(depths[-1], 0),
     )
 
     return ax
-- 
2.43.0


From 8b2e46c5c49615b7e7cac2885951eaaa705845fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 32/37] fix: exponent of the amplification below the range of
 the ba23 model

---
 src/pystrata/propagation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 200d941..f835dbe 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -383,7 +383,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         p = 3.000
         q = 0.333
 
-        fact = (x - b) / s
+        # No correction below the range of the model (0.05 of the resonance frequency)
+        fact = np.maximum((x - b) / s, 0)
 
         eta = (a * fact**d) / ((1 - fact**e) ** g + h * fact**p) ** q
 
-- 
2.43.0


From 6c64f2bec8fcebec2cd006e5eec9c6266acbd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 33/37] fix: do not pass osc_damping of
 plot_amplification_evolv to the mesh

---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index ccc3868..e48e817 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -59,7 +59,7 @@ def plot_amplification_evolv(
     if freqs is None:
         freqs = np.logspace(-1, 2, num=301)
 
-    osc_damping = 0.05 if "osc_damping" not in kwds else kwds["osc_damping"]
+    osc_damping = kwds.pop("osc_damping", 0.05)
 
     ln_freqs = np.log(freqs)
     ln_freqs_mot = np.log(calc.motion.freqs)
-- 
2.43.0


From c9aea42c37c29db4c57a213801427a406882bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 34/37] fix: plotting a cyclic stress ratio profile failed
 without a label

---
 src/pystrata/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index e48e817..de439f5 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -807,6 +807,8 @@ class CompatVelProfile(ProfileBasedOutput):
 
 
 class CyclicStressRatioProfile(ProfileBasedOutput):
+    xlabel = "Cyclic Stress Ratio"
+
     # From Idriss and Boulanger (2008, pg. 70):
     # The 0.65 is a constant used to represent the reference stress
     # level. While being somewhat arbitrary it was selected in the
-- 
2.43.0


From 7642189e58571aa45fe5dac2efdaa659d6daf0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 35/37] fix: covariance of varied velocities had no correlation
 beyond adjacent layers

The matrix with only adjacent correlations is not positive semi-definite, so the
drawn velocities had neither the given standard deviations nor correlations.
---
 src/pystrata/variation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index fe39a7b..6e8cf71 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -26,7 +26,6 @@ from collections.abc import Generator
 import numpy as np
 import numpy.typing as npt
 from scipy import stats
-from scipy.sparse import diags
 
 from . import site
 
@@ -390,13 +389,13 @@ class VelocityVariation:
         # Modify the standard deviation by the truncated norm scale
         std *= randnorm.scale
 
-        var = std**2
-        covar = corr * std[:-1] * std[1:]
+        # The velocity of a layer depends only on that of the layer above it, so
+        # that the correlation of two layers is the product of those in between
+        full_corr = np.eye(len(std))
+        for i in range(len(corr)):
+            full_corr[i, i + 1 :] = full_corr[i + 1 :, i] = np.cumprod(corr[i:])
 
-        # Main diagonal is the variance
-        mat = diags([covar, var, covar], [-1, 0, 1]).toarray()
-
-        return mat
+        return full_corr * np.outer(std, std)
 
     @abstractmethod
     def _calc_corr(self, profile):
-- 
2.43.0


From e755a5526b70989f713dccaaaf6e92f88130f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 36/37] fix: copies of derived soil types lost their type and
 parameters

---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 754cba4..56dfe39 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -22,6 +22,7 @@
 from __future__ import annotations
 
 import collections
+import copy
 import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
@@ -327,7 +328,8 @@ class SoilType:
         )
 
     def copy(self) -> SoilType:
-        return SoilType(self.name, self.unit_wt, self.mod_reduc, self.damping)
+        # Keep the type and the parameters of derived soil types
+        return copy.copy(self)
 
     @property
     def density(self) -> float:
-- 
2.43.0


From 8ec907281f549cca0d8fec892fe769c848c86314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 37/37] fix: keep depth increasing downwards when a profile is
 plotted on used axes

---
 src/pystrata/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index de439f5..b100334 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -683,7 +683,8 @@ class ProfileBasedOutput(Output):
 
     def plot(self, ax=None, style="stats"):
         ax = Output.plot(self, ax, style)
-        ax.invert_yaxis()
+        if not ax.yaxis_inverted():
+            ax.invert_yaxis()
         return ax
 
     def _ln_interp(self, i, ref):
-- 
2.43.0

