From 607c4de52824b62fc6f02b9b6a2d9edcb31f5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 01/15] fix: LWC cloud top adjustment fails when the layer base
 is the top gate

---
 cloudnetpy/products/lwc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 80de7fc..543a875 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -229,13 +229,13 @@ class CloudAdjustor:
     def _adjust_lwc(self, time_ind: int, base_ind: int) -> None:
         lwc_base = self.lwc_adiabatic[time_ind, base_ind]
         distance_from_base = 1
-        while True:
+        while not self._out_of_bound(base_ind + distance_from_base - 1):
             top_ind = base_ind + distance_from_base
             lwc_top = lwc_base * (distance_from_base + 1)
             self.lwc_adiabatic[time_ind, top_ind] = lwc_top
             if not self.status[time_ind, top_ind]:
                 self.status[time_ind, top_ind] = 3
-            if self._has_converged(time_ind) or self._out_of_bound(top_ind):
+            if self._has_converged(time_ind):
                 break
             distance_from_base += 1
 
-- 
2.43.0


From e0e060e8fa11e0569504ef8b481b651c6a45c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 02/15] fix: wrap longitudes above 180 degrees in site
 geolocation

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..ccf7dd3 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1163,7 +1163,7 @@ def add_site_geolocation(
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon[lon > 180] - 360
+        lon[lon > 180] -= 360
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From a5e898265c0b31d4745635d14f50c92bdab1b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 03/15] fix: keep the sign of coordinates read from global
 attributes

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index ccf7dd3..ffb5bf4 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1192,7 +1192,7 @@ def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float
     if attr == "Unknown":
         return None
     for char in attr:
-        if char.isdigit() or char == ".":
+        if char.isdigit() or char == "." or (char == "-" and not new_str):
             new_str += char
     return float(new_str)
 
-- 
2.43.0


From 639392df139a401d35a884f93b1a5a558c904ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 04/15] fix: cumulative amounts counted twice after a second
 counter reset

---
 cloudnetpy/instruments/cloudnet_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..08f9369 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -123,7 +123,7 @@ class CSVFile(CloudnetInstrument):
             if amount[i] is ma.masked:
                 continue
             if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
+                offset = amount[last_valid]
             amount[i] += offset
             last_valid = i
         amount -= amount[0]
-- 
2.43.0


From 80f98d3f97204aab90e2fe83f4c71aece4bb645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 05/15] fix: insects at the end of the day reclassified by a
 melting layer at its start

---
 cloudnetpy/categorize/classify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index eeb39cf..2633857 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -282,7 +282,7 @@ def _filter_insects(bits: CategoryBits) -> None:
             else:
                 continue
             # change insects on the right and left of melting layer pixel to drizzle
-            ind1 = np.arange(x - n_gates, x + n_gates + 1)
+            ind1 = np.arange(max(x - n_gates, 0), x + n_gates + 1)
             ind11 = np.where(original_insects[ind1, y])[0]
             is_falling[ind1[ind11], y - 1 : y + 2] = True
             is_insects[ind1[ind11], y - 1 : y + 2] = False
-- 
2.43.0


From 72a7443c033c70fb492c1395480a4fdb4ef0aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 06/15] fix: drizzle velocity error overwrites the drizzle
 diameter error

---
 cloudnetpy/products/drizzle_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_error.py b/cloudnetpy/products/drizzle_error.py
index e88b118..b96a7fe 100644
--- a/cloudnetpy/products/drizzle_error.py
+++ b/cloudnetpy/products/drizzle_error.py
@@ -112,7 +112,7 @@ def _add_supplementary_errors(
         return _stack_errors(n_error, drizzle_indices)
 
     def _calc_v_error() -> ma.MaskedArray:
-        error = results["Do_error"]
+        error = results["Do_error"].copy()
         error[drizzle_indices["tiny"]] *= error[drizzle_indices["tiny"]]
         return error
 
-- 
2.43.0


From a9fa5326e8c683ebe6328211a6c563dad09b3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 07/15] fix: scaled droplet radius reported for profiles
 without liquid water path

---
 cloudnetpy/products/der.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 68e479c..2c6dd06 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -208,9 +208,9 @@ class DerSource(DataSource):
         der_scaled_error = (
             ma.masked_less_equal(ma.masked_invalid(der_scaled_error), 0.0) * 1.0e-3
         )
-        if isinstance(lwp, ma.MaskedArray):
-            for var in (der_scaled, der_scaled_error, N_scaled):
-                var[lwp.mask] = ma.masked
+        no_lwp = ma.filled(lwp, 0) <= 0
+        for var in (der_scaled, der_scaled_error, N_scaled):
+            var[no_lwp] = ma.masked
 
         self.append_data(N_scaled, "N_scaled")
         self.append_data(der, "der")
-- 
2.43.0


From e5b6e1e0d01acec95d0b24647cef8ff8ea0cac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 08/15] fix: integrate radar reflectivity over the gates of the
 layer in scaled droplet radius

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 2c6dd06..c9db9e7 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -167,7 +167,7 @@ class DerSource(DataSource):
             if Z[ind_t, idx_layer].mask.all():
                 continue
 
-            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer])) * path_lengths[idx_layer]
+            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer]) * path_lengths[idx_layer])
 
             # der formula (5)
             A = (Z[ind_t, idx_layer] / params.N) ** (1 / 6)
-- 
2.43.0


From e68e95f1835a077cd8cb8c69b5e7aac7cad234e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 09/15] fix: drizzle status reported where velocity variance is
 missing

---
 cloudnetpy/products/drizzle_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_tools.py b/cloudnetpy/products/drizzle_tools.py
index 70ff2e1..3f81580 100644
--- a/cloudnetpy/products/drizzle_tools.py
+++ b/cloudnetpy/products/drizzle_tools.py
@@ -109,7 +109,7 @@ class DrizzleClassification(ProductClassification):
     @staticmethod
     def _find_v_sigma(cat_file: str | PathLike) -> npt.NDArray:
         v_sigma = product_tools.read_nc_field(cat_file, "v_sigma")
-        return np.isfinite(v_sigma)
+        return ma.filled(np.isfinite(v_sigma), fill_value=False)
 
     def _find_warm_liquid(self) -> npt.NDArray:
         return self.category_bits.droplet & ~self.category_bits.freezing
-- 
2.43.0


From cd6419e51f1cc51d8bd6f1ad7b1395edad87a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 10/15] fix: cumulative amounts lost when the first value of
 the day is missing

---
 cloudnetpy/instruments/cloudnet_instrument.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 08f9369..d7247f3 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -117,14 +117,18 @@ class CSVFile(CloudnetInstrument):
         if key not in self.data:
             return
         amount = self.data[key][:]
+        is_valid = ~ma.getmaskarray(amount)
+        if not np.any(is_valid):
+            return
+        first_valid = int(np.argmax(is_valid))
         offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
+        last_valid = first_valid
+        for i in range(first_valid + 1, len(amount)):
             if amount[i] is ma.masked:
                 continue
             if amount[i] + offset < amount[last_valid]:
                 offset = amount[last_valid]
             amount[i] += offset
             last_valid = i
-        amount -= amount[0]
+        amount -= amount[first_valid]
         self.data[key].data = amount
-- 
2.43.0


From d3b194c30d6e39c7c532bbc9836760a5a68b3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 11/15] fix: rebin_1d masks bins without valid samples also
 when all samples are zero or missing

---
 cloudnetpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index ffb5bf4..6f7dd27 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,10 +184,10 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
+    result = ma.array(np.zeros(len(x_new)), mask=True)
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
     mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
+    if np.any(mask):
         result, _, _ = stats.binned_statistic(
             x_in[mask],
             array_screened[mask],
-- 
2.43.0


From 69d3b298ce0e10f12c91adfdcf5aeb1ae7a38d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 12/15] fix: averaging a radar file without nyquist velocity no
 longer fails on the added variable

---
 cloudnetpy/categorize/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 3afddb2..dbd1a7e 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -54,7 +54,7 @@ class Radar(DataSource):
 
         """
         bad_time_indices = []
-        for key, array in self.data.items():
+        for key, array in list(self.data.items()):
             match key:
                 case "ldr" | "sldr" | "Z":
                     array.db2lin()
-- 
2.43.0


From 32f846a2cf11efe2f36cf5e38c12e14389f3510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 13/15] fix: report rain attenuation as uncorrected where the
 rain rate is missing

---
 cloudnetpy/categorize/attenuations/rain_attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/attenuations/rain_attenuation.py b/cloudnetpy/categorize/attenuations/rain_attenuation.py
index 9ae6ced..1579cf2 100644
--- a/cloudnetpy/categorize/attenuations/rain_attenuation.py
+++ b/cloudnetpy/categorize/attenuations/rain_attenuation.py
@@ -27,6 +27,7 @@ def calc_rain_attenuation(
         )
 
     rainfall_rate = data.disdrometer.data["rainfall_rate"][:].copy()
+    is_missing = utils.transpose(ma.getmaskarray(rainfall_rate).copy())
     rainfall_rate[classification.is_rain == 0] = ma.masked
     frequency = data.radar.radar_frequency
 
@@ -48,7 +49,7 @@ def calc_rain_attenuation(
         amount=two_way_attenuation,
         error=two_way_attenuation * 0.2,
         attenuated=affected_region,
-        uncorrected=np.zeros_like(affected_region, dtype=bool),
+        uncorrected=affected_region & is_missing,
     )
 
 
-- 
2.43.0


From 126872d01a20fa5d6e53d9c0e7e43c642888d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 14/15] fix: rain guard of the clutter detection ineffective
 for integer rain flags

---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1631036..36066f6 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -164,5 +164,5 @@ def _find_clutter(
     is_clutter = np.zeros(v.shape, dtype=bool)
     filled = False
     tiny_velocity = ma.less(ma.abs(v[:, :n_gates]), v_lim).filled(filled)
-    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain)
+    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain.astype(bool))
     return is_clutter
-- 
2.43.0


From 38e786dd3cc8eea60e6e12dbec041dc186c45221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 15/15] fix: interpolate a lidar day without any signal to a
 fully masked grid

---
 cloudnetpy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 6f7dd27..8f6672a 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -429,6 +429,8 @@ def interpolate_2d_nearest(
         Points outside the original range will be interpolated but masked.
 
     """
+    if x.size == 0:
+        return ma.masked_all((len(x_new), len(y_new)))
     data = ma.filled(z, np.nan)
     fun = RegularGridInterpolator(
         (x, y),
-- 
2.43.0

