From 1a3aaee95da4f89db59baffe30d35f0e4e00eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 01/35] fix: raise AttributeError for missing scenario keys and
 coefficients

Attribute access raised KeyError (or recursed without end while an
instance was being restored), which broke hasattr, copy.deepcopy and pickle.
---
 src/pygmm/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..972f093 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,7 +126,11 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        # The data is not available while an instance is copied or unpickled
+        try:
+            return self.__dict__["data"][item]
+        except KeyError:
+            raise AttributeError(item) from None
 
     def __repr__(self):
         """Representation."""
@@ -548,7 +552,11 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        # The data is not available while an instance is copied or unpickled
+        try:
+            return self.__dict__["_data"][key]
+        except KeyError:
+            raise AttributeError(key) from None
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From e230f6216f17741b1409dd0adf34f82726f18722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 02/35] fix: CB14 stores the estimated inputs in the scenario

The estimates were set as attributes of the scenario, so the mapping kept
None and copies made from it mixed stale estimates with new inputs.
---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..411e93c 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From 8c9ac881f9d5593a72df6e75ae8c09674f95cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 03/35] fix: CB14 uses the anelastic attenuation adjustment for
 China

The region was compared with a list, so dc_20ch was never applied.
---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 411e93c..a1a29bf 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region == "china":
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From 615b65644f934b0c006a7dee919579066b640bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 04/35] fix: BSSA14 passes the region to the site term

The basin depth was passed in place of the region, so the average basin
depth of Japan was never used.
---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..d3e53ff 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -204,9 +204,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
             site = 0
         else:
             # Compute the site term
-            site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
-            )
+            site = self.calc_site_term(pga_ref, s.v_s30, s.depth_1_0, s.region)
 
         ln_resp = event + path + site
         return ln_resp
-- 
2.43.0


From 692d94073600d4462ddbb905d955879e55a86bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 05/35] fix: AS96 does not overwrite the caller's Arias
 intensities

Values outside of the range were replaced by NaN in the array passed by
the caller.
---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..4df762f 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -55,7 +55,7 @@ class AbrahamsonSilva1996(model.Model):
         # Mask out inappropriate values
         nias = np.asarray(nias)
         mask = (nias < 0.10) | (0.95 < nias)
-        nias[mask] = np.nan
+        nias = np.where(mask, np.nan, nias)
 
         # Compute the increment due to the difference in the normalized Arias
         # intensity
@@ -68,7 +68,7 @@ class AbrahamsonSilva1996(model.Model):
         # Mask out inappropriate values
         nias = np.asarray(nias)
         mask = (nias < 0.10) | (0.95 < nias)
-        nias[mask] = np.nan
+        nias = np.where(mask, np.nan, nias)
 
         ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
 
-- 
2.43.0


From 5b0321bed8ed12e20d1dbf2103b9e471f81fd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 06/35] fix: AS16 differential basin depth in meters, and for
 the region

The coefficient and the limit (200 m) apply to meters, whereas the depths
are in km, and the mechanism was passed in place of the region.
---
 src/pygmm/afshari_stewart_2016.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..8e9ba22 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -24,6 +24,7 @@ class AfshariStewart2016(model.Model):
         model.NumericParameter("v_s30", True, 200, 1000),
         model.CategoricalParameter("mechanism", True, ["SS", "NS", "RS"]),
         model.NumericParameter("depth_1_0", False),
+        model.CategoricalParameter("region", False, ["california", "japan"], "california"),
     ]
 
     def __init__(self, scenario):
@@ -86,7 +87,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Differential depth in meters
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.region))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From 12e54efaec97f916f602c7307c6912c7ff1c3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 07/35] fix: BA19 interpolates the standard deviation with
 magnitude

np.clip was called with a lower bound above the upper bound wherever the
coefficients decrease with magnitude, which always gives the upper bound.
---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From 051ce8223f7d1cc54a829039a2f99178c706b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 08/35] fix: return copies of the arrays kept by the models

Editing a returned array changed the model, the coefficients shared by all
instances (BA19.freqs), or the caller's array (AGA16.adjust_c1).
---
 src/pygmm/abrahamson_gregor_addo_2016.py | 4 ++--
 src/pygmm/bayless_abrahamson_2019.py     | 6 +++---
 src/pygmm/gulerce_abrahamson_2011.py     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..e26a000 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.asarray(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
@@ -88,7 +88,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
 
     @property
     def adjust_c1(self):
-        return self._adjust_c1
+        return np.array(self._adjust_c1)
 
     @property
     def adjust_c4(self):
diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..f7eec0a 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,11 +56,11 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        return np.array(self.FREQS)
 
     @property
     def ln_eas(self):
-        return self._ln_eas
+        return np.array(self._ln_eas)
 
     @property
     def eas(self):
@@ -68,7 +68,7 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return np.array(self._ln_std)
 
     def _check_inputs(self) -> None:
         super()._check_inputs()
diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..6fbaf1c 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -62,7 +62,7 @@ class GulerceAbrahamson2011(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return np.array(self._ln_std)
 
     def interp_ratio(self, periods: ArrayLike) -> np.ndarray:
         """Interpolate the spectral ratio.
-- 
2.43.0


From e177a3aa619462d67b904fce74a1dd5907150179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 09/35] fix: GA11.interp_ln_std returns the standard deviation,
 not its exponential

---
 src/pygmm/gulerce_abrahamson_2011.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index 6fbaf1c..7e47094 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -106,12 +106,10 @@ class GulerceAbrahamson2011(model.Model):
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From 89f631dabfce431100f558ade6bd09cc13c9423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 10/35] fix: AB20 can be evaluated

---
 src/pygmm/abrahamson_bhasin_2020.py | 52 +++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/pygmm/abrahamson_bhasin_2020.py b/src/pygmm/abrahamson_bhasin_2020.py
index 1b56c98..14b5438 100644
--- a/src/pygmm/abrahamson_bhasin_2020.py
+++ b/src/pygmm/abrahamson_bhasin_2020.py
@@ -85,10 +85,25 @@ class AbrahamsonBhasin2020(model.Model):
     def __init__(
         self,
         scenario: model.Scenario,
-        psa=Optional[float],
-        pga=Optional[float],
-        psa_1s=Optional[float],
+        psa: Optional[float] = None,
+        pga: Optional[float] = None,
+        psa_1s: Optional[float] = None,
     ):
+        """Initialize the model.
+
+        One of the ground-motion intensities has to be provided.
+
+        Parameters
+        ----------
+        scenario : :class:`pygmm.model.Scenario`
+            earthquake scenario
+        psa : float, optional
+            pseudo-spectral acceleration (g) at the PGV period
+        pga : float, optional
+            peak ground acceleration (g)
+        psa_1s : float, optional
+            pseudo-spectral acceleration (g) at a period of 1 sec
+        """
         super().__init__(scenario)
 
         if psa is not None:
@@ -98,12 +113,14 @@ class AbrahamsonBhasin2020(model.Model):
         elif pga is not None:
             method = "pga"
             ln_gm = np.log(pga)
-        else:
+        elif psa_1s is not None:
             method = "psa(T=1s)"
             ln_gm = np.log(psa_1s)
+        else:
+            raise ValueError("One of psa, pga, or psa_1s is required")
 
         C = self.COEFFS[method]
-        s = scenario
+        s = self._scenario
 
         # Mean
         if s.mag < 5:
@@ -113,13 +130,13 @@ class AbrahamsonBhasin2020(model.Model):
         else:
             f_1 = C.a_2 + (C.a_3 - C.a_2) * (s.mag - 5) / 2.5
 
-        ln_mean = (
+        self._ln_pgv = (
             C.a_1
             + f_1 * ln_gm
             + C.a_4 * (s.mag - 6)
             + C.a_5 * (8.5 - s.mag) ** 2
             + C.a_6 * np.log(s.dist_rup + 5 * np.exp(0.4 * (s.mag - 6)))
-            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(C.v_s30 / self.V_REF)
+            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(s.v_s30 / self.V_REF)
         )
 
         if method == "psa(T=Tpgv)":
@@ -127,21 +144,28 @@ class AbrahamsonBhasin2020(model.Model):
         else:
 
             def interp(var_1, var_2):
-                if s.mag < C.mag_1:
+                if s.mag < C.M_1:
                     val = var_1
-                elif s.mag > C.mag_2:
+                elif s.mag > C.M_2:
                     val = var_2
                 else:
-                    val = var_1 + (var_2 - var_1) * (s.mag - C.mag_1) / (
-                        C.mag_2 - C.mag_1
-                    )
+                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                 return val
 
             phi = interp(C.phi_1, C.phi_2)
             tau = interp(C.tau_1, C.tau_2)
 
-        ln_std = np.sqrt(phi**2 + tau**2)
-        return ln_mean, ln_std
+        self._ln_std = np.sqrt(phi**2 + tau**2)
+
+    @property
+    def pgv(self) -> float:
+        """Peak ground velocity (PGV) computed by the model (cm/sec)."""
+        return np.exp(self._ln_pgv)
+
+    @property
+    def ln_std_pgv(self) -> float:
+        """Peak ground velocity log-standard deviation."""
+        return self._ln_std
 
     @classmethod
     def ln_period_pgv(cls, mag: float) -> float:
-- 
2.43.0


From 9c4921085dc2394395a5edd98861fff8a69df694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 11/35] fix: require the distances used by AGA16, CB14 (PNNL),
 HKR14, and ASK14

---
 src/pygmm/abrahamson_gregor_addo_2016.py  | 9 ++++++++-
 src/pygmm/abrahamson_silva_kamai_2014.py  | 3 +++
 src/pygmm/coppersmith_bommer_2014.py      | 2 +-
 src/pygmm/hermkes_kuehn_riggelsen_2014.py | 2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index e26a000..3d81d1a 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -117,7 +117,14 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
         c = self.COEFF
 
         f_event = 1 if s.event_type == "intraslab" else 0
-        dist = s.dist_hyp if s.event_type == "intraslab" else s.dist_rup
+        if s.event_type == "intraslab":
+            dist = s.dist_hyp
+            if dist is None or s.depth_hyp is None:
+                raise ValueError("dist_hyp and depth_hyp are required for intraslab")
+        else:
+            dist = s.dist_rup
+            if dist is None:
+                raise ValueError("dist_rup is required for interface")
 
         path_atten = (c.t_2 + c.t_14 * f_event + c.t_3 * (s.mag - 7.8)) * np.log(
             dist + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 8c873fd..b17b24d 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -73,6 +73,9 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         if s["depth_tor"] is None:
             s["depth_tor"] = self.calc_depth_tor(s.mag)
 
+        if s["on_hanging_wall"] and s["dist_x"] is None:
+            raise ValueError("dist_x is required for sites on the hanging wall")
+
     def __init__(self, scenario: model.Scenario):
         """Initialize the model."""
         super().__init__(scenario)
diff --git a/src/pygmm/coppersmith_bommer_2014.py b/src/pygmm/coppersmith_bommer_2014.py
index 484c694..1f2ef30 100644
--- a/src/pygmm/coppersmith_bommer_2014.py
+++ b/src/pygmm/coppersmith_bommer_2014.py
@@ -43,7 +43,7 @@ class CoppersmithBommer2014(AbrahamsonGregorAddo2016):
 
     PARAMS = [
         model.NumericParameter("mag", True, 3, 8.5),
-        model.NumericParameter("dist_rup", False),
+        model.NumericParameter("dist_rup", True),
         model.NumericParameter("v_s30", True, 150.0, 1500.0),
         model.CategoricalParameter("event_type", True, ["interface", "intraslab"]),
     ]
diff --git a/src/pygmm/hermkes_kuehn_riggelsen_2014.py b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
index 29c6e33..1c8f9fe 100644
--- a/src/pygmm/hermkes_kuehn_riggelsen_2014.py
+++ b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
@@ -73,7 +73,7 @@ class HermkesKuehnRiggelsen2014(model.GroundMotionModel):
     INDEX_PGV = 0
     PARAMS = [
         model.NumericParameter("depth_hyp", False, 0, 40, 15),
-        model.NumericParameter("dist_jb", False, 0, 200),
+        model.NumericParameter("dist_jb", True, 0, 200),
         model.NumericParameter("mag", True, 4, 8),
         model.NumericParameter("v_s30", True, 100, 1200),
         model.CategoricalParameter("mechanism", True, ["SS", "NS", "RS"]),
-- 
2.43.0


From 983006e3438ecfbacdde238d1ff05cc0590c6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 12/35] fix: AB06 nonlinear slope is continuous at 300 m/s

---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From 1a1b8cde2d262336ef9b807efef70a2d75753a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 13/35] fix: AB06 PGV in cm/sec and PGD in cm

---
 src/pygmm/atkinson_boore_2006.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..10e9d42 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -39,6 +39,10 @@ class AtkinsonBoore2006(model.GroundMotionModel):
     INDEX_PGA = 2
     INDICES_PSA = np.arange(3, 27)
 
+    # All responses are divided by gravity (cm/sec²)
+    PGV_SCALE = 980.665
+    PGD_SCALE = 980.665
+
     PARAMS = [
         model.NumericParameter("mag", True),
         model.NumericParameter("dist_rup", True),
-- 
2.43.0


From 9e8f00b31edb78c442353d79d56ab1f6b32e0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 14/35] fix: BA18 correlation of a list of frequencies

---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..f36796c 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -40,6 +40,7 @@ class BaylessAbrahamson2018:
         """
 
         # Create two matrices of frequencies
+        freqs = np.asarray(freqs)
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
         freqs_col = freqs_row.T
-- 
2.43.0


From 9240a57081a5ecada36dc91a09f12cecfb0d3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 15/35] fix: Stafford2017 uses the provided standard deviations

---
 src/pygmm/stafford_2017.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..2409f51 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -292,7 +292,10 @@ class Stafford2017:
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
             # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            default_E, default_S, default_A = cls.compute_variances(freqs)
+            sigma_E = default_E if sigma_E is None else sigma_E
+            sigma_S = default_S if sigma_S is None else sigma_S
+            sigma_A = default_A if sigma_A is None else sigma_A
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From 2ad2853926d47b4fa156a9684a2fb73d975f7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 16/35] fix: PR23 conditional model at 75% energy

---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From e07ab862a27f60e9c9e458e57d3d0afc4506b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 17/35] fix: include the limit in the parameter warning

---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 972f093..b41c716 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -461,14 +461,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From 9e754823805f8fc9ffaefe5d028ffbadf014d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 18/35] fix: representation of scenarios without mag or dist_jb

---
 src/pygmm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b41c716..8a8a39f 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -134,7 +134,7 @@ class Scenario(collections.UserDict):
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return f"<Scenario(mag={self.get('mag')}, dist_jb={self.get('dist_jb')})>"
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From 933ac80cce56e07f92a818fdb235a55ad38597d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 19/35] fix: NotImplementedError without a standard deviation

---
 src/pygmm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 8a8a39f..a40c3ae 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -329,7 +329,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pga(self) -> float:
         """Peak ground accelaration log-standard deviation."""
-        if self.INDEX_PGA is None:
+        if self.INDEX_PGA is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGA]
@@ -345,7 +345,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgv(self) -> float:
         """Peak ground velocity log-standard deviation."""
-        if self.INDEX_PGV is None:
+        if self.INDEX_PGV is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGV]
@@ -361,7 +361,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgd(self) -> float:
         """Peak ground displacement log-standard deviation."""
-        if self.INDEX_PGD is None:
+        if self.INDEX_PGD is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGD]
-- 
2.43.0


From 411201420fc9cf903f97b0fd78ea04a4f9fc8833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 20/35] fix: PR24 duration_model uses all of the array values

---
 src/pygmm/pinilla_ramos_et_al_2024.py | 46 +++++++++++++++------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..c242a25 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -789,31 +789,37 @@ def duration_model(
     from .model import Scenario
 
     # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        np.atleast_1d(mag), np.atleast_1d(rrup), np.atleast_1d(vs30)
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    durations, plus_sigmas, minus_sigmas = [], [], []
+    for mag_i, rrup_i, vs30_i in zip(mag_arr, rrup_arr, vs30_arr):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=mag_i,
+            dist_rup=rrup_i,
+            v_s30=vs30_i,
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            duration, plus_sigma, minus_sigma = (
+                model_inst.duration,
+                model_inst.duration_plus_sigma,
+                model_inst.duration_minus_sigma,
+            )
+        else:
+            duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+
+        durations.append(duration)
+        plus_sigmas.append(plus_sigma)
+        minus_sigmas.append(minus_sigma)
 
     # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    return np.array(durations), np.array(plus_sigmas), np.array(minus_sigmas)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From be438a198a45d6211a0220d87cc64c195708aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 21/35] fix: do not configure the root logger

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 6 ++++--
 src/pygmm/campbell_bozorgnia_2014.py            | 4 +++-
 src/pygmm/chiou_youngs_2014.py                  | 4 +++-
 src/pygmm/hermkes_kuehn_riggelsen_2014.py       | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index d3e53ff..aee604d 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
     """Boore, Stewart, Seyhan, and Atkinson (2014, :cite:`boore14`) model.
@@ -132,7 +134,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         if s.mechanism == "SS":
             _min, _max = 3.0, 8.5
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a strike-slip earthquake!",
                     s.mag,
@@ -142,7 +144,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         elif s.mechanism == "NS":
             _min, _max = 3.0, 7.0
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a normal-slip earthquake!",
                     s.mag,
diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a1a29bf..012e732 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class CampbellBozorgnia2014(model.GroundMotionModel):
     """Campbell and Bozorgnia (2014, :cite:`campbell14`) model.
@@ -69,7 +71,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         for mech, limit in [("SS", 8.5), ("RS", 8.0), ("NS", 7.5)]:
             if mech == s.mechanism and s.mag > limit:
-                logging.warning(
+                logger.warning(
                     "Magnitude of %g is greater than the recommended limit of"
                     "%g for %s style faults",
                     s.mag,
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..78355f0 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -10,6 +10,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class ChiouYoungs2014(model.GroundMotionModel):
     """Chiou and Youngs (2014, :cite:`chiou14`) model.
@@ -271,7 +273,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
             _min, _max = 3.5, 8.5
 
         if not (_min <= s.mag <= _max):
-            logging.warning(
+            logger.warning(
                 "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                 " for a %s earthquake!",
                 s.mag,
diff --git a/src/pygmm/hermkes_kuehn_riggelsen_2014.py b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
index 1c8f9fe..4cb7646 100644
--- a/src/pygmm/hermkes_kuehn_riggelsen_2014.py
+++ b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
@@ -11,6 +11,8 @@ from . import model
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 fname_data = pathlib.Path(__file__).parent.joinpath(
     "data", "hermkes_kuehn_riggelsen_2014.npz"
 )
@@ -27,7 +29,7 @@ if not fname_data.exists():
     try:
         urllib.request.urlretrieve(url, str(fname_data))
     except urllib.request.URLError:
-        logging.critical(
+        logger.critical(
             "Hermkes, Kuehn, and Riggelsen (2013) model data required, "
             "which cannot be downloaded. Download the file from %s"
             "to this location: %s",
-- 
2.43.0


From ac5bab8d6fc30c518f919f026dbc9ebeffa976b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 22/35] fix: export all of the models

---
 src/pygmm/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/__init__.py b/src/pygmm/__init__.py
index 9a839e3..974273a 100644
--- a/src/pygmm/__init__.py
+++ b/src/pygmm/__init__.py
@@ -28,12 +28,15 @@ from .idriss_2014 import Idriss2014
 from .kempton_stewart_2006 import KemptonStewart2006
 from .model import Scenario
 from .pezeshk_zandieh_tavakoli_2011 import PezeshkZandiehTavakoli2011
+from .pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023
+from .pinilla_ramos_et_al_2024 import PinillaRamosEtAl2024
 from .stafford_2017 import Stafford2017
 from .tavakoli_pezeshk_2005 import TavakoliPezeshk05
 
 __all__ = [
     "Scenario",
     "AbrahamsonBhasin2020",
+    "AbrahamsonSilva1996",
     "AbrahamsonSilvaKamai2014",
     "AbrahamsonGregorAddo2016",
     "AfshariStewart2016",
@@ -51,6 +54,8 @@ __all__ = [
     "KemptonStewart2006",
     "Idriss2014",
     "PezeshkZandiehTavakoli2011",
+    "PinillaRamosEtAl2023",
+    "PinillaRamosEtAl2024",
     "TavakoliPezeshk05",
     "Stafford2017",
 ]
-- 
2.43.0


From 48f64628d89147255a661409a27f1dbd279b9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 23/35] fix: Atkinson & Boore (2006) standard deviation in
 natural log units

---
 src/pygmm/atkinson_boore_2006.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 10e9d42..90e3db7 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -112,7 +112,8 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        # Published as 0.30 in log10 units
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 5a879b8fec2ab9f220f5539a0f6f8454c2305163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 24/35] fix: Pezeshk et al. (2011) standard deviation in
 natural log units

---
 src/pygmm/pezeshk_zandieh_tavakoli_2011.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
index cd0be56..9dd2cc9 100644
--- a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
+++ b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
@@ -84,11 +84,12 @@ class PezeshkZandiehTavakoli2011(model.GroundMotionModel):
         s = self._scenario
         c = self.COEFF
 
+        # Published in log10 units
         if s.mag <= 7.0:
-            ln_std_mean = c.c_12 * s.mag + c.c_13
+            log10_std_mean = c.c_12 * s.mag + c.c_13
         else:
-            ln_std_mean = -6.95e-3 * s.mag + c.c_14
+            log10_std_mean = -6.95e-3 * s.mag + c.c_14
 
-        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2)
+        ln_std = np.log(10) * np.sqrt(log10_std_mean**2 + c["sigma_reg"] ** 2)
 
         return ln_std
-- 
2.43.0


From 1eea3c485a5593e13fb901f8eed20b25b545e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 25/35] fix: Campbell & Bozorgnia (2014) Japan site term below
 200 m/s

---
 src/pygmm/campbell_bozorgnia_2014.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 012e732..841a8b6 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -253,8 +253,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                 f_site += (c.c_12 + c.k_2 * cls.COEFF_N) * (
                     np.log(vs_ratio) - np.log(200 / c.k_1)
                 )
-            else:
-                f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
+            f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
 
         # Basin response term
         if np.isnan(pga_ref):
-- 
2.43.0


From 46bcc5352946a028387c1707c29d28a189cc64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 26/35] fix: AGA16 adjust_c4 is applied

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 3d81d1a..007cc03 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -127,7 +127,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
                 raise ValueError("dist_rup is required for interface")
 
         path_atten = (c.t_2 + c.t_14 * f_event + c.t_3 * (s.mag - 7.8)) * np.log(
-            dist + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
+            dist + (c.c_4 + self.adjust_c4) * np.exp(c.t_9 * (s.mag - 6))
         )
 
         ln_resp = (
-- 
2.43.0


From 133f8f089e9773fda519f61ab4a1cb2125540e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 27/35] fix: Atkinson & Boore (2006) stress factor scales with
 doublings

---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 90e3db7..085cbf5 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -132,7 +132,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         v1 = c.delta + 0.05
         v2 = 0.05 + c.delta * np.maximum(s.mag - c.m_1, 0) / (c.m_h - c.m_1)
 
-        log10_stress_factor = np.minimum(2.0, stress_drop / 140.0) * np.minimum(v1, v2)
+        # Number of doublings of the 140 bar stress drop of the model
+        doublings = np.log10(stress_drop / 140.0) / np.log10(2.0)
+        log10_stress_factor = np.minimum(2.0, doublings) * np.minimum(v1, v2)
 
         return np.interp(self.PERIODS, c.period, log10_stress_factor)
 
-- 
2.43.0


From 3609e818c0b6f98f41e711fbd485b6076d63306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 28/35] fix: Campbell & Bozorgnia (2014) short-period spectrum
 is not below PGA

---
 src/pygmm/campbell_bozorgnia_2014.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 841a8b6..cdb29b6 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -107,6 +107,11 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         pga_ref = np.exp(self._calc_ln_resp(np.nan, self.V_REF)[self.INDEX_PGA])
         self._ln_resp = self._calc_ln_resp(pga_ref, self._scenario.v_s30)
+        # Short-period spectral accelerations are not less than PGA, Equation (1)
+        mask = (0 < self.PERIODS) & (self.PERIODS < 0.25)
+        self._ln_resp[mask] = np.maximum(
+            self._ln_resp[mask], self._ln_resp[self.INDEX_PGA]
+        )
         self._ln_std, self._tau, self._phi = self._calc_ln_std(pga_ref)
 
     def _calc_ln_resp(self, pga_ref: float, v_s30: float) -> np.ndarray:
-- 
2.43.0


From 991ce61138a5c2fc7899df9f6a136491cf94073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 29/35] fix: keep the minimum nonlinear site term at the end of
 the BA19 spectrum

---
 src/pygmm/bayless_abrahamson_2019.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index f7eec0a..1dc23a6 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -154,12 +154,13 @@ class BaylessAbrahamson2019(model.Model):
         # Use the minimum value at higher frequencies as described in the text and
         # referenced to Bayless and Abrahamson (2018b)
         i = np.argmin(f_nl)
-        f_nl[(i + 1) :] = f_nl[i]
+        f_nl_min = f_nl[i]
+        f_nl[(i + 1) :] = f_nl_min
         width = 7
         kernel = np.ones(width) / width
         f_nl = np.convolve(f_nl, kernel, mode="same")
         # End needs to be forced down
-        f_nl[-width:] = f_nl[i]
+        f_nl[-width:] = f_nl_min
 
         f_s = f_sl + f_nl
 
-- 
2.43.0


From 44070004ea6a9c2965d5e026811729a8d38926b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 30/35] fix: Stafford (2017) between-event correlation decays
 with the frequency ratio

---
 src/pygmm/stafford_2017.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 2409f51..11491fc 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -150,18 +150,11 @@ class Stafford2017:
         f_min = np.minimum(f_i, f_j)
         f_max = np.maximum(f_i, f_j)
 
-        # Corner frequency for given magnitude
-        fc = cls.compute_corner_frequency(mag)
-
-        # Normalized frequencies
-        f_min_norm = f_min / fc
-        f_max_norm = f_max / fc
-
-        # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        # Compute gamma_E, which normalizes the frequency
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max / f_min))
 
         return correlation
 
-- 
2.43.0


From 3a1f558942ec2c9755b977324b83a2c12969a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 31/35] fix: Stafford (2017) within-event correlation decays
 with the frequency ratio

---
 src/pygmm/stafford_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 11491fc..5c327df 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -172,7 +172,7 @@ class Stafford2017:
         gamma_A = cls.compute_gamma_A(f_min)
 
         # Base correlation (equation 14)
-        rho_A0 = (1 - eta_A) * np.exp(gamma_A * np.log(f_max / f_min))
+        rho_A0 = (1 - eta_A) * np.exp(-gamma_A * np.log(f_max / f_min))
 
         # Full correlation including nugget effect (equation 15)
         if np.isclose(f_i, f_j):
-- 
2.43.0


From 0adace7d0dcc18b09f48af48313f449fa86eb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 32/35] fix: Stafford (2017) correlation of close frequencies
 tends to one

---
 src/pygmm/stafford_2017.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 5c327df..61e727a 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -178,7 +178,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_A = rho_A0 * (1 - nugget) + nugget
             return rho_A
 
     @classmethod
@@ -201,7 +202,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_S = rho_S0 * (1 - nugget) + nugget
             return rho_S
 
     @classmethod
-- 
2.43.0


From 22fb1f61690e86f9ca50b168c250531ef7f328d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 33/35] fix: Campbell & Bozorgnia (2014) depth_2_5 from
 depth_1_0 is linear

---
 src/pygmm/campbell_bozorgnia_2014.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index cdb29b6..9d7d43d 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -369,7 +369,6 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         """
         if v_s30:
-            param = v_s30
             if region == "japan":
                 # From equation 6.10 on page 63
                 intercept = 5.359
@@ -383,8 +382,9 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
             # Not supported by NGA-West2 spreadsheet, and therefore removed.
             # foo = 6.510
             # bar = 1.181
-        elif depth_1_0:
-            param = depth_1_0
+            depth_2_5 = np.exp(intercept - slope * np.log(v_s30))
+        elif depth_1_0 is not None:
+            # The relationship between the depths is linear
             if region == "japan":
                 # From equation 6.13 on page 64
                 intercept = 0.408
@@ -398,10 +398,11 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
             # Not supported by NGA-West2 spreadsheet, and therefore removed.
             # foo = 0.748
             # bar = 2.128
+            depth_2_5 = intercept + slope * depth_1_0
         else:
             raise NotImplementedError
 
-        return np.exp(intercept - slope * np.log(param))
+        return depth_2_5
 
     @staticmethod
     def calc_depth_hyp(
-- 
2.43.0


From 68150b3bf7f35f0dd1a1e78b7044e699f0cca6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 34/35] fix: Abrahamson & Silva (1996) interp does not add the
 0.75 increment twice

---
 src/pygmm/abrahamson_silva_1996.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 4df762f..245a961 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -70,7 +70,12 @@ class AbrahamsonSilva1996(model.Model):
         mask = (nias < 0.10) | (0.95 < nias)
         nias = np.where(mask, np.nan, nias)
 
-        ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
+        # The reference duration already includes the increment for 0.75
+        ln_dur = (
+            self._ln_dur
+            - self.calc_ln_dur_incr(0.75)
+            + self.calc_ln_dur_incr(nias)
+        )
 
         if stds is not None:
             std_errs = np.interp(
-- 
2.43.0


From a28c8e4bf061afc7e412a084059437d56251272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:22 +0000
Subject: [PATCH 35/35] fix: list all of the models

---
 src/pygmm/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/__init__.py b/src/pygmm/__init__.py
index 974273a..d8f01a8 100644
--- a/src/pygmm/__init__.py
+++ b/src/pygmm/__init__.py
@@ -78,11 +78,14 @@ except ImportError:
 logging.getLogger(__name__).addHandler(NullHandler())
 
 models = [
+    AbrahamsonBhasin2020,
+    AbrahamsonGregorAddo2016,
     AbrahamsonSilva1996,
     AbrahamsonSilvaKamai2014,
     AfshariStewart2016,
     AkkarSandikkayaBommer2014,
     AtkinsonBoore2006,
+    BaylessAbrahamson2018,
     BaylessAbrahamson2019,
     BooreStewartSeyhanAtkinson2014,
     Campbell2003,
@@ -94,6 +97,8 @@ models = [
     KemptonStewart2006,
     Idriss2014,
     PezeshkZandiehTavakoli2011,
+    PinillaRamosEtAl2023,
+    PinillaRamosEtAl2024,
     TavakoliPezeshk05,
     Stafford2017,
 ]
-- 
2.43.0

