From 0b7d17d8822575ff366aa360e9a723ed38ba5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 01/28] fix: transpose the electric source derivative in the
 adjoint of the H-formulation FDEM RHS derivative

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 179a32c..0b163fb 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -2184,4 +2184,6 @@ class Simulation3DMagneticField(BaseFDEMSimulation):
 
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
 
+        if adjoint:
+            return RHSDeriv + s_mDeriv(v) + s_eDeriv(MfRho.T * (C * v))
         return RHSDeriv + s_mDeriv(v) + C.T * (MfRho * s_eDeriv(v))
-- 
2.43.0


From 7b789074413b1c76bdd9e8c4646b6dca2a407bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 02/28] fix: FDEM E and J RHS derivatives use the source term
 of the requested source only

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 0b163fb..e58f813 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -886,7 +886,7 @@ class Simulation3DElectricField(BaseFDEMSimulation):
 
         C = self.mesh.edge_curl
         MfMui = self.MfMui
-        s_m, s_e = self.getSourceTerm(freq)
+        s_m, s_e = src.eval(self)
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
         MfMuiDeriv = self.MfMuiDeriv(s_m)
 
@@ -1764,7 +1764,7 @@ class Simulation3DCurrentDensity(BaseFDEMSimulation):
         MeMuI = self.MeMuI
         MeMuIDeriv = self.MeMuIDeriv
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
-        s_m, _ = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
 
         if adjoint:
             if self._makeASymmetric:
-- 
2.43.0


From eab61fd7b7ce91d371caad58937d51b2ff3c631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:40 +0000
Subject: [PATCH 03/28] fix: scale every source's column when computing b from
 the FDEM E-formulation solution

---
 simpeg/electromagnetics/frequency_domain/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index d23392e..033bf3d 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -512,6 +512,7 @@ class Fields3DElectricField(FieldsFDEM):
             if not isinstance(s_m, Zero) and s_m.ndim == 1:
                 s_m = s_m[:, None]
             b[:, i:ii] = b[:, i:ii] + 1.0 / (1j * omega(src.frequency)) * s_m
+            i = ii
         return b
 
     def _bDeriv_u(self, src, du_dm_v, adjoint=False):
-- 
2.43.0


From c70ab1730cc49300f2125afb9eef1e4ffd2de300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:39 +0000
Subject: [PATCH 04/28] fix: any change of the model discards model-dependent
 caches (allclose kept stale ones for small or small-valued changes)

---
 simpeg/props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index ee9ac01..558cbd6 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -460,7 +460,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
             if not (
                 isinstance(previous_value, np.ndarray)
                 and isinstance(value, np.ndarray)
-                and np.allclose(previous_value, value)
+                and np.array_equal(previous_value, value)
             ):
                 # cached properties to delete
                 for prop in self._delete_on_model_update:
-- 
2.43.0


From bd98f9046fa186e9a394353e19049b735a097bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:00 +0000
Subject: [PATCH 05/28] fix: FDEM E-formulation current density model
 derivative includes sigma times the primary field derivative

---
 simpeg/electromagnetics/frequency_domain/fields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index 033bf3d..0ce65cd 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -601,12 +601,14 @@ class Fields3DElectricField(FieldsFDEM):
         if adjoint:
             return (
                 self._MeSigmaDeriv(e, (self._MeI.T * v), adjoint=adjoint)
-                + self._eDeriv_m(src, (self._MeI.T * v), adjoint=adjoint)
+                + self._eDeriv_m(
+                    src, self._MeSigma.T * (self._MeI.T * v), adjoint=adjoint
+                )
             ) + src.jPrimaryDeriv(self.simulation, v, adjoint)
         return (
             self._MeI
             * (
-                self._eDeriv_m(src, v, adjoint=adjoint)
+                self._MeSigma * self._eDeriv_m(src, v, adjoint=adjoint)
                 + self._MeSigmaDeriv(e, v, adjoint=adjoint)
             )
         ) + src.jPrimaryDeriv(self.simulation, v, adjoint)
-- 
2.43.0


From cedf5b9d3231d2bdbe75efecb60c7f4bc2a24d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 06/28] fix: FDEM B-formulation current density model
 derivative matches the computed current density

---
 simpeg/electromagnetics/frequency_domain/fields.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index 0ce65cd..f0e6b3a 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -973,10 +973,12 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
     def _jDeriv_mui(self, src, v, adjoint=False):
         if adjoint:
             return self._MfMuiDeriv(
-                self[src, "b"], (self._edgeCurl * (self._MeI.T * v)), adjoint
+                self[src, "bSolution"], (self._edgeCurl * (self._MeI.T * v)), adjoint
             )
 
-        return self._MeI * (self._edgeCurl.T * self._MfMuiDeriv(self[src, "b"], v))
+        return self._MeI * (
+            self._edgeCurl.T * self._MfMuiDeriv(self[src, "bSolution"], v)
+        )
 
     def _jDeriv_m(self, src, v, adjoint=False):
         """
@@ -990,7 +992,13 @@ class Fields3DMagneticFluxDensity(FieldsFDEM):
             to the model with a vector
         """
 
-        return self._jDeriv_mui(src, v, adjoint)
+        if adjoint:
+            return self._jDeriv_mui(src, v, adjoint) - src.s_eDeriv(
+                self.simulation, self._MeI.T * v, adjoint
+            )
+        return self._jDeriv_mui(src, v, adjoint) - self._MeI * src.s_eDeriv(
+            self.simulation, v, adjoint
+        )
 
     def _h(self, bSolution, source_list):
         """
-- 
2.43.0


From 0dc15d9b1772779001eb3fbbcfa49bd81bf89db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 07/28] fix: FDEM J- and H-formulation electric field model
 derivatives follow the computed electric field

---
 .../frequency_domain/fields.py                | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index f0e6b3a..e252710 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -1402,13 +1402,14 @@ class Fields3DCurrentDensity(FieldsFDEM):
         :return: product of the derivative of the electric field with respect
             to the model with a vector
         """
-        jSolution = mkvc(self[src, "jSolution"])
+        j = mkvc(self[src, "j"])
         if adjoint:
-            return self._MfRhoDeriv(jSolution).T * (
-                self._MfI.T * v
-            ) + src.ePrimaryDeriv(self.simulation, v, adjoint)
-        return self._MfI * (self._MfRhoDeriv(jSolution) * v) + src.ePrimaryDeriv(
-            self.simulation, v, adjoint
+            w = self._MfI.T * v
+            return self._MfRhoDeriv(j).T * w + self._jDeriv_m(
+                src, self._MfRho.T * w, adjoint
+            )
+        return self._MfI * (
+            self._MfRhoDeriv(j) * v + self._MfRho * self._jDeriv_m(src, v, adjoint)
         )
 
     def _b(self, jSolution, source_list):
@@ -1745,19 +1746,16 @@ class Fields3DMagneticField(FieldsFDEM):
         :return: product of the electric field derivative with respect to the
             inversion model with a vector
         """
-        hSolution = mkvc(self[src, "hSolution"])
-        s_e = src.s_e(self.simulation)
+        j = mkvc(self[src, "j"])
 
         if adjoint:
             w = self._MfI.T * v
-            return (
-                self._MfRhoDeriv(self._edgeCurl * hSolution, w, adjoint)
-                - self._MfRhoDeriv(s_e, w, adjoint)
-                + src.ePrimaryDeriv(self.simulation, v, adjoint)
+            return self._MfRhoDeriv(j, w, adjoint) + self._jDeriv_m(
+                src, self._MfRho.T * w, adjoint
             )
         return self._MfI * (
-            self._MfRhoDeriv(self._edgeCurl * hSolution, v) - self._MfRhoDeriv(s_e, v)
-        ) + src.ePrimaryDeriv(self.simulation, v, adjoint)
+            self._MfRhoDeriv(j, v) + self._MfRho * self._jDeriv_m(src, v, adjoint)
+        )
 
     def _b(self, hSolution, source_list):
         """
-- 
2.43.0


From cc114ac88696ffcf13aa486447b03277fece2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 08/28] fix: magnetic dipole sources have no electric source
 term in HJ formulations (it diverged for small permeability contrasts)

---
 simpeg/electromagnetics/frequency_domain/sources.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index dc66248..c1e0cbf 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -631,11 +631,9 @@ class MagDipole(BaseFDEMSrc):
                 MMui_s = simulation.mesh.get_face_inner_product(mui_s)
                 C = simulation.mesh.edge_curl
             elif formulation == "HJ":
-                mu_s = simulation.mu - self.mu
-                MMui_s = simulation.mesh.get_edge_inner_product(
-                    mu_s, invert_matrix=True
-                )
-                C = simulation.mesh.edge_curl.T
+                # the primary magnetic field is curl free away from the source: the
+                # whole permeability contribution is in s_m
+                return Zero()
 
             return -C.T * (MMui_s * self.bPrimary(simulation))
 
-- 
2.43.0


From f3cdda890680492e1cf41a10f666a93beb379e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 09/28] fix: include the permeability derivative of magnetic
 dipole source terms in HJ formulations

---
 .../frequency_domain/fields.py                | 27 ++++++++++++++-----
 .../frequency_domain/sources.py               |  8 ++++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/fields.py b/simpeg/electromagnetics/frequency_domain/fields.py
index e252710..afb19a8 100644
--- a/simpeg/electromagnetics/frequency_domain/fields.py
+++ b/simpeg/electromagnetics/frequency_domain/fields.py
@@ -1467,14 +1467,29 @@ class Fields3DCurrentDensity(FieldsFDEM):
         def s_mDeriv(v):
             return src.s_mDeriv(self.simulation, v, adjoint=adjoint)
 
+        h_p = src.hPrimary(self.simulation)
+        MeMu = self._MeMu
+        MeMuDeriv = self.simulation.MeMuDeriv
+
         if adjoint:
             v = self._MeI.T * v
-            return 1.0 / (1j * omega(src.frequency)) * (
-                s_mDeriv(v) - self._MfRhoDeriv(jSolution, self._edgeCurl * v, adjoint)
-            ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
-        return 1.0 / (1j * omega(src.frequency)) * self._MeI * (
-            s_mDeriv(v) - self._edgeCurl.T * self._MfRhoDeriv(jSolution, v, adjoint)
-        ) + src.bPrimaryDeriv(self.simulation, v, adjoint)
+            return (
+                1.0
+                / (1j * omega(src.frequency))
+                * (
+                    s_mDeriv(v)
+                    - self._MfRhoDeriv(jSolution, self._edgeCurl * v, adjoint)
+                )
+                + MeMuDeriv(h_p, v, adjoint)
+                + src.hPrimaryDeriv(self.simulation, MeMu.T * v, adjoint)
+            )
+        return self._MeI * (
+            1.0
+            / (1j * omega(src.frequency))
+            * (s_mDeriv(v) - self._edgeCurl.T * self._MfRhoDeriv(jSolution, v, adjoint))
+            + MeMuDeriv(h_p, v, adjoint)
+            + MeMu * src.hPrimaryDeriv(self.simulation, v, adjoint)
+        )
 
     def _charge(self, jSolution, source_list):
         r"""
diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index c1e0cbf..a3dbd58 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -607,6 +607,14 @@ class MagDipole(BaseFDEMSrc):
             MeMu = simulation.MeMu
             return -1j * omega(self.frequency) * MeMu * h_p
 
+    def s_mDeriv(self, simulation, v, adjoint=False):
+        if simulation._formulation == "HJ":
+            h_p = self.hPrimary(simulation)
+            return (
+                -1j * omega(self.frequency) * simulation.MeMuDeriv(h_p, v, adjoint)
+            )
+        return Zero()
+
     def s_e(self, simulation):
         """Electric source term (s_e)
 
-- 
2.43.0


From 262dba5c67e7bdc6ac459530b7b01ac64ec9cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:34 +0000
Subject: [PATCH 10/28] fix: DC cell-centred current density model derivative
 evaluates at the potential and transposes correctly

---
 simpeg/electromagnetics/static/resistivity/fields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/fields.py b/simpeg/electromagnetics/static/resistivity/fields.py
index 0ef0813..10d8388 100644
--- a/simpeg/electromagnetics/static/resistivity/fields.py
+++ b/simpeg/electromagnetics/static/resistivity/fields.py
@@ -141,9 +141,8 @@ class Fields3DCellCentered(FieldsDC):
         return self._MfRhoI * (self._Grad * v)
 
     def _jDeriv_m(self, src, v, adjoint=False):
-        if adjoint:
-            return self._Grad.T * self._MfRhoIDeriv(v, adjoint=True)
-        return self._MfRhoIDeriv(self._Grad * v)
+        phi = self[src, "phiSolution"]
+        return self._MfRhoIDeriv(self._Grad * phi, v, adjoint)
 
     def _e(self, phiSolution, source_list):
         r"""
-- 
2.43.0


From 0bf858afbed6d608a965418a090d193cd306dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 11/28] fix: magnetics Simulation3DDifferential with storeJ
 keeps and discards its sensitivity matrix correctly

---
 simpeg/potential_fields/magnetics/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 6b403dd..a7c9baa 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1700,6 +1700,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
     """
 
     _Ainv = None
+    _Jmatrix = None
 
     rem, remMap, remDeriv = props.Invertible(
         "Magnetic Polarization (nT)", optional=True
@@ -1739,7 +1740,6 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
         self.solver_opts = {"is_symmetric": True, "is_positive_definite": True}
 
-        self._Jmatrix = None
         self._stored_fields = None
 
     @property
@@ -1968,7 +1968,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
     def getJ(self, m, f=None):
         self.model = m
-        if self._Jmatrix:
+        if self._Jmatrix is not None:
             return self._Jmatrix
         if f is None:
             f = self.fields(m)
@@ -2195,6 +2195,6 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         if self.muMap is not None:
             if self._Ainv is not None:
                 toDelete = toDelete + ["_Ainv"]
-            if self._Jmatrix is not None:
-                toDelete = toDelete + ["_Jmatrix"]
+        if self._Jmatrix is not None:
+            toDelete = toDelete + ["_Jmatrix"]
         return toDelete
-- 
2.43.0


From b43bdf9a15817b07e83b046a146e8c2c6a51108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:01 +0000
Subject: [PATCH 12/28] fix: 2D nodal DC discards the boundary-condition
 derivative when the conductivity changes

---
 .../electromagnetics/static/resistivity/simulation_2d.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 16b591f..3075e8f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -801,5 +801,13 @@ class Simulation2DNodal(BaseDCSimulation2D):
             AvgCC2Fb = sdiag(alpha * (P_bf @ self.mesh.face_areas)) @ AvgCC2Fb
             self._AvgBC[ky] = AvgN2Fb.T @ AvgCC2Fb
 
+    @property
+    def _clear_on_sigma_update(self):
+        """
+        These matrices are deleted if there is an update to the conductivity
+        model
+        """
+        return super()._clear_on_sigma_update + ["_MBC_sigma"]
+
 
 Simulation2DCellCentred = Simulation2DCellCentered  # UK and US
-- 
2.43.0


From 9809d62b93a4f0c29de8fe16f7b82f6b23ec18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:21 +0000
Subject: [PATCH 13/28] fix: IP and SIP predictions and SIP sensitivities are
 evaluated at the model given, not at the last one predicted

---
 .../static/induced_polarization/simulation.py |  7 +++--
 .../simulation.py                             | 30 ++++++++-----------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 30c7dae..9dd3746 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -84,7 +84,6 @@ class BaseIPSimulation(BasePDESimulation):
         self._f = _f
 
     _Jmatrix = None
-    _pred = None
 
     def fields(self, m):
         if self.verbose:
@@ -109,6 +108,10 @@ class BaseIPSimulation(BasePDESimulation):
         # return self.Jvec(m, m, f=f)
         if f is None:
             f = self.fields(m)
+        if m is not None:
+            self.model = m
+        if getattr(self, "_pred", None) is None:
+            self._pred = self.forward(self.model, f=f)
 
         return self._pred
 
@@ -135,7 +138,7 @@ class BaseIPSimulation(BasePDESimulation):
 
     @property
     def _delete_on_model_update(self):
-        toDelete = []
+        toDelete = ["_pred"]
         return toDelete
 
 
diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index b0b3344..cde7c0a 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -27,11 +27,6 @@ class BaseSIPSimulation(BaseIPSimulation):
     _Jmatrix = None
     _dc_voltage_set = False
 
-    _eta_store = None
-    _taui_store = None
-    _c_store = None
-    _pred = None
-
     def __init__(
         self,
         mesh,
@@ -168,16 +163,16 @@ class BaseSIPSimulation(BaseIPSimulation):
         return self._cDeriv_store
 
     def get_t_over_tau(self, t):
-        taui = self._taui_store
+        taui = self.taui
         return t * taui
 
     def get_exponent(self, t):
-        c = self._c_store
+        c = self.c
         t_over_tau = self.get_t_over_tau(t)
         return (t_over_tau) ** c
 
     def get_peta_step_off(self, exponent):
-        eta = self._eta_store
+        eta = self.eta
         peta = eta * np.exp(-exponent)
         return peta
 
@@ -194,7 +189,7 @@ class BaseSIPSimulation(BaseIPSimulation):
     def get_multi_pulse_response(self, t, pulse_func):
         n_pulse = self.survey.n_pulse
         T = self.survey.T
-        peta = np.zeros(self._eta_store.shape[0], float, order="C")
+        peta = np.zeros(self.eta.shape[0], float, order="C")
         for i_pulse in range(n_pulse):
             factor = (-1) ** i_pulse * (n_pulse - i_pulse)
             peta += pulse_func(t + T / 2 * i_pulse) * factor
@@ -246,9 +241,9 @@ class BaseSIPSimulation(BaseIPSimulation):
             return dpetadeta * (etaDeriv * v)
 
     def get_peta_taui_deriv_step_off(self, exponent):
-        eta = self._eta_store
-        taui = self._taui_store
-        c = self._c_store
+        eta = self.eta
+        taui = self.taui
+        c = self.c
         peta_taui_deriv = -c * eta / taui * exponent * np.exp(-exponent)
         return peta_taui_deriv
 
@@ -286,7 +281,7 @@ class BaseSIPSimulation(BaseIPSimulation):
             return dpetadtaui * (tauiDeriv * v)
 
     def get_peta_c_deriv_step_off(self, exponent, t_over_tau):
-        eta = self._eta_store
+        eta = self.eta
         peta_c_deriv = -eta * (exponent) * np.exp(-exponent) * np.log(t_over_tau)
         return peta_c_deriv
 
@@ -431,10 +426,6 @@ class BaseSIPSimulation(BaseIPSimulation):
 
         self.model = m
 
-        self._eta_store = self.eta
-        self._taui_store = self.taui
-        self._c_store = self.c
-
         Jv = []
 
         # When sensitivity matrix is stored
@@ -487,8 +478,10 @@ class BaseSIPSimulation(BaseIPSimulation):
         """
         if f is None:
             f = self.fields(m)
+        self.model = m
+        if getattr(self, "_pred", None) is None:
+            self._pred = self.forward(m, f=f)
         return self._pred
-        # return self.forward(m, f=f)
 
     def Jvec(self, m, v, f=None):
         self.model = m
@@ -610,6 +603,7 @@ class BaseSIPSimulation(BaseIPSimulation):
             "_tauiDeriv_store",
             "_cDeriv_store",
             "_tauDeriv_store",
+            "_pred",
         ]
         return toDelete
 
-- 
2.43.0


From c4b97760c667d0c95fdcd833fd02722ea97f259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:28 +0000
Subject: [PATCH 14/28] fix: getJtJdiag is evaluated for the model and weights
 given, not those of the first call

---
 simpeg/electromagnetics/base_1d.py            | 12 +++++----
 .../frequency_domain/simulation.py            | 12 ++++-----
 .../natural_source/simulation_1d.py           | 12 +++++----
 .../static/induced_polarization/simulation.py | 12 ++++-----
 .../static/resistivity/simulation.py          | 13 +++++-----
 simpeg/meta/dask_sim.py                       | 26 ++++++++++++-------
 simpeg/meta/multiprocessing.py                | 19 +++++++++-----
 simpeg/meta/simulation.py                     | 25 +++++++++++-------
 8 files changed, 78 insertions(+), 53 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 41ae772..b60f58a 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -637,12 +637,13 @@ class BaseEM1DSimulation(BaseSimulation):
         return delta
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
+        self.model = m
+        weights = None if W is None else W.diagonal() ** 2
+        if getattr(self, "_gtgdiag", None) is None or not np.array_equal(
+            weights, self._gtgdiag_weights
+        ):
             Js = self._getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
+            W = np.ones(self.survey.nD) if weights is None else weights
             out = 0.0
             if self.hMap is not None:
                 J = Js["dh"] @ self.hDeriv
@@ -657,4 +658,5 @@ class BaseEM1DSimulation(BaseSimulation):
                 J = Js["dthick"] @ self.thicknessesDeriv
                 out = out + np.einsum("i,ij,ij->j", W, J, J)
             self._gtgdiag = out
+            self._gtgdiag_weights = weights
         return self._gtgdiag
diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index e58f813..e12f775 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -424,17 +424,17 @@ class BaseFDEMSimulation(BaseEMSimulation):
         """
         self.model = m
 
-        if getattr(self, "_gtgdiag", None) is None:
+        weights = None if W is None else W.diagonal() ** 2
+        if getattr(self, "_gtgdiag", None) is None or not np.array_equal(
+            weights, self._gtgdiag_weights
+        ):
             J = self.getJ(m, f=f)
-
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+            W = np.ones(J.shape[0]) if weights is None else weights
 
             diag = np.einsum("i,ij,ij->j", W, J, J)
 
             self._gtgdiag = diag
+            self._gtgdiag_weights = weights
 
         return self._gtgdiag
 
diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index ef03577..8aa9d27 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -315,12 +315,13 @@ class Simulation1DRecursive(BaseSimulation):
         return self._Jmatrix
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
+        self.model = m
+        weights = None if W is None else W.diagonal() ** 2
+        if getattr(self, "_gtgdiag", None) is None or not np.array_equal(
+            weights, self._gtgdiag_weights
+        ):
             Js = self.getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
+            W = np.ones(self.survey.nD) if weights is None else weights
 
             gtgdiag = 0
             if self.sigmaMap is not None:
@@ -330,6 +331,7 @@ class Simulation1DRecursive(BaseSimulation):
                 J = Js["thick"] @ self.thicknessesDeriv
                 gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
             self._gtgdiag = gtgdiag
+            self._gtgdiag_weights = weights
         return self._gtgdiag
 
     def Jvec(self, m, v, f=None):
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 9dd3746..8c428c9 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -116,14 +116,14 @@ class BaseIPSimulation(BasePDESimulation):
         return self._pred
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
+        weights = self._scale**2 if W is None else (self._scale * W.diagonal()) ** 2
+        if getattr(self, "_gtgdiag", None) is None or not np.array_equal(
+            weights, self._gtgdiag_weights
+        ):
             J = self.getJ(m, f=f)
-            if W is None:
-                W = self._scale**2
-            else:
-                W = (self._scale * W.diagonal()) ** 2
 
-            self._gtgdiag = np.einsum("i,ij,ij->j", W, J, J)
+            self._gtgdiag = np.einsum("i,ij,ij->j", weights, J, J)
+            self._gtgdiag_weights = weights
 
         return self._gtgdiag
 
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index c84939a..71c2dfb 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -138,19 +138,20 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         """
         Return the diagonal of JtJ
         """
-        if getattr(self, "_gtgdiag", None) is None:
+        self.model = m
+        weights = None if W is None else W.diagonal() ** 2
+        if getattr(self, "_gtgdiag", None) is None or not np.array_equal(
+            weights, self._gtgdiag_weights
+        ):
             J = self.getJ(m, f=f)
-
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+            W = np.ones(J.shape[0]) if weights is None else weights
 
             diag = np.zeros(J.shape[1])
             for i in range(J.shape[0]):
                 diag += (W[i]) * (J[i] * J[i])
 
             self._gtgdiag = diag
+            self._gtgdiag_weights = weights
         return self._gtgdiag
 
     def Jvec(self, m, v, f=None):
diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 701dffe..1465f87 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -468,11 +468,13 @@ class DaskMetaSimulation(MetaSimulation):
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
         m_future = self._m_as_future
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            W, self._jtjdiag_weights
+        ):
             jtj_diag = []
             client = self.client
             if f is None:
@@ -495,6 +497,7 @@ class DaskMetaSimulation(MetaSimulation):
                     )
                 )
             self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
+            self._jtjdiag_weights = W
 
         return self._jtjdiag
 
@@ -618,12 +621,14 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            W, self._jtjdiag_weights
+        ):
             jtj_diag = []
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
             client = self.client
             if f is None:
                 f = self.fields(m)
@@ -643,6 +648,7 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
                     )
                 )
             self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
+            self._jtjdiag_weights = W
 
         return self._jtjdiag
 
diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 05edf03..896d6cf 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -327,11 +327,13 @@ class MultiprocessingMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal()
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            W, self._jtjdiag_weights
+        ):
             if f is None:
                 f = self.fields(m)
             for i, (p, field) in enumerate(zip(self._sim_processes, f)):
@@ -341,6 +343,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             for p in self._sim_processes:
                 jtj_diag.append(p.result())
             self._jtjdiag = np.sum(jtj_diag, axis=0)
+            self._jtjdiag_weights = W
         return self._jtjdiag
 
     def join(self, timeout=None):
@@ -410,7 +413,10 @@ class MultiprocessingSumMetaSimulation(
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        weights = None if W is None else W.diagonal()
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            weights, self._jtjdiag_weights
+        ):
             if f is None:
                 f = self.fields(m)
             for p, field in zip(self._sim_processes, f):
@@ -419,6 +425,7 @@ class MultiprocessingSumMetaSimulation(
             for p in self._sim_processes:
                 jtj_diag.append(p.result())
             self._jtjdiag = np.sum(jtj_diag, axis=0)
+            self._jtjdiag_weights = weights
         return self._jtjdiag
 
 
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f2ebc30..053da08 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -292,14 +292,16 @@ class MetaSimulation(BaseSimulation):
         then controlled by how diagonally dominant ``J.T @ J`` is.
         """
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                try:
-                    W = W.diagonal()
-                except (AttributeError, TypeError, ValueError):
-                    pass
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            try:
+                W = W.diagonal()
+            except (AttributeError, TypeError, ValueError):
+                pass
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            W, self._jtjdiag_weights
+        ):
             jtj_diag = 0.0
             # approximate the JtJ diag on the full model space as:
             # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
@@ -321,6 +323,7 @@ class MetaSimulation(BaseSimulation):
                     (sim_jtj @ m_deriv).power(2).sum(axis=0)
                 ).flatten()
             self._jtjdiag = jtj_diag
+            self._jtjdiag_weights = W
 
         return self._jtjdiag
 
@@ -408,7 +411,10 @@ class SumMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        weights = None if W is None else W.diagonal()
+        if getattr(self, "_jtjdiag", None) is None or not np.array_equal(
+            weights, self._jtjdiag_weights
+        ):
             jtj_diag = 0.0
             if f is None:
                 f = self.fields(m)
@@ -419,6 +425,7 @@ class SumMetaSimulation(MetaSimulation):
                     (sim_jtj @ m_deriv).power(2).sum(axis=0)
                 ).flatten()
             self._jtjdiag = jtj_diag
+            self._jtjdiag_weights = weights
 
         return self._jtjdiag
 
-- 
2.43.0


From c0728fa16f2ba2bd83d0e58c271edef964571cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:28 +0000
Subject: [PATCH 15/28] fix: meta simulations predict for the model given when
 fields are given as well

---
 simpeg/meta/dask_sim.py        | 12 ++++++------
 simpeg/meta/multiprocessing.py | 12 ++++++------
 simpeg/meta/simulation.py      | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 1465f87..3c4debe 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -388,10 +388,10 @@ class DaskMetaSimulation(MetaSimulation):
         return f
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         client = self.client
         m_future = self._m_as_future
         dpred = []
@@ -556,10 +556,10 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
         self._workers = workers
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         client = self.client
         dpred = []
         for sim, worker, field in zip(self.simulations, self._workers, f):
diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 896d6cf..60df542 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -289,10 +289,10 @@ class MultiprocessingMetaSimulation(MetaSimulation):
         return f
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
@@ -376,10 +376,10 @@ class MultiprocessingSumMetaSimulation(
     """
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         for p, field in zip(self._sim_processes, f):
             p.start_dpred(field)
 
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index 053da08..bce9d5b 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -217,10 +217,10 @@ class MetaSimulation(BaseSimulation):
         return f
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         d_pred = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
             if self._repeat_sim:
@@ -379,10 +379,10 @@ class SumMetaSimulation(MetaSimulation):
         self._simulations = value
 
     def dpred(self, m=None, f=None):
+        if m is not None:
+            self.model = m
         if f is None:
-            if m is None:
-                m = self.model
-            f = self.fields(m)
+            f = self.fields(self.model)
         d_pred = 0
         for sim, field in zip(self.simulations, f):
             d_pred += sim.dpred(m=sim.model, f=field)
-- 
2.43.0


From 82a443050fd47ea79499307df9e39e5a104439ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 16/28] fix: stored receiver projections are reused only for
 the grid they were computed for

---
 .../static/resistivity/receivers.py           | 22 +++++++++----------
 .../receivers.py                              | 12 +++++-----
 .../simulation.py                             |  4 ++--
 .../electromagnetics/time_domain/receivers.py |  7 +++---
 simpeg/survey.py                              |  7 +++---
 5 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/receivers.py b/simpeg/electromagnetics/static/resistivity/receivers.py
index f380f50..049fdbd 100644
--- a/simpeg/electromagnetics/static/resistivity/receivers.py
+++ b/simpeg/electromagnetics/static/resistivity/receivers.py
@@ -408,15 +408,15 @@ class Dipole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
-
-        P0 = mesh.get_interpolation_matrix(self.locations[0], projected_grid)
-        P1 = mesh.get_interpolation_matrix(self.locations[1], projected_grid)
-        P = P0 - P1
+        if (mesh, projected_grid) in self._Ps:
+            P = self._Ps[(mesh, projected_grid)]
+        else:
+            P0 = mesh.get_interpolation_matrix(self.locations[0], projected_grid)
+            P1 = mesh.get_interpolation_matrix(self.locations[1], projected_grid)
+            P = P0 - P1
 
-        if self.storeProjections:
-            self._Ps[mesh] = P
+            if self.storeProjections:
+                self._Ps[(mesh, projected_grid)] = P
 
         if transpose:
             P = P.toarray().T
@@ -487,12 +487,12 @@ class Pole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[(mesh, projected_grid)]
 
         P = mesh.get_interpolation_matrix(self.locations, projected_grid)
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[(mesh, projected_grid)] = P
 
         return P
diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/receivers.py b/simpeg/electromagnetics/static/spectral_induced_polarization/receivers.py
index 911bffe..8ef02ef 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/receivers.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/receivers.py
@@ -356,8 +356,8 @@ class Dipole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[(mesh, projected_grid)]
 
         P0 = mesh.get_interpolation_matrix(self.locations[0], projected_grid)
         P1 = mesh.get_interpolation_matrix(self.locations[1], projected_grid)
@@ -369,7 +369,7 @@ class Dipole(BaseRx):
             P = sdiag(1.0 / self.dc_voltage) * P
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[(mesh, projected_grid)] = P
 
         return P
 
@@ -428,8 +428,8 @@ class Pole(BaseRx):
         scipy.sparse.csr_matrix
             P, the interpolation matrix
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[(mesh, projected_grid)]
 
         P = mesh.get_interpolation_matrix(self.locations, projected_grid)
 
@@ -439,6 +439,6 @@ class Pole(BaseRx):
             P = sdiag(1.0 / self.dc_voltage) * P
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[(mesh, projected_grid)] = P
 
         return P
diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index cde7c0a..6b6cb02 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -341,8 +341,8 @@ class BaseSIPSimulation(BaseIPSimulation):
                         rx.data_type = "volt"
                         rx._dc_voltage = rx.eval(src, self.mesh, f)
                         if rx.storeProjections:
-                            P = rx._Ps[self.mesh]
-                            rx._Ps[self.mesh] = sdiag(1.0 / rx.dc_voltage) * P
+                            for key, P in rx._Ps.items():
+                                rx._Ps[key] = sdiag(1.0 / rx.dc_voltage) * P
                         rx.data_type = "apparent_chargeability"
 
         self._pred = self.forward(m, f=self._f)
diff --git a/simpeg/electromagnetics/time_domain/receivers.py b/simpeg/electromagnetics/time_domain/receivers.py
index 61e183a..e1513a0 100644
--- a/simpeg/electromagnetics/time_domain/receivers.py
+++ b/simpeg/electromagnetics/time_domain/receivers.py
@@ -140,15 +140,16 @@ class BaseRx(BaseTimeRx):
         -----
         Projection matrices are stored as a dictionary (mesh, time_mesh) if storeProjections is True
         """
-        if (mesh, time_mesh) in self._Ps:
-            return self._Ps[(mesh, time_mesh)]
+        key = (mesh, time_mesh, f._GLoc(self.projField), f._TLoc(self.projField))
+        if key in self._Ps:
+            return self._Ps[key]
 
         Ps = self.getSpatialP(mesh, f)
         Pt = self.getTimeP(time_mesh, f)
         P = sp.kron(Pt, Ps)
 
         if self.storeProjections:
-            self._Ps[(mesh, time_mesh)] = P
+            self._Ps[key] = P
 
         return P
 
diff --git a/simpeg/survey.py b/simpeg/survey.py
index e471ab1..24daedf 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -266,15 +266,16 @@ class BaseTimeRx(BaseRx):
         Projection matrices are stored as a dictionary (mesh, timeMesh)
         if `storeProjections` is ``True``
         """
-        if (mesh, time_mesh) in self._Ps:
-            return self._Ps[(mesh, time_mesh)]
+        key = (mesh, time_mesh, projected_grid, projected_time_grid)
+        if key in self._Ps:
+            return self._Ps[key]
 
         Ps = self.getSpatialP(mesh, projected_grid)
         Pt = self.getTimeP(time_mesh, projected_time_grid)
         P = sp.kron(Pt, Ps)
 
         if self.storeProjections:
-            self._Ps[(mesh, time_mesh)] = P
+            self._Ps[key] = P
 
         return P
 
-- 
2.43.0


From d68020952f7f8d345cb7d268188431e3ddc0d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:40 +0000
Subject: [PATCH 17/28] fix: source terms kept on EM sources are reused only
 for the mesh and background they were computed for

---
 .../frequency_domain/sources.py               | 13 +++---
 .../natural_source/sources.py                 | 35 ++++++++++------
 .../electromagnetics/time_domain/sources.py   | 41 ++++++++-----------
 3 files changed, 46 insertions(+), 43 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index a3dbd58..1504c6c 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -1335,10 +1335,11 @@ class LineCurrent(BaseFDEMSrc):
         numpy.ndarray of length (mesh.nE)
             Contains the source term for all x, y, and z edges of the mesh.
         """
-        if getattr(self, "_Mejs", None) is None:
-            mesh = simulation.mesh
+        mesh = simulation.mesh
+        if getattr(self, "_Mejs", None) is None or self._Mejs_mesh is not mesh:
             locs = self.location
             self._Mejs = segmented_line_current_source_term(mesh, locs)
+            self._Mejs_mesh = mesh
         return self.current * self._Mejs
 
     def Mfjs(self, simulation):
@@ -1354,10 +1355,10 @@ class LineCurrent(BaseFDEMSrc):
         numpy.ndarray of length (mesh.nF)
             Contains the source term for all x, y, and z faces of the mesh.
         """
-        if getattr(self, "_Mfjs", None) is None:
-            self._Mfjs = line_through_faces(
-                simulation.mesh, self.location, normalize_by_area=True
-            )
+        mesh = simulation.mesh
+        if getattr(self, "_Mfjs", None) is None or self._Mfjs_mesh is not mesh:
+            self._Mfjs = line_through_faces(mesh, self.location, normalize_by_area=True)
+            self._Mfjs_mesh = mesh
         return self.current * self._Mfjs
 
     def getRHSdc(self, simulation):
diff --git a/simpeg/electromagnetics/natural_source/sources.py b/simpeg/electromagnetics/natural_source/sources.py
index 90ac791..f412500 100644
--- a/simpeg/electromagnetics/natural_source/sources.py
+++ b/simpeg/electromagnetics/natural_source/sources.py
@@ -59,12 +59,15 @@ class PlanewaveXYPrimary(Planewave):
         super(PlanewaveXYPrimary, self).__init__(receiver_list, frequency)
 
     def _get_sigmas(self, simulation):
-        try:
-            return self._sigma1d, self._sigma_p
-        except AttributeError:
+        sigma_primary = self._sigma_primary
+        if sigma_primary is None:
+            sigma_primary = simulation.sigmaPrimary
+        key = (simulation.mesh, sigma_primary)
+        if getattr(self, "_sigma1d", None) is None or not (
+            self._sigmas_key[0] is key[0] and self._sigmas_key[1] is key[1]
+        ):
+            self._sigmas_key = key
             # set _sigma 1D
-            if self._sigma_primary is None:
-                self._sigma_primary = simulation.sigmaPrimary
             # Create 3d_1d mesh like me...
             if simulation.mesh.dim == 3:
                 mesh3d = simulation.mesh
@@ -75,15 +78,15 @@ class PlanewaveXYPrimary(Planewave):
                     mesh3d.h[-1],
                 ]
                 mesh1d = discretize.TensorMesh(hs, x0=x0)
-                if len(self._sigma_primary) == mesh3d.nC:
+                if len(sigma_primary) == mesh3d.nC:
                     # volume average down to 1D mesh
                     self._sigma1d = np.exp(
-                        volume_average(mesh3d, mesh1d, np.log(self._sigma_primary))
+                        volume_average(mesh3d, mesh1d, np.log(sigma_primary))
                     )
-                elif len(self._sigma_primary) == mesh1d.nC:
-                    self._sigma1d = self._sigma_primary
+                elif len(sigma_primary) == mesh1d.nC:
+                    self._sigma1d = sigma_primary
                 else:
-                    self._sigma1d = np.ones(mesh1d.nC) * self._sigma_primary
+                    self._sigma1d = np.ones(mesh1d.nC) * sigma_primary
                 self._sigma_p = np.exp(
                     volume_average(mesh1d, mesh3d, np.log(self._sigma1d))
                 )
@@ -93,7 +96,7 @@ class PlanewaveXYPrimary(Planewave):
                 )[:]
                 self._sigma_p = None
                 self.sigma1d = self._sigma1d
-            return self._sigma1d, self._sigma_p
+        return self._sigma1d, self._sigma_p
 
     def ePrimary(self, simulation):
         """Primary electric field
@@ -108,8 +111,12 @@ class PlanewaveXYPrimary(Planewave):
         numpy.ndarray
             Primary electric field
         """
-        if self._ePrimary is None:
-            sigma_1d, _ = self._get_sigmas(simulation)
+        sigma_1d, _ = self._get_sigmas(simulation)
+        if (
+            self._ePrimary is None
+            or self._ePrimary_mesh is not simulation.mesh
+            or self._ePrimary_sigma1d is not sigma_1d
+        ):
             e_1d = primary_e_1d_solution(simulation.mesh, sigma_1d, self.frequency)
             e_1d = project_1d_fields_to_mesh_edges(simulation.mesh, e_1d)
 
@@ -118,6 +125,8 @@ class PlanewaveXYPrimary(Planewave):
                 e_1d = np.c_[e_1d, -e_1d]
 
             self._ePrimary = e_1d
+            self._ePrimary_mesh = simulation.mesh
+            self._ePrimary_sigma1d = sigma_1d
         return self._ePrimary
 
     def bPrimary(self, simulation):
diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c0d7473..6836637 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1378,23 +1378,13 @@ class MagDipole(BaseTDEMSrc):
             )
 
     def _rhs_magnetostatic(self, simulation):
-        if getattr(self, "_hp", None) is None:
-            if simulation._formulation == "EB":
-                bp = simulation.mesh.edge_curl * self._aSrc(simulation)
-                self._MfMuip = simulation.mesh.get_face_inner_product(1.0 / self.mu)
-                self._MfMuipI = simulation.mesh.get_face_inner_product(
-                    1.0 / self.mu, invert_matrix=True
-                )
-                self._hp = self._MfMuip * bp
-            else:
-                raise NotImplementedError(
-                    "Solving the magnetostatic simulationlem for the initial fields "
-                    "when a permeable model is considered has not yet been "
-                    "implemented for the HJ formulation. "
-                    "See: https://github.com/simpeg/simpeg/issues/680"
-                )
-
         if simulation._formulation == "EB":
+            bp = simulation.mesh.edge_curl * self._aSrc(simulation)
+            self._MfMuip = simulation.mesh.get_face_inner_product(1.0 / self.mu)
+            self._MfMuipI = simulation.mesh.get_face_inner_product(
+                1.0 / self.mu, invert_matrix=True
+            )
+            self._hp = self._MfMuip * bp
             return -simulation.mesh.face_divergence * (
                 (simulation.MfMuiI - self._MfMuipI) * self._hp
             )
@@ -1806,10 +1796,10 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray of length (mesh.nE)
             Contains the source term for all x, y, and z edges of the mesh.
         """
-        if getattr(self, "_Mejs", None) is None:
-            self._Mejs = segmented_line_current_source_term(
-                simulation.mesh, self.location
-            )
+        mesh = simulation.mesh
+        if getattr(self, "_Mejs", None) is None or self._Mejs_mesh is not mesh:
+            self._Mejs = segmented_line_current_source_term(mesh, self.location)
+            self._Mejs_mesh = mesh
         return self.current * self._Mejs
 
     def Mfjs(self, simulation):
@@ -1825,10 +1815,13 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray of length (mesh.nF)
             Contains the source term for all x, y, and z faces of the mesh.
         """
-        if getattr(self, "_Mfjs", None) is None:
-            self._Mfjs = line_through_faces(
-                simulation.mesh, self.location, normalize_by_area=True
-            )
+        mesh = simulation.mesh
+        # a source term that was given (see RawVec_Grounded) belongs to no mesh
+        if getattr(self, "_Mfjs", None) is None or (
+            getattr(self, "_Mfjs_mesh", mesh) is not mesh
+        ):
+            self._Mfjs = line_through_faces(mesh, self.location, normalize_by_area=True)
+            self._Mfjs_mesh = mesh
         return self.current * self._Mfjs
 
     def getRHSdc(self, simulation):
-- 
2.43.0


From fd5ff9e0044363f0e3c0455594e993fa69ec2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 18/28] fix: the 2D nodal DC simulation does not write its
 solver options into the caller's dictionary

---
 .../electromagnetics/static/resistivity/simulation_2d.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 3075e8f..9eb0768 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -639,8 +639,11 @@ class Simulation2DNodal(BaseDCSimulation2D):
 
     def __init__(self, mesh, survey=None, bc_type="Robin", **kwargs):
         super().__init__(mesh=mesh, survey=survey, **kwargs)
-        self.solver_opts["is_symmetric"] = True
-        self.solver_opts["is_positive_definite"] = True
+        self.solver_opts = {
+            **self.solver_opts,
+            "is_symmetric": True,
+            "is_positive_definite": True,
+        }
         self.bc_type = bc_type
 
     @property
-- 
2.43.0


From bef3fe7cd67929a1f4124eca2bee8e4c3aabbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 19/28] fix: assigning into a Data object does not change the
 array its data came from

---
 simpeg/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data.py b/simpeg/data.py
index b461e45..4210bac 100644
--- a/simpeg/data.py
+++ b/simpeg/data.py
@@ -131,7 +131,7 @@ class Data:
     def dobs(self, value):
         self._dobs = validate_ndarray_with_shape(
             "dobs", value, shape=(self.survey.nD,), dtype=(float, complex)
-        )
+        ).copy()
 
     @property
     def relative_error(self):
-- 
2.43.0


From 7308c7c4a7e771bf00d9f7476200bd9ee9c47d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 20/28] fix: index lists, multipliers and plotting options
 given by the caller are not changed

---
 .../natural_source/utils/plot_utils.py               | 12 ++----------
 simpeg/maps/_surjection.py                           |  2 +-
 simpeg/regularization/pgi.py                         |  2 +-
 simpeg/utils/plot_utils.py                           |  3 +--
 4 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/utils/plot_utils.py b/simpeg/electromagnetics/natural_source/utils/plot_utils.py
index c608940..c0e7924 100644
--- a/simpeg/electromagnetics/natural_source/utils/plot_utils.py
+++ b/simpeg/electromagnetics/natural_source/utils/plot_utils.py
@@ -29,16 +29,8 @@ def _validate_kwargs(input_dict, compare_dict):
     :param compare_dict: matplotlib kwargs of default to use arguments
     :type compare_dict: :class: `dict`
     """
-    # Set the default plot kwargs
-    for key, val in compare_dict.items():
-        # Make sure they aren't already assigned
-        if input_dict is None:
-            input_dict = compare_dict.copy()
-        else:
-            if key not in input_dict:
-                input_dict[key] = val
-    # Return
-    return input_dict
+    # Set the default plot kwargs that aren't already assigned
+    return {**compare_dict, **(input_dict or {})}
 
 
 class BaseDataNSEMPlots:
diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index edcfa1f..fa74485 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -462,7 +462,7 @@ class SurjectUnits(IdentityMap):
 
     @indices.setter
     def indices(self, values):
-        values = validate_type("indices", values, list)
+        values = list(validate_type("indices", values, list))
         mesh = self.mesh
         last_shape = None
         for i in range(len(values)):
diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 0193647..29c2f2f 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -1198,7 +1198,7 @@ class PGI(ComboObjectiveFunction):
     def alpha_pgi(self, value):
         value = validate_float("alpha_pgi", value, min_val=0.0)
         self._alpha_pgi = value
-        self._multipliers[0] = value
+        self._multipliers = [value, *self._multipliers[1:]]
 
     @property
     def gmm(self):
diff --git a/simpeg/utils/plot_utils.py b/simpeg/utils/plot_utils.py
index 1c96afd..8735bd3 100644
--- a/simpeg/utils/plot_utils.py
+++ b/simpeg/utils/plot_utils.py
@@ -101,8 +101,7 @@ def plot2Ddata(
     if clim is not None:
         vlimits = [np.min(clim), np.max(clim)]
 
-    if contourOpts is None:
-        contourOpts = {}
+    contourOpts = {} if contourOpts is None else dict(contourOpts)
     if levelOpts is None:
         levelOpts = {}
     if streamplotOpts is None:
-- 
2.43.0


From 74227be2e0df845ae5b8123a6cb527385e263467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:35 +0000
Subject: [PATCH 21/28] fix: derivative of the 3D polynomial map uses the
 transform's coefficient order

---
 simpeg/maps/_parametric.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 4837b7c..6f3e21f 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -646,27 +646,33 @@ class ParametricPolyMap(IdentityMap):
             if self.normal == "x":
                 f = (
                     polynomial.polyval2d(
-                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        Y,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - X
                 )
-                V = polynomial.polyvander2d(Y, Z, self.order)
+                V = polynomial.polyvander2d(Z, Y, self.order[::-1])
             elif self.normal == "y":
                 f = (
                     polynomial.polyval2d(
-                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Y
                 )
-                V = polynomial.polyvander2d(X, Z, self.order)
+                V = polynomial.polyvander2d(Z, X, self.order[::-1])
             elif self.normal == "z":
                 f = (
                     polynomial.polyval2d(
-                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Y,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Z
                 )
-                V = polynomial.polyvander2d(X, Y, self.order)
+                V = polynomial.polyvander2d(Y, X, self.order[::-1])
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
 
-- 
2.43.0


From 4b9921c566763524076e627477460e4a6876ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:27 +0000
Subject: [PATCH 22/28] fix: derivative of the spline map for all its control
 points and at the given model

---
 simpeg/maps/_parametric.py | 56 ++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 6f3e21f..660e372 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -956,6 +956,7 @@ class ParametricSplineMap(IdentityMap):
         if self.mesh.dim == 2:
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
+            self.spl = UnivariateSpline(self.pts, c, k=self.order, s=0)
 
             if self.normal == "x":
                 f = self.spl(Y) - X
@@ -968,6 +969,11 @@ class ParametricSplineMap(IdentityMap):
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
             Z = self.mesh.cell_centers[:, 2]
+            npts = np.size(self.pts)
+            self.spl = {
+                "splb": UnivariateSpline(self.pts, c[:npts], k=self.order, s=0),
+                "splt": UnivariateSpline(self.pts, c[npts:], k=self.order, s=0),
+            }
 
             if self.normal == "x":
                 zb = self.ptsv[0]
@@ -990,25 +996,27 @@ class ParametricSplineMap(IdentityMap):
 
         if self.mesh.dim == 2:
             g3 = np.zeros((self.mesh.nC, self.npts))
-            if self.normal == "y":
-                # Here we use perturbation to compute sensitivity
-                # TODO: bit more generalization of this ...
-                # Modfications for X and Z directions ...
-                for i in range(np.size(self.pts)):
-                    ctemp = c[i]
-                    ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
-                    ca = c.copy()
-                    cb = c.copy()
-                    dy = self.mesh.h[1][ind] * 1.5
-                    ca[i] = ctemp + dy
-                    cb[i] = ctemp - dy
-                    spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
-                    splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
-                    fderiv = (spla(X) - splb(X)) / (2 * dy)
-                    g3[:, i] = (
-                        sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
-                        * fderiv
-                    )
+            # Here we use perturbation to compute sensitivity
+            # The interface is x(y) for the x normal and y(x) for the y normal
+            if self.normal == "x":
+                points, centers, h = Y, self.mesh.cell_centers_x, self.mesh.h[0]
+            else:
+                points, centers, h = X, self.mesh.cell_centers_y, self.mesh.h[1]
+            for i in range(np.size(self.pts)):
+                ctemp = c[i]
+                ind = np.argmin(abs(centers - ctemp))
+                ca = c.copy()
+                cb = c.copy()
+                dy = h[ind] * 1.5
+                ca[i] = ctemp + dy
+                cb[i] = ctemp - dy
+                spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
+                splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
+                fderiv = (spla(points) - splb(points)) / (2 * dy)
+                g3[:, i] = (
+                    sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
+                    * fderiv
+                )
 
         elif self.mesh.dim == 3:
             g3 = np.zeros((self.mesh.nC, self.npts * 2))
@@ -1048,16 +1056,16 @@ class ParametricSplineMap(IdentityMap):
                             self.pts, ca[self.npts :], k=self.order, s=0
                         )
                         spltb = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
+                            self.pts, cb[self.npts :], k=self.order, s=0
                         )
                         flinesa = (
-                            (self.spl["splt"](Y) - splta(Y)) * (Z - zb) / (zt - zb)
-                            + splta(Y)
+                            (splta(Y) - self.spl["splb"](Y)) * (Z - zb) / (zt - zb)
+                            + self.spl["splb"](Y)
                             - X
                         )
                         flinesb = (
-                            (self.spl["splt"](Y) - spltb(Y)) * (Z - zb) / (zt - zb)
-                            + spltb(Y)
+                            (spltb(Y) - self.spl["splb"](Y)) * (Z - zb) / (zt - zb)
+                            + self.spl["splb"](Y)
                             - X
                         )
                     fderiv = (flinesa - flinesb) / (2 * dy)
-- 
2.43.0


From 9c0c457568a361f2a19117d39199161d91277a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 23/28] fix: Hessian of the data misfit for weighting matrices
 that are not symmetric

---
 simpeg/data_misfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index 740e803..c83d72b 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -339,5 +339,5 @@ class L2DataMisfit(BaseDataMisfit):
             f = self.simulation.fields(m)
 
         return 2 * self.simulation.Jtvec_approx(
-            m, self.W * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
+            m, self.W.T * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
         )
-- 
2.43.0


From 731d99b189b70d77cc1fa8e0fbd86cb3159ad01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 24/28] fix: second-order smoothness of angles read an
 attribute that does not exist

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 54d939c..92e71fa 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1432,7 +1432,7 @@ class SmoothnessSecondOrder(SmoothnessFirstOrder):
         if self.units is not None and self.units.lower() == "radian":
             return self.cell_gradient.T @ (
                 utils.mat_utils.coterminal(self.cell_gradient.sign() @ dfm_dl)
-                / self.length_scales
+                / self._cell_distances
             )
 
         dfm_dl2 = self.cell_gradient @ dfm_dl
-- 
2.43.0


From 985a85e3d958d5ccebd25dffa6084b708d1a63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 25/28] fix: fields of a data misfit term are kept at the place
 of the term

---
 simpeg/inverse_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index ec24a15..4286216 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -286,7 +286,7 @@ class BaseInvProblem:
                     if hasattr(objfct, "simulation"):
                         f += [objfct.simulation.fields(m)]
                     else:
-                        f += []
+                        f += [None]
 
         if deleteWarmstart:
             self.warmstart = []
-- 
2.43.0


From 19b48f429550965df1956e53922e1cf7996bd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 26/28] fix: Hessian of the PGI smallness for maps with
 different derivatives

---
 simpeg/regularization/pgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/regularization/pgi.py b/simpeg/regularization/pgi.py
index 29c2f2f..1bee302 100644
--- a/simpeg/regularization/pgi.py
+++ b/simpeg/regularization/pgi.py
@@ -841,7 +841,7 @@ class PGIsmallness(Smallness):
 
                 Hr = Hr.dot(self.W)
 
-                return 2 * (mD.T * mD) * (self.W * (Hr))
+                return 2 * mD.T * (self.W * Hr) * mD
 
         else:
             if self.non_linear_relationships:
@@ -919,7 +919,7 @@ class PGIsmallness(Smallness):
                 for j in range(len(self.wiresmap.maps)):
                     Hc = sp.hstack([Hc, sdiag(hlist[i][j])])
                 Hr = sp.vstack([Hr, Hc])
-            Hr = 2 * (mD.T * mD) * Hr
+            Hr = 2 * mD.T * Hr * mD
 
             if v is not None:
                 return Hr.dot(v)
-- 
2.43.0


From 47e7eee2b61ded0372ca67c25a23e0c7b6101917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:23 +0000
Subject: [PATCH 27/28] fix: time-domain Jvec left out the fields at the last
 time step

---
 simpeg/electromagnetics/time_domain/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index efd986e..4f6070d 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -266,6 +266,14 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 if tInd != len(self.time_steps + 1):
                     dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
 
+        # field derivs at the last time step
+        for i, src in enumerate(self.survey.source_list):
+            for projField in set([rx.projField for rx in src.receiver_list]):
+                df_dmFun = getattr(f, "_%sDeriv" % projField, None)
+                df_dm_v[src, "{}Deriv".format(projField), self.nT] = df_dmFun(
+                    self.nT, src, dun_dm_v[:, i], v
+                )
+
         Jv = []
         for src in self.survey.source_list:
             for rx in src.receiver_list:
-- 
2.43.0


From 7b56f1cbe2c90b19781e5788e5ce7aa5a2eb8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:39 +0000
Subject: [PATCH 28/28] fix: time-domain Jtvec left out the derivative of the
 initial fields

---
 .../time_domain/simulation.py                 | 175 +-----------------
 1 file changed, 6 insertions(+), 169 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index 4f6070d..edf2fb6 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -442,6 +442,11 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 JTv = JTv + mkvc(-dAT_dm_v - dAsubdiagT_dm_v + dRHST_dm_v)
 
         # Treat the initial condition
+        Asubdiag = self.getAsubdiag(0)
+        for isrc, src in enumerate(self.survey.source_list):
+            du0T_v = mkvc(df_duT_v[src, "{}Deriv".format(self._fieldType), 0])
+            du0T_v = du0T_v - Asubdiag.T * ATinv_df_duT_v[isrc, :]
+            JTv = JTv + self.getInitialFieldsDeriv(src, du0T_v, adjoint=True, f=f)
 
         # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
         if AdiagTinv is not None:
@@ -570,12 +575,7 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 ifieldsDeriv += np.zeros(self.mesh.n_edges)
 
         elif adjoint is True:
-            if self._fieldType in ["b", "j"]:
-                ifieldsDeriv += np.zeros(self.mesh.n_faces)
-            elif self._fieldType in ["e", "h"]:
-                ifieldsDeriv[0] += np.zeros(self.mesh.n_edges)
-            ifieldsDeriv[1] += np.zeros_like(self.model)  # take care of a  Zero() case
-
+            ifieldsDeriv += np.zeros_like(self.model)
         return ifieldsDeriv
 
     # Store matrix factors if we need to solve the DC problem to get the
@@ -1213,169 +1213,6 @@ class Simulation3DElectricField(BaseTDEMSimulation):
     fieldsPair = Fields3DElectricField  #: A Fields3DElectricField
     Fields_Derivs = FieldsDerivativesEB
 
-    # @profile
-    def Jtvec(self, m, v, f=None):
-        # Doctring inherited from parent class.
-        if f is None:
-            f = self.fields(m)
-
-        self.model = m
-        ftype = self._fieldType + "Solution"  # the thing we solved for
-
-        # Get dict of flat array slices for each source-receiver pair in the survey
-        survey_slices = self.survey.get_all_slices()
-
-        df_duT_v = self.Fields_Derivs(self)
-
-        # same size as fields at a single timestep
-        ATinv_df_duT_v = np.zeros(
-            (
-                len(self.survey.source_list),
-                len(f[self.survey.source_list[0], ftype, 0]),
-            ),
-            dtype=float,
-        )
-        JTv = np.zeros(m.shape, dtype=float)
-
-        # Loop over sources and receivers to create a fields object:
-        # PT_v, df_duT_v, df_dmT_v
-        # initialize storage for PT_v (don't need to preserve over sources)
-        PT_v = self.Fields_Derivs(self)
-        for src in self.survey.source_list:
-            # Looping over initializing field class is appending memory!
-            # PT_v = Fields_Derivs(self.mesh) # initialize storage
-            # #for PT_v (don't need to preserve over sources)
-            # initialize size
-            df_duT_v[src, "{}Deriv".format(self._fieldType), :] = np.zeros_like(
-                f[src, self._fieldType, :]
-            )
-
-            for rx in src.receiver_list:
-                src_rx_slice = survey_slices[src, rx]
-                PT_v[src, "{}Deriv".format(rx.projField), :] = rx.evalDeriv(
-                    src, self.mesh, self.time_mesh, f, v[src_rx_slice], adjoint=True
-                )
-                # this is +=
-
-                # PT_v = np.reshape(curPT_v,(len(curPT_v)/self.time_mesh.nN,
-                # self.time_mesh.nN), order='F')
-                df_duTFun = getattr(f, "_{}Deriv".format(rx.projField), None)
-
-                for tInd in range(self.nT + 1):
-                    cur = df_duTFun(
-                        tInd,
-                        src,
-                        None,
-                        mkvc(PT_v[src, "{}Deriv".format(rx.projField), tInd]),
-                        adjoint=True,
-                    )
-
-                    df_duT_v[src, "{}Deriv".format(self._fieldType), tInd] = df_duT_v[
-                        src, "{}Deriv".format(self._fieldType), tInd
-                    ] + mkvc(cur[0], 2)
-                    JTv = cur[1] + JTv
-
-        # no longer need this
-        del PT_v
-
-        AdiagTinv = None
-
-        # Do the back-solve through time
-        # if the previous timestep is the same: no need to refactor the matrix
-        # for tInd, dt in zip(range(self.nT), self.time_steps):
-
-        for tInd in reversed(range(self.nT)):
-            # tInd = tIndP - 1
-            if AdiagTinv is not None and (
-                tInd <= self.nT and self.time_steps[tInd] != self.time_steps[tInd + 1]
-            ):
-                AdiagTinv.clean()
-                AdiagTinv = None
-
-            # refactor if we need to
-            if AdiagTinv is None:  # and tInd > -1:
-                Adiag = self.getAdiag(tInd)
-                AdiagTinv = self.solver(Adiag.T, **self.solver_opts)
-
-            if tInd < self.nT - 1:
-                Asubdiag = self.getAsubdiag(tInd + 1)
-
-            for isrc, src in enumerate(self.survey.source_list):
-                # solve against df_duT_v
-                if tInd >= self.nT - 1:
-                    # last timestep (first to be solved)
-                    ATinv_df_duT_v[isrc, :] = (
-                        AdiagTinv
-                        * df_duT_v[src, "{}Deriv".format(self._fieldType), tInd + 1]
-                    ).squeeze()
-                elif tInd > -1:
-                    ATinv_df_duT_v[isrc, :] = (
-                        AdiagTinv
-                        * (
-                            mkvc(
-                                df_duT_v[
-                                    src, "{}Deriv".format(self._fieldType), tInd + 1
-                                ]
-                            )
-                            - Asubdiag.T * mkvc(ATinv_df_duT_v[isrc, :])
-                        ).squeeze()
-                    )
-
-                dAsubdiagT_dm_v = self.getAsubdiagDeriv(
-                    tInd, f[src, ftype, tInd], ATinv_df_duT_v[isrc, :], adjoint=True
-                )
-
-                dRHST_dm_v = self.getRHSDeriv(
-                    tInd + 1, src, ATinv_df_duT_v[isrc, :], adjoint=True
-                )  # on nodes of time mesh
-
-                un_src = f[src, ftype, tInd + 1]
-                # cell centered on time mesh
-                dAT_dm_v = self.getAdiagDeriv(
-                    tInd, un_src, ATinv_df_duT_v[isrc, :], adjoint=True
-                )
-
-                JTv = JTv + mkvc(-dAT_dm_v - dAsubdiagT_dm_v + dRHST_dm_v)
-
-        # Treating initial condition when a galvanic source is included
-        tInd = -1
-        Grad = self.mesh.nodal_gradient
-
-        for isrc, src in enumerate(self.survey.source_list):
-            if src.srcType == "galvanic":
-                ATinv_df_duT_v[isrc, :] = Grad * (
-                    self.Adcinv
-                    * (
-                        Grad.T
-                        * (
-                            mkvc(
-                                df_duT_v[
-                                    src, "{}Deriv".format(self._fieldType), tInd + 1
-                                ]
-                            )
-                            - Asubdiag.T * mkvc(ATinv_df_duT_v[isrc, :])
-                        )
-                    ).squeeze()
-                )
-
-                dRHST_dm_v = self.getRHSDeriv(
-                    tInd + 1, src, ATinv_df_duT_v[isrc, :], adjoint=True
-                )  # on nodes of time mesh
-
-                un_src = f[src, ftype, tInd + 1]
-                # cell centered on time mesh
-                dAT_dm_v = self.MeSigmaDeriv(
-                    un_src, ATinv_df_duT_v[isrc, :], adjoint=True
-                )
-
-                JTv = JTv + mkvc(-dAT_dm_v + dRHST_dm_v)
-
-        # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
-        if AdiagTinv is not None:
-            AdiagTinv.clean()
-
-        return mkvc(JTv).astype(float)
-
     def getAdiag(self, tInd):
         r"""Diagonal system matrix for the time-step index provided.
 
-- 
2.43.0

