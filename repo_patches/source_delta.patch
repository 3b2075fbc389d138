From ede7f1bbd37796abd73431a95d7dd9fa69ca552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 01/35] fix: specific enthalpy from density, energy and
 pressure uses the given energy

---
 dream/compressible/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/solver.py b/dream/compressible/solver.py
index e367fe8..42d100f 100644
--- a/dream/compressible/solver.py
+++ b/dream/compressible/solver.py
@@ -486,8 +486,8 @@ class CompressibleFlowSolver(SolverConfiguration):
             return U.rho_H/U.rho
 
         elif all((U.rho, U.rho_E, U.p)):
-            logger.debug("Returning specific enthalpy from specific energy, density and pressure.")
-            return U.E + U.p/U.rho
+            logger.debug("Returning specific enthalpy from energy, density and pressure.")
+            return (U.rho_E + U.p)/U.rho
 
         return None
 
-- 
2.43.0


From 4ed8176fa6e146d48e59e3c458a4c9b87b5ef792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 02/35] fix: incoming and outgoing wave identities partition
 the identity at vanishing wave speeds

---
 dream/compressible/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/solver.py b/dream/compressible/solver.py
index 42d100f..fb9f7dc 100644
--- a/dream/compressible/solver.py
+++ b/dream/compressible/solver.py
@@ -294,10 +294,10 @@ class CompressibleFlowSolver(SolverConfiguration):
 
     def get_characteristic_identity(
             self, U: flowfields, unit_vector: bla.VECTOR, type: str = None) -> bla.MATRIX:
-        lambdas = self.characteristic_velocities(U, unit_vector, type)
+        lambdas = self.characteristic_velocities(U, unit_vector)
 
         if type == "incoming":
-            lambdas = (ngs.IfPos(-lam, 1, 0) for lam in lambdas)
+            lambdas = (ngs.IfPos(lam, 0, 1) for lam in lambdas)
         elif type == "outgoing":
             lambdas = (ngs.IfPos(lam, 1, 0) for lam in lambdas)
         else:
-- 
2.43.0


From cbec79c748cba243ec7d8a62fd249314bbf37942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 03/35] fix: mass inflow characteristic condition accepts any
 complete set of fields

---
 dream/compressible/formulations/conservative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 99f9466..704468a 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -590,7 +590,8 @@ class HDG(ConservativeMethod):
             U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.energy(U_bc)))
 
         elif bc.target == "mass_inflow":
-            U_bc = flowfields(rho=bc.fields.rho, rho_u=bc.fields.rho_u, rho_Ek=bc.fields.rho_Ek, p=U.p)
+            U_bc = flowfields(rho=self.cfg.density(bc.fields), rho_u=self.cfg.momentum(bc.fields),
+                              rho_Ek=self.cfg.kinetic_energy(bc.fields), p=U.p)
             U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.energy(U_bc)))
 
         elif bc.target == "temperature_inflow":
-- 
2.43.0


From 02b0ba5a03fe29019e2addb90b852965d5734275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 04/35] fix: viscous terms of characteristic conditions keep
 the tangential strain component

---
 dream/compressible/formulations/conservative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 704468a..659bff2 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -143,12 +143,12 @@ class StrainHeat(MixedMethod):
 
         if bc.target == "outflow":
             grad_q = R.trans * ngs.CF((grad_Q[3], grad_Q[4]))
-            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[3]), dims=(2, 2)) * R.trans
             grad_q = R * ngs.CF((0, grad_q[1]))
         else:
-            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[3]), dims=(2, 2)) * R.trans
 
-        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[2], grad_q[0], grad_q[1]))
+        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[3], grad_q[0], grad_q[1]))
 
         S = self.get_conservative_diffusive_jacobian(U, Q, t) * (ngs.grad(U.U) * t)
         S += self.get_conservative_diffusive_jacobian(U, Q, n) * (ngs.grad(U.U) * n)
-- 
2.43.0


From 9dce677d1f4556a44952ec41324428a1fda02dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 05/35] fix: adiabatic wall condition imposes density, no slip
 and vanishing heat flux

---
 dream/compressible/formulations/conservative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 659bff2..6d67cb4 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -680,12 +680,12 @@ class HDG(ConservativeMethod):
         Uhat = self.get_conservative_fields(Uhat)
         Q = self.mixed_method.get_mixed_fields(Q)
 
-        tau = self.mixed_method.get_diffusive_stabilisation_matrix(U)
+        tau = self.mixed_method.get_diffusive_stabilisation_matrix(U)[self.mesh.dim + 1, self.mesh.dim + 1]
         T_grad = self.cfg.temperature_gradient(U, Q)
 
-        U_bc = ngs.CF((Uhat.rho - U.rho, Uhat.rho_u, tau * (Uhat.rho_E - U.rho_E + T_grad * n)))
+        Gamma_ad = ngs.CF((Uhat.rho - U.rho, Uhat.rho_u, tau * (Uhat.rho_E - U.rho_E + T_grad * n)))
 
-        Gamma_ad = ngs.InnerProduct(Uhat.U - U_bc, Vhat)
+        Gamma_ad = ngs.InnerProduct(Gamma_ad, Vhat)
         blf[f"{bc.name}_{bnd}"] = Gamma_ad * dS
 
     def add_sponge_layer_formulation(
-- 
2.43.0


From ac780d5b2895f20320f4c7602795eff217782a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 06/35] fix: p-sponge layers use their own formulation

---
 dream/compressible/formulations/conservative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 6d67cb4..356296c 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -505,12 +505,12 @@ class HDG(ConservativeMethod):
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
-            if isinstance(dc, SpongeLayer):
-                self.add_sponge_layer_formulation(blf, lf, dc, dom)
-
-            elif isinstance(dc, PSpongeLayer):
+            if isinstance(dc, PSpongeLayer):
                 self.add_psponge_layer_formulation(blf, lf, dc, dom)
 
+            elif isinstance(dc, SpongeLayer):
+                self.add_sponge_layer_formulation(blf, lf, dc, dom)
+
             elif isinstance(dc, Initial):
                 continue
 
-- 
2.43.0


From 04b9d37cd43f57d3214e834545b1b30ff7f70723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 07/35] fix: boundary conditions derive the quantity they
 prescribe from the given fields

---
 dream/compressible/formulations/conservative.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 356296c..760aec6 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -557,7 +557,7 @@ class HDG(ConservativeMethod):
         Uhat, Vhat = self.TnT['Uhat']
 
         U = self.get_conservative_fields(U)
-        U_bc = flowfields(rho=U.rho, rho_u=U.rho_u, rho_Ek=U.rho_Ek, p=bc.fields.p)
+        U_bc = flowfields(rho=U.rho, rho_u=U.rho_u, rho_Ek=U.rho_Ek, p=self.cfg.pressure(bc.fields))
         U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.energy(U_bc)))
 
         Gamma_out = ngs.InnerProduct(Uhat - U_bc, Vhat)
@@ -586,7 +586,7 @@ class HDG(ConservativeMethod):
                  self.cfg.energy(bc.fields)))
 
         elif bc.target == "outflow":
-            U_bc = flowfields(rho=U.rho, rho_u=U.rho_u, rho_Ek=U.rho_Ek, p=bc.fields.p)
+            U_bc = flowfields(rho=U.rho, rho_u=U.rho_u, rho_Ek=U.rho_Ek, p=self.cfg.pressure(bc.fields))
             U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.energy(U_bc)))
 
         elif bc.target == "mass_inflow":
@@ -596,7 +596,7 @@ class HDG(ConservativeMethod):
 
         elif bc.target == "temperature_inflow":
             rho_ = self.cfg.isentropic_density(U, bc.fields)
-            U_bc = flowfields(rho=rho_, u=bc.fields.u, T=U.T)
+            U_bc = flowfields(rho=rho_, u=self.cfg.velocity(bc.fields), T=U.T)
             U_bc.Ek = self.cfg.specific_kinetic_energy(U_bc)
             U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.energy(U_bc)))
 
@@ -653,7 +653,8 @@ class HDG(ConservativeMethod):
         Uhat, Vhat = self.TnT['Uhat']
 
         U = self.get_conservative_fields(U)
-        U_bc = flowfields(rho=U.rho, rho_u=tuple(0 for _ in range(self.mesh.dim)), rho_Ek=0, T=bc.fields.T)
+        U_bc = flowfields(rho=U.rho, rho_u=tuple(0 for _ in range(self.mesh.dim)), rho_Ek=0,
+                         T=self.cfg.temperature(bc.fields))
         U_bc = ngs.CF((self.cfg.density(U_bc), self.cfg.momentum(U_bc), self.cfg.inner_energy(U_bc)))
 
         Gamma_iso = ngs.InnerProduct(Uhat - U_bc, Vhat)
-- 
2.43.0


From 932cd763d13a975d21b29589b19193469df3747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 08/35] fix: relaxation factors given by name are assigned by
 name

---
 dream/compressible/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/config.py b/dream/compressible/config.py
index 7b15889..00c0c3f 100644
--- a/dream/compressible/config.py
+++ b/dream/compressible/config.py
@@ -156,7 +156,7 @@ class CBC(Condition):
         elif isinstance(factor, (list, tuple)):
             characteristic = {key: value for key, value in zip(characteristic, factor)}
         elif isinstance(factor, dict):
-            characteristic = {key: value for key, value in zip(characteristic, factor.values())}
+            characteristic = {key: factor[key] for key in characteristic if key in factor}
         return characteristic
 
     @configuration(default=0.0)
@@ -171,7 +171,7 @@ class CBC(Condition):
 
         factors = self.relaxation_factor.copy()
         if self.mesh.dim == 2:
-            factors.pop("vorticity_1")
+            factors.pop("vorticity_1", None)
 
         return factors
 
-- 
2.43.0


From e697b7b286d0ba3f6c7f2fc533f1e999ddcb0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 09/35] fix: timer never runs past the end of its interval

---
 dream/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 71db640..3877f13 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -42,7 +42,8 @@ class Timer(UniqueConfiguration):
         start, end = self.interval
         step = self.step.Get()
 
-        N = round((end - start)/(stride*step)) + 1
+        # Small tolerance absorbs round-off, such that the end is included but never exceeded
+        N = int((end - start)/(stride*step) + 1e-8) + 1
 
         for i in range(1 - include_start, N):
             self.t = start + stride*i*step
-- 
2.43.0


From 6563f4bdd714eb0b72218bb7d5508e25c2fccd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 10/35] fix: timer keeps the decimals of the interval start

---
 dream/time.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dream/time.py b/dream/time.py
index 3877f13..dc86b91 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -30,7 +30,7 @@ class Timer(UniqueConfiguration):
 
     @parameter(default=1e-4)
     def step(self, step):
-        self._set_digit(step)
+        self.digit = self._get_digit(step)
         return step
 
     @parameter(default=0.0)
@@ -45,9 +45,11 @@ class Timer(UniqueConfiguration):
         # Small tolerance absorbs round-off, such that the end is included but never exceeded
         N = int((end - start)/(stride*step) + 1e-8) + 1
 
+        digit = max(self.digit, self._get_digit(start))
+
         for i in range(1 - include_start, N):
             self.t = start + stride*i*step
-            yield round(self.t.Get(), self.digit)
+            yield round(self.t.Get(), digit)
 
     def to_array(self, include_start: bool = False, stride: int = 1) -> np.ndarray:
         return np.array(list(self.start(include_start, stride)))
@@ -57,9 +59,9 @@ class Timer(UniqueConfiguration):
         for t in self.start(stride=1):
             yield t
 
-    def _set_digit(self, step: float):
-        digit = f"{step:.16f}".split(".")[1]
-        self.digit = len(digit.rstrip("0"))
+    def _get_digit(self, value: float) -> int:
+        digit = f"{value:.16f}".split(".")[1]
+        return len(digit.rstrip("0"))
 
     interval: tuple[float, float]
     step: ngs.Parameter
-- 
2.43.0


From efed295a710ee05fa641926c9528619314139b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 11/35] fix: mesh and settings streams are written without a
 time

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index c186623..5247d78 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -917,7 +917,7 @@ class IOConfiguration(UniqueConfiguration):
 
     def save_pre_time_routine(self, t: float | None = None):
         for stream in self.single_streams:
-            stream.save_pre_time_routine(t)
+            stream.save_pre_time_routine()
 
         for stream in self.file_streams:
             stream.save_pre_time_routine(t)
-- 
2.43.0


From f80d2656a3792145967954bf7c56e0aeea6c6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 12/35] fix: transient output is written at multiples of the
 saving rate, where it is loaded from

---
 dream/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index dc86b91..a1b0ceb 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -313,7 +313,7 @@ class TransientConfig(TimeConfig):
             io.save_pre_time_routine(self.timer.t.Get())
 
             # Solution routine starts here
-            for it, t in enumerate(self.timer()):
+            for it, t in enumerate(self.timer(), start=1):
 
                 for _ in self.scheme.solve_current_time_level(t):
                     continue
-- 
2.43.0


From a37739e53c5b42446bc494a6dbf4314fae76339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 13/35] fix: initial output of a transient run is labelled with
 the start of the interval

---
 dream/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/time.py b/dream/time.py
index a1b0ceb..52f469f 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -309,6 +309,8 @@ class TransientConfig(TimeConfig):
         if reassemble:
             self.assemble()
 
+        self.timer.t = self.timer.interval[0]
+
         with self.cfg.io as io:
             io.save_pre_time_routine(self.timer.t.Get())
 
-- 
2.43.0


From 12a58404651f094c191b54ef5f5a1861c416f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 14/35] fix: transient run without time steps closes its output

---
 dream/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dream/time.py b/dream/time.py
index 52f469f..ccd5123 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -315,6 +315,7 @@ class TransientConfig(TimeConfig):
             io.save_pre_time_routine(self.timer.t.Get())
 
             # Solution routine starts here
+            it, t = 0, self.timer.t.Get()
             for it, t in enumerate(self.timer(), start=1):
 
                 for _ in self.scheme.solve_current_time_level(t):
-- 
2.43.0


From 5ecb6a176cb3a95a951a90418e6592e24be4108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 15/35] fix: linear form is assembled before it enters the
 residual

---
 dream/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dream/solver.py b/dream/solver.py
index 1a7fc1c..04c4f39 100644
--- a/dream/solver.py
+++ b/dream/solver.py
@@ -237,6 +237,7 @@ class DirectNonlinearSolver(NonlinearSolver, skip=True):
 
     def solve_update_step(self):
 
+        self.lf.Assemble()
         self.blf.Apply(self.gfu.vec, self.residual)
         self.residual.data -= self.lf.vec
         self.blf.AssembleLinearization(self.gfu.vec)
-- 
2.43.0


From f0a8a6cbf3c7c0d8146b972b014c7fbd1f8d20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 16/35] fix: stationary solution routine runs the nonlinear
 solver

---
 dream/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index ccd5123..5c31f66 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -261,6 +261,8 @@ class StationaryConfig(TimeConfig):
             else:
                 self.lf += cf
 
+        self.cfg.nonlinear_solver.initialize(self.blf, self.lf, self.cfg.gfu)
+
     def start_solution_routine(self, reassemble: bool = True) -> typing.Generator[float | None, None, None]:
 
         if reassemble:
@@ -270,7 +272,9 @@ class StationaryConfig(TimeConfig):
             io.save_pre_time_routine()
 
             # Solution routine starts here
-            self.solve()
+            for _ in self.cfg.nonlinear_solver.solve():
+                continue
+
             yield None
             # Solution routine ends here
 
-- 
2.43.0


From f7acde016d42152354e4c8afb4eaefde8a5c833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 17/35] fix: timer rounds to the decimals its values are
 written with

---
 dream/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dream/time.py b/dream/time.py
index 5c31f66..ca162d7 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -6,6 +6,8 @@ import ngsolve as ngs
 import logging
 import typing
 
+from decimal import Decimal
+
 from dream.config import UniqueConfiguration, InterfaceConfiguration, parameter, configuration, interface, unique
 
 if typing.TYPE_CHECKING:
@@ -60,8 +62,8 @@ class Timer(UniqueConfiguration):
             yield t
 
     def _get_digit(self, value: float) -> int:
-        digit = f"{value:.16f}".split(".")[1]
-        return len(digit.rstrip("0"))
+        # Shortest decimal representation, since fixed digits expose the binary round-off of values above one
+        return max(0, -Decimal(str(float(value))).normalize().as_tuple().exponent)
 
     interval: tuple[float, float]
     step: ngs.Parameter
-- 
2.43.0


From 7be4f2e671d10b72609275ffcff352d5a36fc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 18/35] fix: options of a subconfiguration are applied after
 the subconfiguration in any order

---
 dream/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/config.py b/dream/config.py
index 7bb277b..ca202d0 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -354,7 +354,8 @@ class UniqueConfiguration(typing.MutableMapping):
         if dict is not None:
             kwargs.update(dict)
 
-        for key in list(kwargs):
+        # Options of a subconfiguration follow the subconfiguration itself
+        for key in sorted(kwargs, key=lambda key: key.count(".")):
 
             match key.split("."):
 
-- 
2.43.0


From e3a59f7c87554d31b33eaa9b37cf2e114e9bded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 19/35] fix: exported streams are activated again when the
 export is applied

---
 dream/config.py | 9 ++++++---
 dream/io.py     | 8 ++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/dream/config.py b/dream/config.py
index ca202d0..bc4e978 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -354,16 +354,19 @@ class UniqueConfiguration(typing.MutableMapping):
         if dict is not None:
             kwargs.update(dict)
 
+        # Includes options which are currently deactivated
+        options = [cfg.__name__ for cfg in self.cfgs]
+
         # Options of a subconfiguration follow the subconfiguration itself
         for key in sorted(kwargs, key=lambda key: key.count(".")):
 
             match key.split("."):
 
-                case [key_] if key_ in self:
+                case [key_] if key_ in options:
                     self[key_] = kwargs.pop(key)
-                case [key_, *args] if key_ not in kwargs and key_ in self:
+                case [key_, *args] if key_ not in kwargs and key_ in options:
                     kwargs[key_] = {".".join(args): kwargs.pop(key)}
-                case [key_, *args] if key_ in kwargs and key_ in self:
+                case [key_, *args] if key_ in kwargs and key_ in options:
                     kwargs[key_][".".join(args)] = kwargs.pop(key)
                 case _:
                     kwargs.pop(key)
diff --git a/dream/io.py b/dream/io.py
index 5247d78..9cd5c04 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -69,8 +69,12 @@ class stream(configuration):
 
     def __set__(self, cfg: CONFIG, stream: bool) -> None:
 
-        if isinstance(stream, str) and stream == self.__name__:
-            stream = True
+        if isinstance(stream, str) and (stream == self.__name__ or stream in Stream.tree):
+            handler = self.fset(cfg, True)
+            if stream != self.__name__ and not isinstance(handler, Stream.tree[stream]):
+                raise ValueError(f"Handler '{stream}' does not belong to '{self.__name__}'")
+            cfg.data[self.__name__] = handler
+            return
 
         if not isinstance(stream, bool):
             raise ValueError(f"Pass boolean to activate/deactivate handler")
-- 
2.43.0


From 132aba6f7b76e98d587efbe4d5f5830ce5ef57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 20/35] fix: exported sensors are plain options, which can be
 saved and applied again

---
 dream/config.py | 2 ++
 dream/io.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dream/config.py b/dream/config.py
index bc4e978..a5ff297 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -401,6 +401,8 @@ class UniqueConfiguration(typing.MutableMapping):
                     data[key] = value.Get()
                 case pathlib.Path():
                     data[key] = str(value)
+                case dict() if any(isinstance(cfg, UniqueConfiguration) for cfg in value.values()):
+                    data[key] = {name: cfg.to_tree() for name, cfg in value.items()}
                 case _:
                     data[key] = value
 
diff --git a/dream/io.py b/dream/io.py
index 9cd5c04..360aa57 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -98,6 +98,12 @@ class sensor(configuration):
         if self.__name__ not in cfg.data:
             cfg.data[self.__name__] = {}
 
+        if isinstance(name, dict):
+            for name, options in name.items():
+                self.__set__(cfg, name)
+                cfg.data[self.__name__][name].update(options)
+            return
+
         sensor = self.fset(cfg, name)
         if isinstance(sensor, Sensor):
             cfg.data[self.__name__][sensor.sensor_name] = sensor
-- 
2.43.0


From c28971ff7ebf3f8cce0d302ac790d00f2f6c0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 21/35] fix: output folders follow every change of the root
 folder

---
 dream/io.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index 360aa57..590d293 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -44,25 +44,17 @@ class path(configuration):
         # Set new path
         if path.is_absolute():
             cfg.data[self.__name__] = path
-            return
         elif hasattr(cfg, 'root'):
             cfg.data[self.__name__] = cfg.root.joinpath(path)
         else:
             raise ValueError(f"Path '{path}' is not absolute or {cfg} has no 'root' path!")
 
-        # Update all paths containing the old path
-        if old is not None:
+        # Update all paths containing the old root path
+        if self.__name__ == 'root' and old is not None:
 
             for key, path in cfg.data.items():
-                if path == cfg.data[self.__name__]:
-                    continue
-                elif isinstance(path, Path) and path.is_relative_to(old):
-                    name = path.name
-                    parent = path.parent
-                    while parent != old:
-                        name = Path(parent.name).joinpath(name)
-                        parent = parent.parent
-                    cfg.data[key] = cfg.data[self.__name__].joinpath(name)
+                if key != self.__name__ and isinstance(path, Path) and path.is_relative_to(old):
+                    cfg.data[key] = cfg.root.joinpath(path.relative_to(old))
 
 
 class stream(configuration):
-- 
2.43.0


From 3ede28b97bf1300a471a525679432c24eae5e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 22/35] fix: conditions on the same regions all act and are
 applied in a fixed order

---
 .../compressible/formulations/conservative.py | 30 +++++++++++--------
 dream/mesh.py                                 | 19 +++++++-----
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 760aec6..ecd4d56 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -465,51 +465,54 @@ class HDG(ConservativeMethod):
                                 blf: dict[str, ngs.comp.SumOfIntegrals],
                                 lf: dict[str, ngs.comp.SumOfIntegrals]):
 
-        bnds = self.cfg.bcs.to_pattern()
+        for bnd, bc in self.cfg.bcs.get_patterns():
 
-        for bnd, bc in bnds.items():
+            terms = {}
 
             logger.debug(f"Adding boundary condition {bc} on boundary {bnd}.")
 
             if isinstance(bc, FarField):
-                self.add_farfield_formulation(blf, lf, bc, bnd)
+                self.add_farfield_formulation(terms, lf, bc, bnd)
 
             elif isinstance(bc, CBC):
-                self.add_cbc_formulation(blf, lf, bc, bnd)
+                self.add_cbc_formulation(terms, lf, bc, bnd)
 
             elif isinstance(bc, Outflow):
-                self.add_outflow_formulation(blf, lf, bc, bnd)
+                self.add_outflow_formulation(terms, lf, bc, bnd)
 
             elif isinstance(bc, (InviscidWall, Symmetry)):
-                self.add_inviscid_wall_formulation(blf, lf, bc, bnd)
+                self.add_inviscid_wall_formulation(terms, lf, bc, bnd)
 
             elif isinstance(bc, IsothermalWall):
-                self.add_isothermal_wall_formulation(blf, lf, bc, bnd)
+                self.add_isothermal_wall_formulation(terms, lf, bc, bnd)
 
             elif isinstance(bc, Periodic):
                 continue
 
             elif isinstance(bc, AdiabaticWall):
-                self.add_adiabatic_wall_formulation(blf, lf, bc, bnd)
+                self.add_adiabatic_wall_formulation(terms, lf, bc, bnd)
 
             else:
                 raise TypeError(f"Boundary condition {bc} not implemented in {self}!")
 
+            for label, term in terms.items():
+                blf[label] = blf[label] + term if label in blf else term
+
     def add_domain_conditions(self,
                               blf: dict[str, ngs.comp.SumOfIntegrals],
                               lf: dict[str, ngs.comp.SumOfIntegrals]):
 
-        doms = self.cfg.dcs.to_pattern()
+        for dom, dc in self.cfg.dcs.get_patterns():
 
-        for dom, dc in doms.items():
+            terms = {}
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
             if isinstance(dc, PSpongeLayer):
-                self.add_psponge_layer_formulation(blf, lf, dc, dom)
+                self.add_psponge_layer_formulation(terms, lf, dc, dom)
 
             elif isinstance(dc, SpongeLayer):
-                self.add_sponge_layer_formulation(blf, lf, dc, dom)
+                self.add_sponge_layer_formulation(terms, lf, dc, dom)
 
             elif isinstance(dc, Initial):
                 continue
@@ -517,6 +520,9 @@ class HDG(ConservativeMethod):
             else:
                 raise TypeError(f"Domain condition {dc} not implemented in {self}!")
 
+            for label, term in terms.items():
+                blf[label] = blf[label] + term if label in blf else term
+
     def add_farfield_formulation(
             self, blf: dict[str, ngs.comp.SumOfIntegrals],
             lf: dict[str, ngs.comp.SumOfIntegrals],
diff --git a/dream/mesh.py b/dream/mesh.py
index e3a5a9b..0a76aac 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -502,19 +502,22 @@ class Conditions(UserDict):
         return False
 
     def to_pattern(self, condition_type: Condition | str = Condition) -> dict[str, Condition]:
+        return dict(self.get_patterns(condition_type))
+
+    def get_patterns(self, condition_type: Condition | str = Condition) -> list[tuple[str, Condition]]:
+        """ Returns every set condition once, together with the pattern of all its regions.
+
+            Different conditions can be set on the same regions!
+        """
 
         if isinstance(condition_type, str):
             condition_type = self.options[condition_type]
 
-        pattern = {}
-        unique_conditions = set([condition for conditions in self.values()
-                                for condition in conditions if isinstance(condition, condition_type)])
-
-        for unique in unique_conditions:
-            regions = [region for region in self if unique in self[region]]
-            pattern[get_pattern_from_sequence(regions)] = unique
+        unique_conditions = dict.fromkeys([condition for conditions in self.values()
+                                           for condition in conditions if isinstance(condition, condition_type)])
 
-        return pattern
+        return [(get_pattern_from_sequence([region for region in self if unique in self[region]]), unique)
+                for unique in unique_conditions]
 
     def clear(self) -> None:
         self.data = {region: [] for region in self}
-- 
2.43.0


From 93b954be6eb2e832bd1bd03d3084168fdedbf792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 23/35] fix: grid deformations can be applied to the mesh and
 used together with a flow solver

---
 dream/compressible/formulations/conservative.py | 4 ++--
 dream/mesh.py                                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index ecd4d56..f3c46ba 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -5,7 +5,7 @@ import typing
 import dream.bla as bla
 
 from dream.config import InterfaceConfiguration, interface
-from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial
+from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial, GridDeformation
 from dream.compressible.config import (flowfields,
                                        CompressibleFiniteElement,
                                        FarField,
@@ -514,7 +514,7 @@ class HDG(ConservativeMethod):
             elif isinstance(dc, SpongeLayer):
                 self.add_sponge_layer_formulation(terms, lf, dc, dom)
 
-            elif isinstance(dc, Initial):
+            elif isinstance(dc, (Initial, GridDeformation)):
                 continue
 
             else:
diff --git a/dream/mesh.py b/dream/mesh.py
index 0a76aac..2525b75 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -596,7 +596,7 @@ class DomainConditions(Conditions):
 
     def get_grid_deformation_function(self, grid_deformations: dict[str, GridDeformation] = None):
         if grid_deformations is None:
-            self.to_pattern(GridDeformation)
+            grid_deformations = self.to_pattern(GridDeformation)
         return self.get_buffer_function_(grid_deformations, GridDeformation)
 
     def get_sponge_layer_function(self, sponge_layers: dict[str, SpongeLayer] = None):
-- 
2.43.0


From eb0bd474465134b767df3fd4df131eb7d372cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 24/35] fix: initialising without initial conditions does not
 crash

---
 dream/compressible/formulations/conservative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index f3c46ba..452ad8a 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -890,6 +890,9 @@ class ConservativeFiniteElementMethod(CompressibleFiniteElement):
     def set_initial_conditions(self) -> None:
         super().set_initial_conditions()
 
+        if not self.cfg.dcs.has_condition(Initial):
+            return None
+
         U = self.mesh.MaterialCF({dom: ngs.CF(
             (self.cfg.density(dc.fields),
              self.cfg.momentum(dc.fields),
-- 
2.43.0


From 7fc5449b04967cbc7cdb22acd111c396dd0ffd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 25/35] fix: grid mappings reach the requested thickness for
 every scale and layer

---
 dream/mesh.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 2525b75..29288fb 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -160,7 +160,7 @@ class GridMapping:
 
         The thickness of the buffer layer is scaled by the factor 'scale'.
 
-        The constants c_0 and c_1 are determined by a fixpoint iteration.
+        The constants c_0 and c_1 are determined by a fixpoint iteration (Newton's method).
 
         .. math::
             f(x) = c_0 * (1 - \exp^{c_1 (x - x_0)}) + x_0
@@ -174,7 +174,10 @@ class GridMapping:
         start = coordinate.x0
         L = coordinate.xn - coordinate.x0
 
-        c1 = bla.fixpoint_iteration(L, lambda c: ngs.log(1 + scale * L * c)/L, it=100, tol=1e-16)
+        def newton(c):
+            return c - (c - ngs.log(1 + scale * L * c)/L)/(1 - scale/(1 + scale * L * c))
+
+        c1 = bla.fixpoint_iteration(2 * (scale - 1)/L, newton, it=100, tol=1e-16)
         c0 = -1/c1
 
         def map(x_): return c0 * (1 - ngs.exp(c1 * (x_ - start))) + start
@@ -187,7 +190,7 @@ class GridMapping:
 
         The thickness of the buffer layer is scaled by the factor 'scale'.
 
-        The constants c_0 and c_1 are determined by a fixpoint iteration.
+        The constants c_0 and c_1 are determined by a fixpoint iteration (Newton's method).
 
         .. math::
             f(x) = c_0 * (\tan{c_1 (x - x_0)}) + x_0
@@ -201,7 +204,10 @@ class GridMapping:
         start = coordinate.x0
         L = coordinate.xn - coordinate.x0
 
-        c1 = bla.fixpoint_iteration(L, lambda c: ngs.atan(scale * L * c)/L, it=100, tol=1e-16)
+        def newton(c):
+            return c - (c - ngs.atan(scale * L * c)/L)/(1 - scale/(1 + (scale * L * c)**2))
+
+        c1 = bla.fixpoint_iteration(ngs.pi/(2 * L), newton, it=100, tol=1e-16)
         c0 = 1/c1
 
         def map(x_): return c0 * ngs.tan(c1 * (x_ - start)) + start
-- 
2.43.0


From ef63c52d8426f9fde1fe31708f15fbc1165b6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 26/35] fix: removing the mapping of a deformed coordinate
 takes effect

---
 dream/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 29288fb..de35273 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -338,19 +338,19 @@ class GridDeformation(Buffer):
     @configuration(default=None)
     def x(self, x) -> GridMapping:
         map = self.check_mapping(x, ngs.x)
-        self.set_function(x=x)
+        self.set_function(x=map)
         return map
 
     @configuration(default=None)
     def y(self, y) -> GridMapping:
         map = self.check_mapping(y, ngs.y)
-        self.set_function(y=y)
+        self.set_function(y=map)
         return map
 
     @configuration(default=None)
     def z(self, z) -> GridMapping:
         map = self.check_mapping(z, ngs.z)
-        self.set_function(z=z)
+        self.set_function(z=map)
         return map
 
     def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None) -> None:
-- 
2.43.0


From 9e1f6c0a2c160b0a4d2e703b8988c5f32f966eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 27/35] fix: polynomial sponge orders can be given in any order

---
 dream/mesh.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dream/mesh.py b/dream/mesh.py
index de35273..2f76ac4 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -465,6 +465,17 @@ class PSpongeLayer(SpongeLayer):
 
         return int(low_order)
 
+    def update(self, dict=None, **kwargs):
+
+        options = {**kwargs, **(dict or {})}
+
+        # The limits are checked against each other, so the one that keeps them ordered comes first
+        limits = [key for key in ("high_order", "low_order") if key in options]
+        if len(limits) == 2 and options["high_order"] < self.low_order:
+            limits.reverse()
+
+        super().update({**{key: options[key] for key in limits}, **options})
+
     @property
     def is_equal_order(self) -> bool:
         return self.high_order == self.low_order
-- 
2.43.0


From 891b121efe640f60646b7d5e07bdd557de417677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 28/35] fix: polynomial sponge orders are applied to
 vector-valued element spaces

---
 dream/mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 2f76ac4..dbb9b19 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -678,10 +678,14 @@ class DomainConditions(Conditions):
 
                 domain = self.mesh.Materials(domain)
 
+                # The order of a vector-valued space is the one of its components
+                components = space.components if isinstance(space, ngs.VectorL2) else (space, )
+
                 for el in domain.Elements():
-                    space.SetOrder(ngs.NodeId(ngs.ELEMENT, el.nr), bc.high_order)
+                    for component in components:
+                        component.SetOrder(ngs.NodeId(ngs.ELEMENT, el.nr), bc.high_order)
 
-            space.UpdateDofTables()
+            space.Update()
 
         return space
 
-- 
2.43.0


From 62fd18cc3a27739a430184bff0e82a18893caf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 29/35] fix: ring meshes with overlapping elements are refused

---
 dream/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index dbb9b19..6beeee3 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -758,6 +758,11 @@ def get_cylinder_omesh(ri: float,
     if n_radial > int(n_polar/2):
         raise ValueError("n_radial > n_polar/2!")
 
+    # Each layer is twisted by half an element, its edges must not cut through the layer below
+    radii = [(ro - ri) * (j/n_radial)**geom + ri for j in range(n_radial + 1)]
+    if not all(0 < inner < outer * ngs.cos(ngs.pi/n_polar) for inner, outer in zip(radii, radii[1:])):
+        raise ValueError("Elements overlap! Layers are too thin for the number of elements in polar direction!")
+
     mesh = Mesh()
     mesh.dim = 2
 
@@ -779,7 +784,7 @@ def get_cylinder_omesh(ri: float,
             px = ngs.cos(2 * ngs.pi * i/n_polar + phi)
             py = ngs.sin(2 * ngs.pi * i/n_polar + phi)
 
-            r = (ro - ri) * (j/n_radial)**geom + ri
+            r = radii[j]
 
             pnums.append(mesh.Add(MeshPoint(Pnt(r * px, r * py, 0))))
 
-- 
2.43.0


From b1ed47fa33ece8cb5549c3662c2137e651069ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 30/35] fix: region sensors measure a single scalar field

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 590d293..12d6a5c 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -746,7 +746,7 @@ class RegionSensor(Sensor):
 
     def measure(self) -> typing.Generator[np.ndarray, None, None]:
         for region in self._regions.values():
-            yield np.array(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
+            yield np.atleast_1d(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
 
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
-- 
2.43.0


From 9ef6bc73aae6b339da389fd0fd9e09b84c7b220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 31/35] fix: boundary sensors without regions integrate along
 the boundary

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 12d6a5c..c38cd9f 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -751,7 +751,7 @@ class RegionSensor(Sensor):
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
         if self.regions is None:
-            self._regions = {get_pattern_from_sequence(expected): None}
+            self._regions = {get_pattern_from_sequence(expected): fregion('.*')}
 
         elif isinstance(self.regions, str):
             regions = get_regions_from_pattern(expected, self.regions)
-- 
2.43.0


From b4cd855184b407b959d76c501d8997995c08755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 32/35] fix: sensor header of rectangular matrix fields

---
 dream/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index c38cd9f..3b59d58 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -713,10 +713,9 @@ class Sensor(UniqueConfiguration):
             return bla.SCALAR_COMPONENT
         elif bla.is_vector(cf) and cf.dim <= 3:
             return bla.VECTOR_COMPONENT[:cf.dim]
-        elif bla.is_matrix(cf) and cf.dim <= 9:
-            if tuple(cf.dims) == (2, 2):
-                return (bla.MATRIX_COMPONENT[0], bla.MATRIX_COMPONENT[1], bla.MATRIX_COMPONENT[3], bla.MATRIX_COMPONENT[4])
-            return bla.MATRIX_COMPONENT
+        elif bla.is_matrix(cf) and max(cf.dims) <= 3:
+            rows, columns = cf.dims
+            return tuple(bla.MATRIX_COMPONENT[3*i + j] for i in range(rows) for j in range(columns))
         else:
             return tuple(range(cf.dim))
 
-- 
2.43.0


From 2a05e1809fe4f5d6bfa540525a9e3c12c23ce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 33/35] fix: rows of stationary sensors are aligned with their
 header

---
 dream/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index 3b59d58..00edab0 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -617,11 +617,8 @@ class SensorStream(Stream):
 
         for sensor, data in self.measure():
 
-            if t is not None:
-                data = [t, *data]
-
             if self.to_csv:
-                self.csv[sensor.sensor_name][1].writerow(data)
+                self.csv[sensor.sensor_name][1].writerow([' ' if t is None else t, *data])
 
     def save_in_time_routine(self,  t: float, it: int) -> None:
         for sensor, data in self.measure():
@@ -633,17 +630,20 @@ class SensorStream(Stream):
         for sensor, data in self.measure():
             if t is None:
                 if self.to_csv:
-                    self.csv[sensor.sensor_name][1].writerow(data)
+                    self.csv[sensor.sensor_name][1].writerow([' ', *data])
             elif not it % sensor.rate == 0:
                 if self.to_csv:
                     self.csv[sensor.sensor_name][1].writerow([t, *data])
 
-    def load_as_dataframe(self, sensor: Sensor | str, header: tuple = [0, 1, 2, 3], index_col: int = [0], **pd_kwargs):
+    def load_as_dataframe(self, sensor: Sensor | str, header: tuple | None = None, index_col: int = [0], **pd_kwargs):
         import pandas as pd
 
         if isinstance(sensor, Sensor):
             sensor = sensor.sensor_name
 
+        if header is None:
+            header = [0, 1, 2] if self.cfg.time.is_stationary else [0, 1, 2, 3]
+
         return pd.read_csv(self.path.joinpath(sensor + ".csv"), header=header, index_col=index_col, **pd_kwargs)
 
     def measure(self) -> typing.Generator[tuple[Sensor, np.ndarray], None, None]:
-- 
2.43.0


From de6eef0c71972574fbeff12f90cb5a29a72846bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 34/35] fix: sensors of the same name do not write to the same
 file

---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index 00edab0..f0aaed2 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -590,6 +590,10 @@ class SensorStream(Stream):
     def open_csv_writers(self):
         import csv
 
+        names = [sensor.sensor_name for sensor in self.sensors]
+        if len(set(names)) < len(names):
+            raise ValueError(f"Sensor names have to be unique! Got {names}")
+
         self.csv = {}
         for sensor in self.sensors:
             file = self.path.joinpath(sensor.sensor_name + ".csv").open(self.mode)
-- 
2.43.0


From fddc9ccfc90d9dd2ebf5337ee882d0a886236a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 35/35] fix: every configuration keeps its own information

---
 dream/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/solver.py b/dream/solver.py
index 04c4f39..efe26b7 100644
--- a/dream/solver.py
+++ b/dream/solver.py
@@ -354,7 +354,7 @@ class SolverConfiguration(InterfaceConfiguration, is_interface=True):
         if not isinstance(info, dict):
             raise ValueError("Info must be a dictionary!")
 
-        return info
+        return dict(info)
 
     def initialize(self) -> None:
         self.initialize_finite_element_spaces()
-- 
2.43.0

