From bbf92208d985d1b4f850c9206719aace9a362605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 01/16] fix: entropic Hessian must divide by the molecule sizes

---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From bfb83cf68f098529bdad5b81fd7809e6356c5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 02/16] fix: hand the compiled canonical ensemble an owned
 contiguous float array

Broadcast phi_means are stride-0 views and the compiled class read beyond
them; integer phi_means were rejected by the compiled class.
---
 flory/ensemble/canonical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..c04a431 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,4 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(np.array(self._phi_means, dtype=np.float64))
-- 
2.43.0


From 89c68e2446aae85cea01f6b691a82364d99563f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 03/16] fix: compiled grand canonical ensemble owns its
 activities as floats

Integer activities crashed, and later in-place changes of the ensemble
leaked into finders that had already been created.
---
 flory/ensemble/grandcanonical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..48e1c41 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,4 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(self._scaled_activity.astype(np.float64))
-- 
2.43.0


From 456d1c62f10aaa733ff61ad7856a98509524c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 04/16] fix: block interaction symmetrizes asymmetric chis_feat
 instead of crashing

---
 flory/interaction/flory_huggins_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..0223d56 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -52,6 +52,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 The number of components in each feature. An integer indicates that this
                 value is the same for all features.
         """
+        self._logger = logging.getLogger(self.__class__.__name__)
         self.num_feat = num_feat
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
-- 
2.43.0


From 5c92be695f649ac8f4ba5939330cb4ecc89736c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 05/16] fix: setter of chis_feat refers to the existing
 attribute num_feat

---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 0223d56..af408e0 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -93,7 +93,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From 86ba7e9be96965b11442b598309b34230484437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 06/16] fix: compiled block interaction owns its interaction
 matrix

---
 flory/interaction/flory_huggins.py       | 2 +-
 flory/interaction/flory_huggins_block.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..163d548 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -132,7 +132,7 @@ class FloryHugginsInteractionBase(InteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis, -self._chis.min() + additional_chis_shift
+            self._chis.astype(np.float64), -self._chis.min() + additional_chis_shift
         )
 
     def _energy_impl(self, phis: np.ndarray) -> np.ndarray:
diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index af408e0..4295e7c 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -125,5 +125,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            self._chis_feat.astype(np.float64),
+            -self._chis_feat.min() + additional_chis_shift,
         )
-- 
2.43.0


From cecaaaf1c0e9f484981c0d1ed60f189feeb243d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 07/16] fix: uniform chis are always floats

An integer matrix silently truncated entries assigned by set_random_chis.
---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 163d548..4253209 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, dtype=float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From 17f750bac76cbc1ff5f092fe650a6f1d88bc3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 08/16] fix: compiled linear constraints own C-contiguous
 coefficients

Fortran-ordered Cs were rejected by the compiled classes, and later
in-place changes of the constraint leaked into existing finders.
---
 flory/constraint/linear_global.py | 5 ++++-
 flory/constraint/linear_local.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..0223251 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..0400c2e 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, order="C"),
+            np.array(self._Ts),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
-- 
2.43.0


From cb10fc7d1c3cc3466e6ab94f999fb950fb01c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 09/16] fix: accept integer fields when reinitializing the
 finder

---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..5f026cb 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float)
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From 285782e84652eb85e90432ee4a68583c142e3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 10/16] fix: the field error is the maximum of the absolute
 differences

---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From a757dc611f4ef6a00d90298818ee5e15ee118d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 11/16] fix: get_clusters returns sorted phases as documented

---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..8e5d38a 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,7 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(cluster_volumes, cluster_fractions).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0


From e89619254330a12548f595cc1a5a9dbe55fb31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 12/16] fix: run returns fractions of volume as documented

---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 5f026cb..e06faaa 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -683,4 +683,4 @@ class CoexistingPhasesFinder:
         }
 
         # transpose phi since `Phases` uses a different convention
-        return Phases(final_Js, final_phis_comp.T)
+        return Phases(final_Js, final_phis_comp.T).normalize()
-- 
2.43.0


From 692bb8ee0aeb7acb93680016f89560003ea07653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:12 +0000
Subject: [PATCH 13/16] fix: a rejected part must not replace the one in the
 finder

The setters stored the new compiled instance before checking its size, so a
caught size mismatch left the finder broken (and could crash the process).
---
 flory/mcmp/finder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index e06faaa..1c22b91 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,9 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
-            **{**self._kwargs_for_instances, **kwargs}
-        )
-        self.check_instance(self._interaction)
+        compiled = interaction.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._interaction = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +347,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._entropy = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +370,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        compiled = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._ensemble = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +401,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        compiled = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                compiled.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,16 +415,17 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    compiled.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            compiled.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in compiled:
             self.check_instance(cons)
+        self._constraints = compiled
 
         self.reinitialize_constraint()
 
-- 
2.43.0


From 2c052ff54d12a3005a7ce1b2eb09952bb991e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:56 +0000
Subject: [PATCH 14/16] fix: reviving by copy must terminate when no large
 compartment is left

Without any compartment above twice the kill threshold the function sampled
from an empty list and accessed memory out of bounds.
---
 flory/mcmp/_finder_impl.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..4c16752 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -185,24 +185,37 @@ def revive_compartments_by_copy(
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
 
+    living = Js > threshold
     for itr_dead in dead_indexes[:dead_count]:
-        while True:
+        ref_index = -1
+        while living_nicely_count > 0:
             pos_in_living = rng.integers(0, living_nicely_count)
             ref_index = living_nicely_indexes[pos_in_living]
-            if Js[int(ref_index)] > 2.0 * threshold:
-                targets[:, itr_dead] = targets[:, ref_index]
-                new_J = 0.5 * Js[ref_index]
-                Js[itr_dead] = new_J
-                Js[ref_index] = new_J
-                living_nicely_indexes[living_nicely_count] = itr_dead
-                living_nicely_count += 1
-                revive_count += 1
+            if Js[ref_index] > 2.0 * threshold:
                 break
+            ref_index = -1
             living_nicely_count -= 1
             living_nicely_indexes[pos_in_living] = living_nicely_indexes[
                 living_nicely_count
             ]
             living_nicely_indexes[living_nicely_count] = -1
+        if ref_index < 0:
+            # no compartment is large enough, fall back to the largest living one
+            for itr_compartment in range(num_part):
+                if living[itr_compartment] and (
+                    ref_index < 0 or Js[itr_compartment] > Js[ref_index]
+                ):
+                    ref_index = itr_compartment
+            if ref_index < 0:
+                break  # there is nothing to copy from
+        targets[:, itr_dead] = targets[:, ref_index]
+        new_J = 0.5 * Js[ref_index]
+        Js[itr_dead] = new_J
+        Js[ref_index] = new_J
+        living[itr_dead] = True
+        living_nicely_indexes[living_nicely_count] = itr_dead
+        living_nicely_count += 1
+        revive_count += 1
     return revive_count
 
 
-- 
2.43.0


From befe24ca942b7af11155ef0864640dc5a714ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 15/16] fix: reject individual options for another number of
 constraints

Constraints beyond the end of kwargs_individual were silently dropped.
---
 flory/mcmp/finder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 1c22b91..55ee4fc 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -414,6 +414,10 @@ class CoexistingPhasesFinder:
             elif isinstance(constraints, Iterable):
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
+                elif len(kwargs_individual) != len(constraints):
+                    raise ValueError(
+                        "Individual keyword arguments must match the constraints."
+                    )
                 for cons, current_args in zip(constraints, kwargs_individual):
                     compiled.append(
                         cons.compiled(
-- 
2.43.0


From ca94ffe2fd3f12de5a66c7e5a2eaf13478b3e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 16/16] fix: features without components have no volume
 fraction

The sum over the components of a feature started with the next component
unconditionally, so that features without components took over the component
of the following feature and the last components were read out of bounds.
---
 flory/entropy/ideal_gas_polydispersed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flory/entropy/ideal_gas_polydispersed.py b/flory/entropy/ideal_gas_polydispersed.py
index a7e3674..3efaef3 100644
--- a/flory/entropy/ideal_gas_polydispersed.py
+++ b/flory/entropy/ideal_gas_polydispersed.py
@@ -84,9 +84,8 @@ class IdealGasPolydispersedEntropyCompiled(EntropyBaseCompiled):
     def comp_to_feat(self, phis_feat: np.ndarray, phis_comp: np.ndarray) -> None:
         itr_comp = 0
         for itr_feat in range(self._num_feat):
-            phis_feat[itr_feat] = phis_comp[itr_comp]
-            itr_comp += 1
-            for _ in range(1, self._num_comp_per_feat[itr_feat]):
+            phis_feat[itr_feat] = 0.0  # features may be without components
+            for _ in range(self._num_comp_per_feat[itr_feat]):
                 phis_feat[itr_feat] += phis_comp[itr_comp]
                 itr_comp += 1
 
-- 
2.43.0

