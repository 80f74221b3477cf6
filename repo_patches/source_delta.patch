From 7e323f81a80f809d3d2d2c455bb5af92439194a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 01/61] fix: Categorical.marginalize keeps axes aligned with
 the variables it labels

---
 veroku/factors/categorical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..f2ad475 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,8 +278,13 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
+        # only drop the summed out axes (remaining variables could also have a cardinality of one)
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        # the remaining axes are still in the order of self.var_names
+        remaining_vars = [v for v in self.var_names if v in vars_to_keep]
+        result_tensor = result_tensor.transpose([remaining_vars.index(v) for v in vars_to_keep])
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From eb7b9c97017a1397c5c4168e11681e3ebbb47831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 02/61] fix: Categorical.cancel applies the 0/0 rule to aligned
 tables and checks its argument

---
 veroku/factors/categorical.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index f2ad475..7119e69 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -361,17 +361,17 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
+        if not isinstance(factor, Categorical):
+            raise TypeError(f"factor must be of Categorical type but has type {type(factor)}")
+        self._assert_consistent_cardinalities(factor)
 
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def cancel_log_probs(log_probs_a, log_probs_b):
+            # applied after the tensors are aligned, so that the special case also holds for different scopes/orders
+            both_zero = (log_probs_a == -np.inf) & (log_probs_b == -np.inf)
+            return log_probs_a - np.where(both_zero, 0.0, log_probs_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, cancel_log_probs
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From 5dedaaa2baa1ae449226785ae0ca29e60660628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 03/61] fix: Gaussian.equals no longer reorders the parameters
 of the factor it is given

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..023bb94 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
-- 
2.43.0


From 12bd58317da17a8540dbe591058df3a770b0dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 04/61] fix: Gaussian.kl_divergence aligns the variable order
 of the two factors

---
 veroku/factors/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 023bb94..58f8a8f 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -739,9 +739,11 @@ class Gaussian(Factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-        factor_ = factor
+        factor_ = factor.copy()
         if normalize_factor:
             factor_ = factor.normalize()
+        # the parameters of the two factors can only be combined if they have the same variable order
+        factor_._reorder_parameters(self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From 62abe55a6c78bdce5c5a145a13140bf837db4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 05/61] fix: linear Gaussian factors support non-square
 transform matrices

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 58f8a8f..775b247 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,7 +123,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-- 
2.43.0


From 229458f79fd4d2ba86c48c28a86804a546a67228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 06/61] fix: SparseCategorical.reorder keeps the default
 probability

---
 veroku/factors/sparse_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..4432a6f 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -921,6 +921,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 9fa3c23620ee5097e03931dd183ee0a0bf4c2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 07/61] fix: SparseCategorical reduce and potential treat
 missing assignments as default ones

---
 veroku/factors/sparse_categorical.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 4432a6f..80ebcb7 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,20 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        # assignments that are not in the table have the default probability
+        lp_table = nested_table.get(tuple(values), dict())
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(
+            var_names=var_names,
+            log_probs_table=lp_table,
+            cardinalities=cards,
+            default_log_prob=self.default_log_prob,
+        )
 
         return resulting_factor
 
@@ -832,7 +838,7 @@ class SparseCategorical(Factor):
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
         vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
         var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From 92fcf5ae603cd2cc337df09259be47a5306f2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 08/61] fix: factor results no longer have a hash order
 dependent variable order

---
 veroku/factors/_factor.py            | 2 +-
 veroku/factors/sparse_categorical.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..22a72c4 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -59,7 +59,7 @@ class Factor:
             vrs = [vrs]
         if keep:
             return vrs.copy()
-        return list(set(self.var_names) - set(vrs))
+        return [v for v in self.var_names if v not in vrs]
 
     @abstractmethod
     def distance_from_vacuous(self):
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 80ebcb7..f4f5252 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -672,7 +672,7 @@ class SparseCategorical(Factor):
         intersection_vars = list(set(self.var_names).intersection(set(factor.var_names)))
         intersection_vars = sorted(intersection_vars)
 
-        remaining_a_vars = list(set(self.var_names) - set(intersection_vars))
+        remaining_a_vars = [v for v in self.var_names if v not in intersection_vars]
         ntd_a, _ = _get_nested_sorted_probs(
             new_variables_order_outer=remaining_a_vars,
             new_variables_order_inner=intersection_vars,
@@ -680,7 +680,7 @@ class SparseCategorical(Factor):
             old_assign_probs=self.log_probs_table,
         )
 
-        remaining_b_vars = list(set(factor.var_names) - set(intersection_vars))
+        remaining_b_vars = [v for v in factor.var_names if v not in intersection_vars]
         ntd_b, _ = _get_nested_sorted_probs(
             new_variables_order_outer=remaining_b_vars,
             new_variables_order_inner=intersection_vars,
-- 
2.43.0


From ccea265f8f9078075ab090bcbb8cd0cc83b71214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 09/61] fix: FactorizedFactor variable order no longer depends
 on string hashing

---
 veroku/factors/experimental/factorised_factor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..d9deb99 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -29,7 +29,8 @@ class FactorizedFactor(Factor):
         """
         assert all([not isinstance(factor, FactorizedFactor) for factor in factors])
         factors_var_name_lists = [factor.var_names for factor in factors]
-        factors_var_name = list({var_name for sublist in factors_var_name_lists for var_name in sublist})
+        # a dict (rather than a set) is used here to keep the order of the variables
+        factors_var_name = list({var_name: None for sublist in factors_var_name_lists for var_name in sublist})
         super().__init__(var_names=factors_var_name)
         self.factors = []
         for factor in factors:
-- 
2.43.0


From c52e50ef4ecbcebbf3447fc234a57954d302f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 10/61] fix: FactorizedFactor.multiply extends the scope and
 copies the factor it adds

---
 veroku/factors/experimental/factorised_factor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index d9deb99..c955b01 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -78,7 +78,9 @@ class FactorizedFactor(Factor):
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
-            factorised_factor_copy.factors.append(factor)
+            # a new factor is made here to ensure that the scope includes any new variables
+            new_factors = factor.factors if isinstance(factor, FactorizedFactor) else [factor]
+            return FactorizedFactor(factorised_factor_copy.factors + new_factors)
         return factorised_factor_copy
 
     def divide(self, factor):
-- 
2.43.0


From d11b038506b5fe6cf6e236ac7c2cf22aa99e7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 11/61] fix: FactorizedFactor.divide updates the scope when it
 removes a component

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index c955b01..83c6d60 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -98,7 +98,7 @@ class FactorizedFactor(Factor):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
                     del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(factorised_factor_copy.factors)
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From 4ea87a3c83a15391141189a9a4b63b6c475a4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 12/61] fix: FactorizedFactor merges chains of overlapping
 components before integrating or normalizing

---
 .../factors/experimental/factorised_factor.py | 46 ++++++-------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 83c6d60..af28d12 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -161,8 +161,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -233,18 +232,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        merged_factor = self.copy()
+        merged_factor._merge_factors_with_shared_scope(set(self.var_names))
+        return merged_factor
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
@@ -256,24 +246,18 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
-        for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
         merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
+        for factor in self.factors:
+            merged_factor = factor
+            remaining_factors = []
+            for other_factor in merged_factors:
+                # compare with the (growing) merged factor, so that chains of overlapping factors are merged as well
+                shared_vars = set(merged_factor.var_names).intersection(other_factor.var_names)
+                if shared_vars.intersection(vrs_set):
+                    merged_factor = other_factor.multiply(merged_factor)
+                else:
+                    remaining_factors.append(other_factor)
+            merged_factors = remaining_factors + [merged_factor]
         self.factors = merged_factors
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 34f414b5410f00b2a7a6147e7ca15532b97b5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 13/61] fix: FactorizedFactor.reduce handles components whose
 scope is a strict subset of the evidence

---
 veroku/factors/experimental/factorised_factor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index af28d12..dc909dc 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -276,12 +276,12 @@ class FactorizedFactor(Factor):
         additional_log_weight = 0.0
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
-            elif len(set(vrs).intersection(set(factor_var_names))) > 0:
-                subset_vrs, subset_values = get_subset_evidence(
-                    all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
-                )
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor_var_names
+            )
+            if set(subset_vrs) == set(factor_var_names):
+                additional_log_weight += factor.log_potential(x_val=subset_values, vrs=subset_vrs)
+            elif len(subset_vrs) > 0:
                 reduced_factor = factor.reduce(subset_vrs, subset_values)
                 reduced_factors.append(reduced_factor)
             else:
-- 
2.43.0


From ce036402430e065c6e4b69a9b122e89ea043114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 14/61] fix: FactorizedFactor.equals handles repeated
 components and uses the given tolerances

---
 .../factors/experimental/factorised_factor.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index dc909dc..5292498 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -334,21 +334,21 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
         if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
-            return True
-        return False
+            return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
+
+        unmatched_factors = list(factor.factors)
+        for self_factor_i in self.factors:
+            for j, other_factor_j in enumerate(unmatched_factors):
+                if self_factor_i.equals(other_factor_j, rtol=rtol, atol=atol):
+                    del unmatched_factors[j]
+                    break
+            else:
+                return False
+        return True
 
     def show(self):
         """
-- 
2.43.0


From 8a25a141e2ce7666891a2b35791f8497a946f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 15/61] fix: FactorizedFactor.show enumerates its components

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 5292498..d4378cf 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -354,6 +354,6 @@ class FactorizedFactor(Factor):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From 26a44cd89777a5b84fec06e061fc82d2333fb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 16/61] fix: GaussianMixture.equals does not depend on the
 component order and uses the given tolerances

---
 veroku/factors/experimental/gaussian_mixture.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..4ec42b7 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,12 +104,13 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
+        unmatched_components = list(factor.components)
+        for comp in self.components:
+            for j, other_comp in enumerate(unmatched_components):
+                if comp.equals(other_comp, rtol=rtol, atol=atol):
+                    del unmatched_components[j]
+                    break
+            else:
                 return False
         return True
 
-- 
2.43.0


From 920e81db4e4203d28f68ba5f8f62a9d4d29d5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 17/61] fix: GaussianMixture operations keep the chosen
 division method

---
 veroku/factors/experimental/gaussian_mixture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 4ec42b7..2791e4c 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -135,7 +135,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
@@ -156,7 +156,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -185,7 +185,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -201,7 +201,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -217,7 +217,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -338,7 +338,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
-- 
2.43.0


From 63e8529976754f3ea6543ccdadcbd5dd79cbe19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 18/61] fix: ClusterGraph.get_posterior_joint handles paths
 along which no message has been passed

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From 81ec9536c8ae645440886d6d1b1556a4b062762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 19/61] fix: single cluster graphs can be processed more than
 once

---
 veroku/cluster_graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..5d13f9f 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -431,11 +431,14 @@ class ClusterGraph:
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
             if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
-                self._clusters[0]._factor = self._clusters[0]._factor.reduce(
-                    vrs=evidence_vrs, values=evidence_values
+                evidence_vrs, evidence_values = get_subset_evidence(
+                    self.special_evidence, self._clusters[0].var_names
                 )
+                # the evidence would already have been observed if the graph has been processed before
+                if len(evidence_vrs) > 0:
+                    self._clusters[0]._factor = self._clusters[0]._factor.reduce(
+                        vrs=evidence_vrs, values=evidence_values
+                    )
             return
 
         # TODO: see if the definition of max_iter can be improved
-- 
2.43.0


From e39645e65b56acf87d7414e8281a1153ca6dc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 20/61] fix: cluster graph sepset variable order no longer
 depends on string hashing

---
 veroku/cluster_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 5d13f9f..75d3c13 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -319,7 +319,8 @@ class ClusterGraph:
         all_vars = []
         for cluster in self._clusters:
             all_vars += cluster.var_names
-        unique_vars = list(set(all_vars))
+        # keep the order in which the variables are found (the order of a set of strings can differ between runs)
+        unique_vars = list(dict.fromkeys(all_vars))
         return unique_vars
 
     def _get_vars_min_spanning_trees(self):
-- 
2.43.0


From 7b18feb6deaf5dcae2b9dec49320fbb7af926a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 21/61] fix: FactorizedFactor.kl_divergence compares with the
 other factor's joint distribution

---
 veroku/factors/experimental/factorised_factor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index d4378cf..f08a3d7 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -133,17 +133,19 @@ class FactorizedFactor(Factor):
         # TODO: improve this
         return self.joint_distribution.distance_from_vacuous()
 
-    def kl_divergence(self, factor):
+    def kl_divergence(self, factor, normalize_factor=True):
         """
         Get the KL-divergence D_KL(self || factor) between a normalized version of this factor and another factor.
 
         :param factor: The other factor
         :type factor: Factor
+        :param normalize_factor: Whether or not to normalize the other factor before computing the KL-divergence.
+        :type normalize_factor: bool
         :return: The Kullback-Leibler divergence
         :rtype: float
         """
         # TODO: Make this more efficient.
-        return self.joint_distribution.kl_divergence(factor)
+        return self.joint_distribution.kl_divergence(factor.joint_distribution, normalize_factor=normalize_factor)
 
     @property
     def num_factors(self):
-- 
2.43.0


From 1fa8301fd0197f340be0e55916687b3253cf93bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 22/61] fix: factors no longer alias the variable name and
 cardinality lists they are made with

---
 veroku/factors/_factor.py            | 2 +-
 veroku/factors/categorical.py        | 2 +-
 veroku/factors/sparse_categorical.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 22a72c4..bba46d8 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,7 +22,7 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
+        self._var_names = copy.deepcopy(var_names)
         if not isinstance(var_names, list):
             self._var_names = [var_names]
 
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 7119e69..ea38488 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f4f5252..89a64fc 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -421,7 +421,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 8b73c5cdaa584b972d1740638b8cfb8b25647574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 23/61] fix: factor templates no longer alias the parameters
 they are made with

---
 veroku/factors/categorical.py        | 4 ++--
 veroku/factors/gaussian.py           | 4 ++--
 veroku/factors/sparse_categorical.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index ea38488..e600111 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -647,8 +647,8 @@ class CategoricalTemplate(FactorTemplate):
         """
         super().__init__(var_templates=var_templates)
         self.log_probs_tensor = copy.deepcopy(log_probs_tensor)
-        self.cardinalities = cardinalities
-        self.probs_table = probs_table
+        self.cardinalities = copy.deepcopy(cardinalities)
+        self.probs_table = copy.deepcopy(probs_table)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 775b247..2f9dded 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1063,8 +1063,8 @@ class GaussianTemplate(FactorTemplate):
         """
 
         super().__init__(var_templates=var_templates)
-        self.prec = gaussian_parameters["prec"]
-        self.h_vec = gaussian_parameters["h"]
+        self.prec = copy.deepcopy(gaussian_parameters["prec"])
+        self.h_vec = copy.deepcopy(gaussian_parameters["h"])
         self.g_val = gaussian_parameters["g"]
 
     def make_factor(self, format_dict=None, var_names=None):
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 89a64fc..5064267 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -966,7 +966,7 @@ class SparseCategoricalTemplate(FactorTemplate):
         # TODO: Complete and improve docstring.
         super().__init__(var_templates=var_templates)
         self.probs_table = _fast_copy_probs_table(probs_table)
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
-- 
2.43.0


From 1af519083ad305910215fc846fbf9265d9123a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 24/61] fix: templates and cluster graphs keep their own copy
 of the templates and evidence they are given

---
 veroku/cluster_graph.py                           | 2 +-
 veroku/factors/_factor_template.py                | 7 ++++---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 75d3c13..16b6d52 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -139,7 +139,7 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if special_evidence is None:
             special_evidence = dict()
-        self.special_evidence = special_evidence
+        self.special_evidence = dict(special_evidence)
         all_evidence_vars = set(self.special_evidence.keys())
         if evidence is not None:
             evidence_vars = set(evidence.keys())
diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index c33f034..34eff84 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -4,6 +4,7 @@ This module contains an abstract parent class, defining the some common default
 
 
 from abc import ABC
+import copy
 
 
 class FactorTemplate(ABC):
@@ -24,15 +25,15 @@ class FactorTemplate(ABC):
         self._conditioning_var_templates = None
         self._conditional_var_templates = None
         if (conditioning_var_templates is None) and (conditional_var_templates is None):
-            self._var_templates = var_templates
+            self._var_templates = copy.deepcopy(var_templates)
         elif (conditioning_var_templates is None) or (conditional_var_templates is None):
             error_msg = (
                 "neither or both of conditioning_var_templates and conditional_var_templates should be None"
             )
             raise ValueError(error_msg)
         else:
-            self._conditioning_var_templates = conditioning_var_templates
-            self._conditional_var_templates = conditional_var_templates
+            self._conditioning_var_templates = copy.deepcopy(conditioning_var_templates)
+            self._conditional_var_templates = copy.deepcopy(conditional_var_templates)
 
     def formattable(self, format_dict):
         """
diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..626009c 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -677,7 +677,7 @@ class NonLinearGaussianTemplate(FactorTemplate):
             conditional_var_templates=conditional_var_templates,
         )
         self.transition_function = transition_function
-        self.noise_cov = noise_cov
+        self.noise_cov = copy.deepcopy(noise_cov)
 
     def make_factor(self, format_dict=None, conditioning_vars=None, conditional_vars=None):
         """
-- 
2.43.0


From c9f4a4ecfffa1b4b3221b97cce7f53cb20b39aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 25/61] fix: NonLinearGaussian.equals compares the up to date
 joint distributions

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 626009c..3e8f5f1 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,7 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From 652e83329bf05cd35c6afc5810e88d160cc8ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 26/61] fix: NonLinearGaussian.plot shows the recomputed joint
 distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 3e8f5f1..4768c24 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -484,7 +484,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._recompute_joint()
-        self._joint_distribution.plot()
+        self_copy._joint_distribution.plot()
 
 
 class NonLinearGaussianMixture(Factor):
-- 
2.43.0


From 40894a1162c601dd89034f56498a79cac6c43907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 27/61] fix: NonLinearGaussianMixture can be multiplied with a
 Gaussian and marginalized

---
 veroku/factors/experimental/nonlinear_gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 4768c24..93c816a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -550,7 +550,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
@@ -607,12 +607,12 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+        return GaussianMixture(new_nlgs)
 
     def sample(self, num_samples):
         """
-- 
2.43.0


From b871b6849687e159cc92bec2822ebedc7a640c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 28/61] fix: NonLinearGaussianMixture operations keep the
 splitting option

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 93c816a..077ae2f 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -530,7 +530,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -564,7 +564,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -584,7 +584,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -598,7 +598,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
-- 
2.43.0


From bda17ff3de2177d82eded2207fc144e517c2bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 29/61] fix: NonLinearGaussian supports observing all the
 conditioning variables without a conditioning factor

---
 veroku/factors/experimental/nonlinear_gaussian.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 077ae2f..deb85df 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -254,6 +254,8 @@ class NonLinearGaussian(Factor):
 
         # If we are still here, there we can calculate the transformation.
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        unobserved_conditioning_vars = []
+        conditioning_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
@@ -265,16 +267,18 @@ class NonLinearGaussian(Factor):
                 )
 
             conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            unobserved_conditioning_vars = conditioning_factor.var_names
+            conditioning_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
             tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
             extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_observed_vars + unobserved_conditioning_vars
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = unobserved_conditioning_vars
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +293,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = unobserved_conditioning_vars + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_log_weight
         self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                             mean=joint_mean,
                                             log_weight=joint_log_weight,
-- 
2.43.0


From b019ec69dff5ff492edb48f5123361fb15f89578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 30/61] fix: animation recolouring matches node names literally

---
 veroku/_cg_helpers/_animation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..efa7ae0 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -109,15 +109,18 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     :param new_color: The new color of the edge (i.e 'green', 'blue', 'red')
     """
 
+    # the names should be matched literally
+    name_a_pattern = re.escape(node_a_name)
+    name_b_pattern = re.escape(node_b_name)
     edge_found = False
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                pattern = f'(\\t?"?{name_a_pattern}"?\s--\s"?{name_b_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(\\t?"?{name_b_pattern}"?\s--\s"?{name_a_pattern}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -140,7 +143,7 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0


From d490044751303c3483c1f426c2eebf4424f5f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 31/61] fix: the / operator divides factors in Python 3

---
 veroku/factors/_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index bba46d8..b085d25 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -203,7 +203,7 @@ class Factor:
         """
         return self.multiply(other)
 
-    def __div__(self, other):
+    def __truediv__(self, other):
         """
         Divide this factor with another factor.
 
-- 
2.43.0


From 5b92263f5a42cc84721d48461cca38ee0afba6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 32/61] fix: GaussianTemplate no longer marks informative
 factors as vacuous

---
 veroku/factors/gaussian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2f9dded..038362e 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1081,7 +1081,4 @@ class GaussianTemplate(FactorTemplate):
         if format_dict is not None:
             assert var_names is None
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
-        # TODO: remove this and find better solution
-        g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
-        return g_val
+        return Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-- 
2.43.0


From 9b5f72f8228288950af857c5c5a7acb65fdf09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 33/61] fix: linear Gaussian templates keep the normalizing
 constant

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 038362e..3cb62c3 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -127,7 +127,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From 5ce9216f97fa92d6d582ad335b38cc2589d1e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 34/61] fix: NonLinearGaussianMixture implements the equality
 check

---
 .../experimental/nonlinear_gaussian.py        | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index deb85df..25777a8 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -521,6 +521,27 @@ class NonLinearGaussianMixture(Factor):
             self.nlgs.append(factor.copy())
         self.split_singles_before_absorb = split_singles_before_absorb
 
+    def equals(self, factor, rtol=DEFAULT_FACTOR_RTOL, atol=DEFAULT_FACTOR_ATOL):
+        """
+        Check if this factor is the same as another factor.
+
+        :param factor: The other factor to compare to.
+        :param float rtol: The relative tolerance to use for factor equality check.
+        :param float atol: The absolute tolerance to use for factor equality check.
+        :return: The result of the comparison.
+        :rtype: bool
+        """
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
+
+    def distance_from_vacuous(self):
+        """
+        NOTE: Not Implemented yet.
+        Get the Kullback-Leibler (KL) divergence between the factor and a vacuous (uniform) version of it.
+
+        :return: The KL-divergence
+        """
+        raise NotImplementedError('This function has not been implemented yet.')
+
     def normalize(self):
         """
         Normalise the factor (not yet implemented).
-- 
2.43.0


From bb78d4db89d73041787173a1fec475caffbc9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 35/61] fix: SparseCategorical.potential with rotated variable
 orders

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 5064267..39be186 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -836,7 +836,7 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
+        vrs_to_var_names_indices = [vrs.index(v) for v in self.var_names]
         var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
         return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
-- 
2.43.0


From 5b2a75cea2f325262712c80decfbee50be14bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 36/61] fix: multiply and divide a factorised factor by another
 factorised factor part by part

---
 veroku/factors/experimental/factorised_factor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index f08a3d7..46f6790 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -74,13 +74,16 @@ class FactorizedFactor(Factor):
         # TODO: add preference for factors with conditioning scope? Not sure if practically necessary,
         #  but would be best.
         factorised_factor_copy = self.copy()
+        if isinstance(factor, FactorizedFactor):
+            for factor_part in factor.factors:
+                factorised_factor_copy = factorised_factor_copy.multiply(factor_part)
+            return factorised_factor_copy
         index = factorised_factor_copy._first_factor_with_vars_index(factor.var_names)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
             # a new factor is made here to ensure that the scope includes any new variables
-            new_factors = factor.factors if isinstance(factor, FactorizedFactor) else [factor]
-            return FactorizedFactor(factorised_factor_copy.factors + new_factors)
+            return FactorizedFactor(factorised_factor_copy.factors + [factor])
         return factorised_factor_copy
 
     def divide(self, factor):
@@ -92,6 +95,10 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         factorised_factor_copy = self.copy()
+        if isinstance(factor, FactorizedFactor):
+            for factor_part in factor.factors:
+                factorised_factor_copy = factorised_factor_copy.divide(factor_part)
+            return factorised_factor_copy
         index = factorised_factor_copy._first_factor_with_vars_index(factor.var_names)
 
         for i, factorised_comp in enumerate(self.factors):
-- 
2.43.0


From ef3fb908e697f7b0f79c6fbdaffc527bbb76366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 37/61] fix: divide sparse tables over disjoint variables

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 39be186..9fa12c1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -62,7 +62,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = {assignment: default_value for assignment in dense_assingments}
     return dense_default_dict
 
 
-- 
2.43.0


From 85e8fb89ceb9d8c9eaae8cfbbf25a7d38a229a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 38/61] fix: sparse products and quotients with non-zero
 defaults or missing divisor entries

---
 veroku/factors/sparse_categorical.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 9fa12c1..c465474 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -319,6 +319,7 @@ def _any_scope_binary_operation(ntd_a,
     :param float default: The default value for ntd_a and ntd_b (the values for the missing values).
     :param str default_rules: The rules for when a calculation results will result in a default value (optional).
         This can help speed up this function. The possible values are as follows:
+            'left' : If ntd_a has a default value, the result will be default.
             'any' : If either ntd_a or ntd_b has a default value, the result will be default.
             'both': Only if both ntd_a and ntd_b has a default value, the result will be default.
             'none': No combination of default or non-default values is guaranteed to result in a default value
@@ -340,12 +341,23 @@ def _any_scope_binary_operation(ntd_a,
     if default_rules == "none":
         resulting_factor_table = _any_scope_bin_opp_none(ntd_a, ntd_b, outer_inner_cards_a, outer_inner_cards_b, func,
                                                          default)
+    elif default_rules == "left":
+        # a missing entry in ntd_a makes the result default, but every outer assignment of ntd_b matters.
+        ntd_b_sd_assignments = itertools.product(*[range(c) for c in outer_inner_cards_b[0]])
+        symmetric_difference_combinations = itertools.product(*[ntd_a_sd_assignments, ntd_b_sd_assignments])
+        resulting_factor_table = _apply_any_scope_binary_opp(ntd_a,
+                                                             ntd_b,
+                                                             full_sd_a_default_sub_table,
+                                                             dict(),
+                                                             symmetric_difference_combinations,
+                                                             func,
+                                                             default)
     elif default_rules == "both":
         resulting_factor_table = _any_scope_bin_opp_both(ntd_a, ntd_b, outer_inner_cards_a, outer_inner_cards_b, func,
                                                          default)
 
     # TODO: This is strange - improve.
-    # TODO: See if any performance gains are possible with 'left' and 'right' flags and add them if so.
+    # TODO: See if any performance gains are possible with a 'right' flag and add it if so.
     elif default_rules == "any":
         symmetric_difference_combinations = itertools.product(*[ntd_a_sd_assignments, ntd_b_sd_assignments])
         resulting_factor_table = _apply_any_scope_binary_opp(ntd_a,
@@ -595,7 +607,9 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        # zero times anything is zero, but this does not hold for other default values
+        default_rules = "any" if self.default_log_prob == -np.inf else "none"
+        return self._apply_binary_operator(factor, operator.add, default_rules=default_rules)
 
     def cancel(self, factor):
         """
@@ -612,7 +626,9 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        # zero divided by anything is zero, but this does not hold for other default values
+        default_rules = "left" if self.default_log_prob == -np.inf else "none"
+        return self._apply_binary_operator(factor, special_divide, default_rules=default_rules)
 
     def divide(self, factor):
         """
-- 
2.43.0


From f825ceaa565cc91e4b5b4415d3ad44dd85ef17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 39/61] fix: sparse tables count absent assignments with their
 default value

---
 veroku/factors/sparse_categorical.py | 58 ++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index c465474..fbe7f9e 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -454,14 +454,9 @@ class SparseCategorical(Factor):
 
         for assign, factor_log_prob in self.log_probs_table.items():
 
-            if assign not in factor.log_probs_table:
-                # TODO: make this `not is_close` and simplify this method
-                if factor_log_prob != factor.default_log_prob:
-                    return False
-            else:
-                self_log_prob = factor.log_probs_table[assign]
-                if not np.isclose(self_log_prob, factor_log_prob, rtol=rtol, atol=atol):
-                    return False
+            self_log_prob = factor.log_probs_table.get(assign, factor.default_log_prob)
+            if not np.isclose(self_log_prob, factor_log_prob, rtol=rtol, atol=atol):
+                return False
         return True
 
     def equals(self, factor, rtol=DEFAULT_FACTOR_RTOL, atol=DEFAULT_FACTOR_ATOL):
@@ -496,8 +491,9 @@ class SparseCategorical(Factor):
             return False
 
         # If all possible assignments have not been checked - check that the default values are the same
-        if not self._is_dense() and not factor._is_dense():
-            if self.default_log_prob != factor.default_log_prob:
+        num_checked = len(set(self.log_probs_table).union(factor_.log_probs_table))
+        if num_checked < np.prod(self.cardinalities):
+            if not np.isclose(self.default_log_prob, factor.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
         return True
@@ -516,6 +512,23 @@ class SparseCategorical(Factor):
             default_log_prob=self.default_log_prob,
         )
 
+    def _log_sum_with_defaults(self, log_probs, num_assignments):
+        """
+        Get the log of the sum of the probabilities of a number of assignments, of which only some are in the table.
+
+        :param log_probs: The log probabilities of the assignments that are in the table.
+        :type log_probs: float list
+        :param int num_assignments: The total number of assignments to sum over.
+        :return: The log of the sum.
+        :rtype: float
+        """
+        num_missing = num_assignments - len(log_probs)
+        if num_missing > 0 and self.default_log_prob != -np.inf:
+            log_probs = log_probs + [np.log(num_missing) + self.default_log_prob]
+        if len(log_probs) == 0:
+            return -np.inf
+        return special.logsumexp(log_probs)
+
     def marginalize(self, vrs, keep=True):
         """
         Sum out variables from this factor.
@@ -534,9 +547,12 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
+        # every sum also includes the assignments that are not in the table, which have the default probability
+        num_summed = int(np.prod([self.var_cards[v] for v in vars_to_sum_out]))
+        result_default_log_prob = self._log_sum_with_defaults([], num_summed)
         result_table = dict()
         for l1_assign, log_probs_table in nested_table.items():
-            prob = special.logsumexp(list(log_probs_table.values()))
+            prob = self._log_sum_with_defaults(list(log_probs_table.values()), num_summed)
             result_table[l1_assign] = prob
 
         result_var_cards = copy.deepcopy(self.var_cards)
@@ -546,7 +562,10 @@ class SparseCategorical(Factor):
         cardinalities = [self.var_cards[v] for v in vars_to_keep]
 
         resulting_factor = SparseCategorical(
-            var_names=vars_to_keep, log_probs_table=result_table, cardinalities=cardinalities
+            var_names=vars_to_keep,
+            log_probs_table=result_table,
+            cardinalities=cardinalities,
+            default_log_prob=result_default_log_prob,
         )
 
         return resulting_factor
@@ -648,7 +667,10 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        log_probs_table = self.log_probs_table
+        if self.default_log_prob != -np.inf:
+            log_probs_table = _make_dense(self).log_probs_table
+        return max(log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
@@ -754,9 +776,11 @@ class SparseCategorical(Factor):
         """
 
         factor_copy = self.copy()
-        logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
+        logz = self._log_sum_with_defaults(list(self.log_probs_table.values()), int(np.prod(self.cardinalities)))
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
+        if self.default_log_prob != -np.inf:
+            factor_copy.default_log_prob = self.default_log_prob - logz
         return factor_copy
 
     def _is_dense(self):
@@ -837,7 +861,9 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         # make uniform copy
-        uniform_factor = self.copy()
+        uniform_factor = self.normalize()
+        if uniform_factor.default_log_prob != -np.inf:
+            uniform_factor = _make_dense(uniform_factor)
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
@@ -870,7 +896,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = self._log_sum_with_defaults(list(self.log_probs_table.values()), int(np.prod(self.cardinalities)))
         weight_ = np.exp(log_weight)
         return weight_
 
-- 
2.43.0


From cfea9c965e813849bf01009a604493890ccf3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 40/61] fix: observing every variable of a Gaussian

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 3cb62c3..7105200 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -659,8 +659,8 @@ class Gaussian(Factor):
         """
         prec = self.get_prec()
         h_vec = self.get_h()
-        prec_reduced = 0
-        h_reduced = 0
+        prec_reduced = np.zeros([0, 0])
+        h_reduced = np.zeros([0, 1])
         if unobserved_indices:
             prec_xx = prec[np.ix_(unobserved_indices, unobserved_indices)]
             prec_reduced = prec_xx.copy()
-- 
2.43.0


From 7fe70fa55c36b796f8403c2dad6abbc2e336da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 41/61] fix: observing every variable of a factorised factor

---
 veroku/factors/experimental/factorised_factor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 46f6790..321c273 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -295,6 +295,11 @@ class FactorizedFactor(Factor):
                 reduced_factors.append(reduced_factor)
             else:
                 reduced_factors.append(factor.copy())
+        if not reduced_factors:
+            # every variable is observed: only the (scopeless) observed parts remain
+            return FactorizedFactor(
+                [f.reduce(*get_subset_evidence(all_evidence_dict, f.var_names)) for f in self.factors]
+            )
         adjusted_weight_factor_0 = reduced_factors[0]
         adjusted_weight_factor_0._add_log_weight(additional_log_weight)
         reduced_factors[0] = adjusted_weight_factor_0
-- 
2.43.0


From 37e17b20ed412314dd581ccd69ba985df148230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 42/61] fix: observed variables leave the scope of a non-linear
 Gaussian

---
 .../experimental/nonlinear_gaussian.py        | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 25777a8..4def6fa 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -61,7 +61,11 @@ class NonLinearGaussian(Factor):
         """
         if len(set(conditioning_vars).intersection(conditional_vars)) != 0:
             raise ValueError("variable overlap between conditioning_vars and conditional_vars.")
-        var_names = conditioning_vars + conditional_vars
+        self.observed_evidence = {}
+        if observed_evidence is not None:
+            self.observed_evidence = copy.deepcopy(observed_evidence)
+        # the observed variables are not in the scope of the factor any more
+        var_names = [v for v in conditioning_vars + conditional_vars if v not in self.observed_evidence]
 
         super().__init__(var_names=var_names)
         self.transform = transform
@@ -87,10 +91,6 @@ class NonLinearGaussian(Factor):
             self._joint_distribution = joint_distribution.copy()
         else:
             self._joint_distribution = Gaussian.make_vacuous(var_names)
-        if observed_evidence is None:
-            self.observed_evidence = {}
-        else:
-            self.observed_evidence = copy.deepcopy(observed_evidence)
 
     def equals(self, factor, rtol=DEFAULT_FACTOR_RTOL, atol=DEFAULT_FACTOR_ATOL):
         """
@@ -286,7 +286,8 @@ class NonLinearGaussian(Factor):
         joint_cov, joint_mean = sigma_points_array_to_joint_params(sigma_points_array=extended_sigma_points_array,
                                                                    transform=self.transform,
                                                                    var_names=extended_sigma_point_vars)
-        if (joint_mean.shape[0] != len(self.var_names)) or (joint_cov.shape[0] != len(self.var_names)):
+        num_vars = len(self.conditioning_vars) + len(self.conditional_vars)
+        if (joint_mean.shape[0] != num_vars) or (joint_cov.shape[0] != num_vars):
             raise AssertionError("Transform resulted in incorrect number of variables.")
 
         # remove the observed vars again after transformation
@@ -410,7 +411,19 @@ class NonLinearGaussian(Factor):
         self_copy = self.copy()
         evidence_dict = dict(zip(vrs, values))
         self_copy.observed_evidence.update(evidence_dict)
-        return self_copy
+        return self_copy.copy()  # this removes the observed variables from the scope
+
+    def _observe_evidence(self, factor):
+        """
+        Reduce a factor with the observed evidence that is in its scope.
+
+        :param factor: The factor to reduce.
+        :return: The reduced factor.
+        """
+        observed_vars = [var for var in factor.var_names if var in self.observed_evidence]
+        if not observed_vars:
+            return factor
+        return factor.reduce(observed_vars, [self.observed_evidence[var] for var in observed_vars])
 
     def marginalize(self, vrs, keep=True):
         """
@@ -430,12 +443,14 @@ class NonLinearGaussian(Factor):
             if set(vrs_to_keep) <= set(self_copy.conditioning_vars):
                 if self_copy.conditioning_factor is not None:
                     if set(vrs_to_keep) <= set(self_copy.conditioning_factor.var_names):
-                        marginal = self_copy.conditioning_factor.marginalize(vrs_to_keep, keep=True)
+                        observed_factor = self_copy._observe_evidence(self_copy.conditioning_factor)
+                        marginal = observed_factor.marginalize(vrs_to_keep, keep=True)
                         return marginal
             if set(vrs_to_keep) <= set(self_copy.conditional_vars):
                 if self_copy.conditional_update_factor is not None:
                     if set(vrs_to_keep) <= set(self_copy.conditional_update_factor.var_names):
-                        marginal = self_copy.conditional_update_factor.marginalize(vrs_to_keep, keep=True)
+                        observed_factor = self_copy._observe_evidence(self_copy.conditional_update_factor)
+                        marginal = observed_factor.marginalize(vrs_to_keep, keep=True)
                         marginal._add_log_weight(self.log_weight)
                         return marginal
             else:
-- 
2.43.0


From c2e998b4a6c4215c455e4c722c8939a0dd1e9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 43/61] fix: dividing a non-linear Gaussian by a factor that
 was never absorbed

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 4def6fa..b113166 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -384,6 +384,8 @@ class NonLinearGaussian(Factor):
             raise ValueError("factor must be Gaussian.")
 
         if set(factor.var_names) <= set(self_copy.conditional_vars):
+            if self_copy.conditional_update_factor is None:
+                raise NotImplementedError()
             self_copy.conditional_update_factor = self_copy.conditional_update_factor.divide(factor)
         elif set(factor.var_names) <= set(self_copy.conditioning_vars):
             if self_copy.conditioning_factor is None:
-- 
2.43.0


From 5df56fffcf0aa593724feb9c09b9547001f8473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 44/61] fix: weight of a non-linear Gaussian in marginals over
 its conditioning variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index b113166..1a10a4e 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -447,6 +447,7 @@ class NonLinearGaussian(Factor):
                     if set(vrs_to_keep) <= set(self_copy.conditioning_factor.var_names):
                         observed_factor = self_copy._observe_evidence(self_copy.conditioning_factor)
                         marginal = observed_factor.marginalize(vrs_to_keep, keep=True)
+                        marginal._add_log_weight(self.log_weight)
                         return marginal
             if set(vrs_to_keep) <= set(self_copy.conditional_vars):
                 if self_copy.conditional_update_factor is not None:
-- 
2.43.0


From 69e4c27be4462146f1037bf7f2c1e4342be3d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 45/61] fix: reject marginals over variables that are not in
 the factor

---
 veroku/factors/_factor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index b085d25..462f884 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -57,6 +57,8 @@ class Factor:
         """
         if isinstance(vrs, str):
             vrs = [vrs]
+        if not set(vrs) <= set(self._var_names):
+            raise ValueError(f"variables {vrs} are not all in the factor scope {self._var_names}")
         if keep:
             return vrs.copy()
         return [v for v in self.var_names if v not in vrs]
-- 
2.43.0


From 3a369134d094050e19cac77c6678683b296ddac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 46/61] fix: reject observations of unknown variables and
 missing or surplus values

---
 veroku/factors/_factor.py                         | 13 +++++++++++++
 veroku/factors/categorical.py                     |  1 +
 veroku/factors/experimental/factorised_factor.py  |  1 +
 veroku/factors/experimental/nonlinear_gaussian.py |  1 +
 veroku/factors/sparse_categorical.py              |  1 +
 5 files changed, 17 insertions(+)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 462f884..680d45b 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -63,6 +63,19 @@ class Factor:
             return vrs.copy()
         return [v for v in self.var_names if v not in vrs]
 
+    def _validate_observation(self, vrs, values):
+        """
+        A helper function (for reduce) that raises an error if the observed variables are not all in the factor scope or
+        if there is not exactly one value for each of them.
+
+        :param vrs: (list) the observed variables
+        :param values: (vector-like) the observed values
+        """
+        if not set(vrs) <= set(self._var_names):
+            raise ValueError(f"observed variables {vrs} are not all in the factor scope {self._var_names}")
+        if len(vrs) != len(values):
+            raise ValueError(f"expected one value for each of the variables {vrs}, received {len(values)} values")
+
     @abstractmethod
     def distance_from_vacuous(self):
         """
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e600111..292d8d5 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -297,6 +297,7 @@ class Categorical(Factor):
         :rtype: Categorical
         """
 
+        self._validate_observation(vrs, values)
         vars_unobserved = [v for v in self.var_names if v not in vrs]
         obs_dict = dict(zip(vrs, values))
 
diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 321c273..56a1333 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -280,6 +280,7 @@ class FactorizedFactor(Factor):
         :return: the resulting Gaussian
         :rtype: FactorizedFactor
         """
+        self._validate_observation(vrs, values)
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
         additional_log_weight = 0.0
diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 1a10a4e..2a82559 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -410,6 +410,7 @@ class NonLinearGaussian(Factor):
         :rtype: NonLinearGaussian
         """
 
+        self._validate_observation(vrs, values)
         self_copy = self.copy()
         evidence_dict = dict(zip(vrs, values))
         self_copy.observed_evidence.update(evidence_dict)
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index fbe7f9e..f52a34b 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -580,6 +580,7 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
+        self._validate_observation(vrs, values)
         vars_unobserved = [var_name for var_name in self.var_names if var_name not in vrs]
         nested_table, _ = _get_nested_sorted_probs(
             new_variables_order_outer=vrs,
-- 
2.43.0


From 9b8b1bcf8354776fd3e7c672586af1e817f40e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 47/61] fix: reject dense tables that do not fit their
 cardinalities or variables

---
 veroku/factors/categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 292d8d5..a44ea33 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -110,11 +110,15 @@ class Categorical(Factor):
             cardinalities = log_probs_tensor.shape
         elif len(cardinalities) != len(var_names):
             raise ValueError("The cardinalities and var_names lists should be the same length.")
+        elif log_probs_tensor is not None and tuple(cardinalities) != log_probs_tensor.shape:
+            raise ValueError("The cardinalities are not consistent with the shape of log_probs_tensor.")
         if (log_probs_tensor is None) and (probs_table is None):
             raise ValueError("Either log_probs_tensor or probs_table must be specified")
         if log_probs_tensor is None:
             probs_tensor = np.zeros(shape=cardinalities)
             for assignment, prob in probs_table.items():
+                if len(assignment) != len(var_names) or any(value < 0 for value in assignment):
+                    raise ValueError(f"assignment {assignment} is not an assignment of the variables {var_names}")
                 try:
                     probs_tensor[assignment] = prob
                 except IndexError as index_error:
-- 
2.43.0


From 902d2ff9e8bb4398ed9458338a2207d544f9d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 48/61] fix: reject sparse tables that do not fit their
 cardinalities or variables

---
 veroku/factors/sparse_categorical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f52a34b..ea88207 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -431,6 +431,11 @@ class SparseCategorical(Factor):
             raise ValueError("Either log_probs_table or probs_table must be specified")
         if log_probs_table is None:
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
+        for assignment in log_probs_table:
+            if len(assignment) != len(var_names) or any(
+                value not in range(card) for value, card in zip(assignment, cardinalities)
+            ):
+                raise ValueError(f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided")
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
         self.cardinalities = copy.deepcopy(cardinalities)
-- 
2.43.0


From 8c8f15999a1d7dfdc65d0c127d26f5cd54600938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 49/61] fix: non-linear Gaussian template ignores given
 conditional variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 2a82559..f68fdd3 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -738,7 +738,7 @@ class NonLinearGaussianTemplate(FactorTemplate):
         """
         if format_dict is not None:
             assert conditioning_vars is None
-            assert conditioning_vars is None
+            assert conditional_vars is None
 
             conditioning_vars = format_list_elements(self._conditioning_var_templates, format_dict)
             conditional_vars = format_list_elements(self._conditional_var_templates, format_dict)
-- 
2.43.0


From f31f5e9884e862077feb5fedeefccb4119f48b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 50/61] fix: dividing everything back out of a non-linear
 Gaussian's conditioning side

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index f68fdd3..76235eb 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -243,7 +243,7 @@ class NonLinearGaussian(Factor):
 
         # Initial feasibility check
         conditioning_factor_var_names = []
-        if self.conditioning_factor is not None:
+        if self.conditioning_factor is not None and not self.conditioning_factor._is_vacuous:
             conditioning_factor_var_names = self.conditioning_factor.var_names
         vars_obs_vars_union = set(conditioning_factor_var_names).union(set(conditioning_observed_vars))
         if vars_obs_vars_union != set(self.conditioning_vars):
-- 
2.43.0


From 9a74b2a68db0938cf9cbd002a9b5dae6647fc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 51/61] fix: GaussianMixture.get_component hands out the stored
 component

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 2791e4c..dd608be 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -123,7 +123,7 @@ class GaussianMixture(Factor):
         :return: The component at the given index.
         :rtype: Gaussian
         """
-        return self.components[index]
+        return self.components[index].copy()
 
     def copy(self):
         """
-- 
2.43.0


From 4315871ccca2c1dd36d81be27e10330f07304d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:12 +0000
Subject: [PATCH 52/61] fix: splitting a Gaussian into a mixture lost its
 weight

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 7105200..95caa14 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1037,7 +1037,8 @@ class Gaussian(Factor):
 
         gaussians = []
         for mean, cov, weight in zip(means, covs, weights):
-            gaussian = Gaussian(cov=cov, mean=mean, log_weight=np.log(weight), var_names=self.var_names)
+            log_weight = np.log(weight) + self.get_log_weight()
+            gaussian = Gaussian(cov=cov, mean=mean, log_weight=log_weight, var_names=self.var_names)
             gaussians.append(gaussian)
 
         return gm.GaussianMixture(gaussians)
-- 
2.43.0


From 4c8ded7b3f3f03bf38b1bba46875c37c897bb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 53/61] fix: non-linear Gaussian mixture failed on a vacuous
 factor over one variable

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 76235eb..3be1655 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -601,7 +601,7 @@ class NonLinearGaussianMixture(Factor):
         # TODO: Generalise the Gaussian.split_gaussian function to more than one dimensional cases and remove the
         #  limitation here
         if self.split_singles_before_absorb and len(gm_factor.var_names) == 1:
-            if len(gm_factor.components) == 1:
+            if len(gm_factor.components) == 1 and not gm_factor.components[0]._is_vacuous:
                 gm_factor = gm_factor.components[0]._split_gaussian()
 
         new_nlgs = []
-- 
2.43.0


From 0fe5eb1cfe357f0e7547b35fa031e7c0cc594c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 54/61] fix: non-linear Gaussian mixture failed when divided by
 a single vacuous component

---
 veroku/factors/experimental/nonlinear_gaussian.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 3be1655..d4362fe 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -621,8 +621,11 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, Gaussian):
             gaussian_factor = factor
         elif isinstance(factor, GaussianMixture):
-            # TODO: Add better Gaussian mixture division approximation
-            gaussian_factor = factor.moment_match_to_single_gaussian()
+            if factor.num_components == 1:
+                gaussian_factor = factor.get_component(index=0)
+            else:
+                # TODO: Add better Gaussian mixture division approximation
+                gaussian_factor = factor.moment_match_to_single_gaussian()
         else:
             raise NotImplementedError("cannot divide NonLinearGaussianMixture by {type(factor)}.")
         new_nlgs = []
-- 
2.43.0


From bf93841b32568607c66b3b7cda007bb20945db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 55/61] fix: observations and potentials with duplicate
 variables, missing values or unknown states were accepted

---
 veroku/factors/_factor.py            |  4 +++-
 veroku/factors/categorical.py        | 14 ++++++++++++++
 veroku/factors/gaussian.py           |  2 ++
 veroku/factors/sparse_categorical.py | 14 ++++++++++++++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 680d45b..835d7ec 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -66,13 +66,15 @@ class Factor:
     def _validate_observation(self, vrs, values):
         """
         A helper function (for reduce) that raises an error if the observed variables are not all in the factor scope or
-        if there is not exactly one value for each of them.
+        if there is not exactly one value for each of them (and each of them is only observed once).
 
         :param vrs: (list) the observed variables
         :param values: (vector-like) the observed values
         """
         if not set(vrs) <= set(self._var_names):
             raise ValueError(f"observed variables {vrs} are not all in the factor scope {self._var_names}")
+        if len(set(vrs)) != len(vrs):
+            raise ValueError(f"duplicate observed variables: {vrs}")
         if len(vrs) != len(values):
             raise ValueError(f"expected one value for each of the variables {vrs}, received {len(values)} values")
 
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index a44ea33..153d16c 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -302,6 +302,7 @@ class Categorical(Factor):
         """
 
         self._validate_observation(vrs, values)
+        self._validate_states(vrs, values)
         vars_unobserved = [v for v in self.var_names if v not in vrs]
         obs_dict = dict(zip(vrs, values))
 
@@ -314,6 +315,17 @@ class Categorical(Factor):
         return Categorical(var_names=vars_unobserved, log_probs_tensor=result_table,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
+    def _validate_states(self, vrs, values):
+        """
+        Raise an error if any of the values is not one of the states of the corresponding variable.
+
+        :param vrs: (list) The variables.
+        :param values: (tuple or list) Their values
+        """
+        for var, value in zip(vrs, values):
+            if not 0 <= value < self.var_cards[var]:
+                raise IndexError(f"{value} is not a state of variable {var}, which has {self.var_cards[var]} states")
+
     def _assert_consistent_cardinalities(self, factor):
         """
         Assert that the variable cardinalities are consistent between two factors.
@@ -516,6 +528,8 @@ class Categorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
+        self._validate_observation(vrs, assignment)
+        self._validate_states(vrs, assignment)
         obs_dict = dict(zip(vrs, assignment))
         obs_tensor_indexing = tuple([obs_dict[v] if v in obs_dict else slice(None) for v in self.var_names])
         return np.exp(self.log_probs_tensor[obs_tensor_indexing])
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 95caa14..c4643ee 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -685,6 +685,7 @@ class Gaussian(Factor):
         :rtype: Gaussian
         """
         observed_vec = _factor_utils.make_column_vector(values)
+        self._validate_observation(vrs, observed_vec)
 
         assert isinstance(vrs, list)  # just to future-proof interface
         assert set(vrs) <= set(self._var_names), "observed variables must a be subset of the gaussian variables."
@@ -846,6 +847,7 @@ class Gaussian(Factor):
             assert len(x_val_list) == len(self.var_names)
             x_val = [x_val_list[vrs.index(v)] for v in self.var_names]
         x_vec = _factor_utils.make_column_vector(x_val)
+        assert len(x_vec) == self.dim, f"Error: expected {self.dim} values, received {len(x_vec)}."
         if self.covform:
             log_norm = self.log_weight - 0.5 * np.log(np.linalg.det(2.0 * np.pi * self.cov))
             prec = _factor_utils.inv_matrix(self.cov)
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index ea88207..384ceda 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -586,6 +586,7 @@ class SparseCategorical(Factor):
         """
 
         self._validate_observation(vrs, values)
+        self._validate_states(vrs, values)
         vars_unobserved = [var_name for var_name in self.var_names if var_name not in vrs]
         nested_table, _ = _get_nested_sorted_probs(
             new_variables_order_outer=vrs,
@@ -610,6 +611,17 @@ class SparseCategorical(Factor):
 
         return resulting_factor
 
+    def _validate_states(self, vrs, values):
+        """
+        Raise an error if any of the values is not one of the states of the corresponding variable.
+
+        :param vrs: (list) The variables.
+        :param values: (tuple or list) Their values
+        """
+        for var, value in zip(vrs, values):
+            if not 0 <= value < self.var_cards[var]:
+                raise IndexError(f"{value} is not a state of variable {var}, which has {self.var_cards[var]} states")
+
     def _assert_consistent_cardinalities(self, factor):
         """
         Assert that the variable cardinalities are consistent between two factors.
@@ -884,6 +896,8 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
+        self._validate_observation(vrs, assignment)
+        self._validate_states(vrs, assignment)
         vrs_to_var_names_indices = [vrs.index(v) for v in self.var_names]
         var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
         return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
-- 
2.43.0


From 6e18ef97d8387a71d08be840bc993264dfef50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 56/61] fix: a linear Gaussian could be made from matrices of
 the wrong size

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c4643ee..82ac41c 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -86,6 +86,9 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     # TODO: improve this by adding the correct equations for calculating the linear Gaussian parameters that do not rely
     #  on the dummy factor multiplication.
     x_dim = len(conditioning_vars)
+    y_dim = len(conditional_vars)
+    assert np.shape(a_mat) == (y_dim, x_dim), "Error: linear transform matrix dimension inconsistency."
+    assert np.shape(n_mat) == (y_dim, y_dim), "Error: noise covariance matrix dimension inconsistency."
     cov_xx = np.eye(x_dim)
     prec_xx = np.linalg.inv(cov_xx)
 
-- 
2.43.0


From b7a72885002185510a770f7c106791ad7e6893f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 57/61] fix: comparing a Gaussian in covariance form with a
 vacuous Gaussian raised an error

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 82ac41c..28faae5 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -315,6 +315,9 @@ class Gaussian(Factor):
             gaussian_copy._reorder_parameters(self._var_names)
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
+        # the covariance form parameters of a vacuous Gaussian do not exist and can not be compared
+        if gaussian_copy._is_vacuous != self._is_vacuous:
+            return False
         if self.canform:
             if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
-- 
2.43.0


From 47bd5599e7df56d5b49ab4fda56ccae4bebb78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 58/61] fix: the string representation of a vacuous Gaussian
 raised an error

---
 veroku/factors/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 28faae5..8788a80 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -923,9 +923,10 @@ class Gaussian(Factor):
         np.set_printoptions(precision=4)
         np.core.arrayprint._line_width = 200
         repr_str = "vars = " + str(self.var_names) + "\n"
+        repr_str += self._get_can_repr_str()
+        # the covariance form parameters of a vacuous Gaussian do not exist
         if not self._is_vacuous:
-            repr_str += self._get_can_repr_str()
-        repr_str += self._get_cov_repr_str()
+            repr_str += self._get_cov_repr_str()
         return repr_str
 
     def show(self):
-- 
2.43.0


From 18e57a6e4385fa338b0837001acd47fc7f77c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 59/61] fix: sampling a non-linear Gaussian mixture stacked the
 components' samples as extra variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index d4362fe..8ed72ba 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -672,12 +672,7 @@ class NonLinearGaussianMixture(Factor):
         :rtype: int
         """
 
-        # TODO: fix incorrect num samples issue
-        sample_sets = []
-        for nlg in self.nlgs:
-            samples = nlg.sample(num_samples)
-            sample_sets.append(samples)
-        return np.concatenate(sample_sets)
+        return self.joint_distribution.sample(num_samples)
 
     def plot(self):
         """
-- 
2.43.0


From 5d896a76ebdef1060ade1e252e80041eed0e3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:28 +0000
Subject: [PATCH 60/61] fix: the parameters of a non-linear Gaussian were not
 in the order of its variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 8ed72ba..5108144 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -311,6 +311,7 @@ class NonLinearGaussian(Factor):
             self._joint_distribution = self._joint_distribution.reduce(
                 conditional_observed_vars, conditional_observed_values
             )
+        self._joint_distribution._reorder_parameters(self.var_names)
 
     def normalize(self):
         """
@@ -580,7 +581,9 @@ class NonLinearGaussianMixture(Factor):
     def joint_distribution(self):
         gaussian_joints = []
         for nlg in self.nlgs:
-            gaussian_joints.append(nlg.joint_distribution)
+            gaussian_joint = nlg.joint_distribution
+            gaussian_joint._reorder_parameters(self.var_names)
+            gaussian_joints.append(gaussian_joint)
         return GaussianMixture(gaussian_joints)
 
     def multiply(self, factor):
-- 
2.43.0


From c0401deb38f16511420b2ce4e225602f8d2656f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 61/61] fix: the mean and covariance of a factorised factor
 were not in the order of its variables

---
 veroku/factors/experimental/factorised_factor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 56a1333..9bd2c72 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -222,7 +222,9 @@ class FactorizedFactor(Factor):
         :return: The cov parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_cov()
+        joint_distribution = self.joint_distribution
+        order = [joint_distribution.var_names.index(var) for var in self.var_names]
+        return joint_distribution.get_cov()[order][:, order]
 
     def get_mean(self):
         """
@@ -231,7 +233,9 @@ class FactorizedFactor(Factor):
         :return: The mean parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_mean()
+        joint_distribution = self.joint_distribution
+        order = [joint_distribution.var_names.index(var) for var in self.var_names]
+        return joint_distribution.get_mean()[order]
 
     def _merge_dependent_factors(self):
         """
-- 
2.43.0

