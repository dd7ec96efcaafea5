From 5b1252d18252054aba876fa2cff9804b0ffb9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 01/60] fix: do not overwrite the caller's target labels when
 masking them in selectors

---
 skada/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..cd62cfe 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # work on a copy, labels given by the caller should stay untouched
+            y = np.array(y)
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 1e5b74529cafdb65826703fc95098f6ee607ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 02/60] fix: keep mask_target_labels when selectors are cloned

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index cd62cfe..c536842 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -255,9 +255,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         params = self.base_estimator.get_params(deep=deep)
         params['base_estimator'] = self.base_estimator
+        params['mask_target_labels'] = self.mask_target_labels
         return params
 
-    def set_params(self, base_estimator=None, **kwargs):
+    def set_params(self, base_estimator=None, mask_target_labels=None, **kwargs):
         """Set the parameters of this estimator.
 
         Valid parameter keys can be listed with ``get_params()``. Note that
@@ -276,6 +277,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         if base_estimator is not None:
             self.base_estimator = base_estimator
+        if mask_target_labels is not None:
+            self.mask_target_labels = mask_target_labels
         self.base_estimator.set_params(**kwargs)
         return self
 
@@ -616,6 +619,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-- 
2.43.0


From ffdc705c4a0bc555159f62ac9a10aa26cfcde7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 03/60] fix: make PerDomain and SelectSourceTarget work with
 transformers lacking fit_transform

---
 skada/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index c536842..401e7f7 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -499,12 +499,11 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
             transform_params = _route_params(self.routing_.transform, method_params, self)
+            # domain labels are always necessary to pick the estimator
+            transform_params['sample_domain'] = method_params['sample_domain']
             # the output of the transform call is already merged into a single ndarray
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
@@ -739,8 +738,8 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            # routing to each of the estimators happens within `transform`
+            output = self.transform(X, sample_domain=method_params.get('sample_domain'))
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 22e7e5f7432d8075af365dd094fd62773ca40264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 04/60] fix: report incompatible metadata instead of failing on
 an array in SelectSourceTarget

---
 skada/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 401e7f7..6f7630c 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -719,7 +719,7 @@ class SelectSourceTarget(BaseSelector):
                 )
             X_masked, y_masked, params_masked = _apply_domain_masks(X, y, params, masks=domain_masks)
             routing = getattr(get_routing_for_object(base_estimator), method_name)
-            routed_params = self._prepare_routing(routing, X_masked, params_masked)
+            routed_params = self._prepare_routing(routing, X_container, params_masked)
             X_masked, y_masked, routed_params = self._remove_masked(X_masked, y_masked, routed_params)
             estimator = clone(base_estimator)
             estimator_method = getattr(estimator, method_name)
-- 
2.43.0


From 2317ce474eb7fb51ede689bcc46abeaae68d191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 05/60] fix: keep domain labels and parameters aligned with
 samples in PerDomain

---
 skada/base.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 6f7630c..96a7240 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -477,16 +477,21 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # domain labels have to stay aligned with the samples that are left
+        # after masks are removed, even when the base estimator does not use them
+        kept_idx = np.arange(X.shape[0])
+        X, y, aligned_params = self._remove_masked(X, y, {**routed_params, '_kept_idx': kept_idx})
+        kept_idx = aligned_params.pop('_kept_idx')
+        sample_domain = sample_domain[kept_idx]
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
-            idx, = np.where(sample_domain == domain_label)
+            domain_mask = sample_domain == domain_label
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, aligned_params, masks=domain_mask
+            )
             estimator = clone(self.base_estimator)
-            outputs[domain_label] = (idx, getattr(estimator, method_name)(
-                X[idx],
-                y[idx] if y is not None else None,
-                **{k: v[idx] for k, v in routed_params.items()}
-            ))
+            domain_output = getattr(estimator, method_name)(X_domain, y_domain, **domain_params)
+            outputs[domain_label] = (kept_idx[domain_mask], domain_output)
             estimators[domain_label] = estimator
         self.estimators_ = estimators
         self.routing_ = routing
@@ -525,10 +530,10 @@ class PerDomain(BaseSelector):
                     f"Domain label {domain_label} is not present in the "
                     "fitted estimators."
                 )
-            idx, = np.where(sample_domain == domain_label)
-            X_domain = X[idx]
-            y_domain = y[idx] if y is not None else None
-            domain_params = {k: v[idx] for k, v in routed_params.items()}
+            idx = sample_domain == domain_label
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=idx
+            )
             if y is None:
                 domain_output = method(X_domain, **domain_params)
             else:
-- 
2.43.0


From 7c19ec46ec467b6fbe5dffea026144eb2c0f892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 06/60] fix: do not truncate values to the type of the first
 domain when merging domains

---
 skada/_utils.py | 41 +++++++++++++++++++++++------------------
 skada/utils.py  | 11 +++++------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..ae31029 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -187,31 +187,36 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 domain_X, domain_y, domain_params = domain_output
             else:
                 raise ValueError("Invalid container structure")
-            if X_output is None:
-                X_output = np.zeros(
-                    (n_samples, *domain_X.shape[1:]), dtype=domain_X.dtype
-                )
-            if domain_y is not None and y_output is None:
-                y_output = np.zeros(
-                    (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
-                )
-            X_output[idx] = domain_X
+            X_output = _scatter_domain_output(X_output, n_samples, idx, domain_X)
             if domain_y is not None:
-                y_output[idx] = domain_y
+                y_output = _scatter_domain_output(y_output, n_samples, idx, domain_y)
             for k, v in domain_params.items():
-                if k not in params_output:
-                    params_output[k] = np.zeros(
-                        (n_samples, *v.shape[1:]), dtype=v.dtype
-                    )
-                params_output[k][idx] = v
+                params_output[k] = _scatter_domain_output(
+                    params_output.get(k), n_samples, idx, v
+                )
         output = X_output, y_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
+        output = None
+        for idx, domain_output in domain_outputs.values():
+            output = _scatter_domain_output(output, n_samples, idx, domain_output)
+    return output
+
+
+def _scatter_domain_output(output, n_samples, idx, domain_output):
+    """Writes output of a single domain into the array for all samples.
+
+    The array is allocated on the first call. Its type is promoted when necessary,
+    so none of the domains has its values truncated to the type of another one.
+    """
+    if output is None:
         output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
+            (n_samples, *domain_output.shape[1:]), dtype=domain_output.dtype
         )
-        for idx, domain_output in domain_outputs.values():
-            output[idx] = domain_output
+    else:
+        dtype = np.promote_types(output.dtype, domain_output.dtype)
+        output = output.astype(dtype, copy=False)
+    output[idx] = domain_output
     return output
 
 
diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..db96c0e 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -526,9 +526,10 @@ def source_target_merge(
                 elif y_type == Y_Type.CONTINUOUS:
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
-                arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                # integer labels should stay integers after they are merged with masks
+                dtype = np.promote_types(arrays[pair_index].dtype, np.int8)
+                arrays[index_is_empty] = np.full(
+                    shape_to_complete, default_masked_label, dtype=dtype
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -581,9 +582,7 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From b1377388efdfd7d418ccd341ab5c6486615fc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 07/60] fix: check the number of targets, not sources, for
 allow_multi_target

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index db96c0e..a24c710 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From a70c9c12d797d33c1ad086ac082ff42b74634927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 08/60] fix: reject sample_domain of inconsistent length along
 with labels

---
 skada/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/utils.py b/skada/utils.py
index a24c710..89d93fe 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -99,6 +99,7 @@ def check_X_y_domain(
         sample_domain = sample_domain*np.ones_like(y)
 
     source_idx = extract_source_indices(sample_domain)
+    check_consistent_length(X, sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
     # a new domain labeling convention without "intersections"
-- 
2.43.0


From 65c8a00e02ac408d3e6eb5a8ce4e1cebbfd5ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 09/60] fix: raise ValueError for an unsupported covariance
 shrinkage

---
 skada/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/_utils.py b/skada/_utils.py
index ae31029..1127065 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -53,6 +53,10 @@ def _estimate_covariance(X, shrinkage, assume_centered=False):
             empirical_covariance(X, assume_centered=assume_centered),
             shrinkage=shrinkage,
         )
+    else:
+        raise ValueError(
+            f"Unsupported shrinkage, expected None, 'auto' or a number, got {shrinkage!r}."
+        )
     return s
 
 
-- 
2.43.0


From 26db37783bc17ff4239a124792f030440d089288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 10/60] fix: raise ValueError for an unknown default selector
 name

---
 skada/_pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..efd60d1 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -126,8 +126,8 @@ def _wrap_with_selector(
             selector_cls = _DEFAULT_SELECTORS.get(selector)
             if selector_cls is None:
                 raise ValueError(
-                    f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Unsupported `default_selector` name: {selector}. "
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From f85a6cbe74bf0ce4b9b8dd153b2fb9ac50439bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 11/60] fix: list only names that exist in the public namespace

---
 skada/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..874fbae 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -130,10 +130,10 @@ __all__ = [
     "JDOTRegressor",
     "solve_jdot_classification",
     "JDOTClassifier",
-    "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From ea62080d947735231e2025b00a9934217c063870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 12/60] fix: use all target samples for nearest neighbor
 weights and none of the source ones

---
 skada/_reweight.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..bccd9b5 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -803,17 +803,10 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         return weights
 
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
         source_idx = extract_source_indices(sample_domain)
-        # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
-        indices_source = np.arange(X[source_idx].shape[0])
-        if np.array_equal(self.X_source_fit, X[source_idx]):
-            estimator = self.estimator_
-        else:
-            estimator = clone(self.base_estimator)
-            estimator.fit(X[source_idx], indices_source)
-        weights = np.ones(X.shape[0])
+        weights = np.zeros(X.shape[0])
         weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
         return weights
 
-- 
2.43.0


From 5145c7a59f6b831d5b87bc8399c395ae07e51510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 13/60] fix: take parameters of nearest neighbors into account
 when they are set after construction

---
 skada/_reweight.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index bccd9b5..b19be6f 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -753,7 +753,9 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    def _create_neighbors_estimator(self):
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
@@ -786,14 +788,14 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.X_source_fit = X_source
         indices_source = np.arange(X_source.shape[0])
 
-        self.estimator_ = clone(self.base_estimator)
+        self.estimator_ = self._create_neighbors_estimator()
         self.estimator_.fit(X_source, indices_source)
 
         return self
 
     def _get_weights(self, Xs, Xt):
         indices_source = np.arange(Xs.shape[0])
-        estimator = clone(self.base_estimator)
+        estimator = self._create_neighbors_estimator()
         estimator.fit(Xs, indices_source)
         predictions = estimator.predict(Xt)
 
-- 
2.43.0


From 3b8032df5fdf91d824654123e64e8520b5964ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 14/60] fix: accept ensembles as weight estimator or domain
 classifier

---
 skada/_reweight.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index b19be6f..9bd79cf 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,7 +95,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = weight_estimator or KernelDensity()
+        self.weight_estimator = (
+            weight_estimator if weight_estimator is not None else KernelDensity()
+        )
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -319,7 +321,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = domain_classifier or LogisticRegression()
+        self.domain_classifier = (
+            domain_classifier if domain_classifier is not None else LogisticRegression()
+        )
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From 933f36e628e7a0b3aa7cb45f208a8d92a83b38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 15/60] fix: weight source samples by target to source
 probability ratio in DiscriminatorReweight

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 9bd79cf..27af44c 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -360,8 +360,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         # as we only use this array for indexing
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
-        probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        probas = np.clip(probas, EPS, 1.0 - EPS)
+        # the second class is target, thus the weight is p_target / p_source
+        source_weights = probas / (1 - probas)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From 4fd1559be4b89019dec55b53b23970e409ef6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 16/60] fix: keep the gamma parameter of KLIEP unchanged by fit

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 27af44c..b000382 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -489,9 +489,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From c302fa9a2615244baefa6171e6fd9f5b9d41a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 17/60] fix: reject source samples in MultiLinearMongeAlignment
 unless they are allowed

---
 skada/_mapping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..a72dba6 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -688,7 +688,11 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
         X, sample_domain = check_X_domain(
-            X, sample_domain, allow_multi_source=True, allow_multi_target=True
+            X,
+            sample_domain,
+            allow_source=allow_source,
+            allow_multi_source=True,
+            allow_multi_target=True,
         )
         idx = extract_domains_indices(sample_domain)
         X_adapt = X.copy()
-- 
2.43.0


From 0b8252ca3ce5c0ddf3f1c1a4bc2d1bd48e469938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 18/60] fix: do not share the default base estimator between
 ClassRegularizerOTMapping pipelines

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index a72dba6..6b0b7b5 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From ad34a083b096bce0ea847182e487a76415bb79fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 19/60] fix: use the documented default regularization in
 LinearOTMapping

---
 skada/_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 6b0b7b5..1338ee0 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -482,7 +482,7 @@ class LinearOTMappingAdapter(BaseOTMappingAdapter):
 
 def LinearOTMapping(
     base_estimator=None,
-    reg=1.0,
+    reg=1e-08,
     bias=True,
 ):
     """Returns a the linear OT mapping method with adapter and estimator.
-- 
2.43.0


From ccc3a5221129c993c54f0354b0019ed98ed5f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 20/60] fix: return samples of subspace adapters in the order
 they were given

---
 skada/_subspace.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..3e92b31 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -362,7 +361,13 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            # rows of K_ are ordered as [source, target], put them back in the
+            # order of the samples
+            n_source = X_source.shape[0]
+            X_ = self.K_ @ self.eigvects_
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -522,8 +527,14 @@ class TransferJointMatchingAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
+            # rows of K are ordered as [source, target], put them back in the
+            # order of the samples
             K = self._get_kernel_matrix(X_source, X_target)
+            n_source = X_source.shape[0]
             X_ = K @ self.A_
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -578,7 +589,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # matrices below have rows ordered as [source, target]
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From c747d1321df86d1b853b95f5a3297701b50792ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 21/60] fix: raise NotFittedError when a mapping or subspace
 adapter transforms before fit

---
 skada/_mapping.py  | 7 +++++--
 skada/_subspace.py | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 1338ee0..6f7a3e5 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -13,6 +13,7 @@ from ot.gaussian import bures_wasserstein_barycenter, bures_wasserstein_mapping
 from sklearn.linear_model import LogisticRegression
 from sklearn.metrics.pairwise import pairwise_distances
 from sklearn.svm import SVC
+from sklearn.utils.validation import check_is_fitted
 
 from ._pipeline import make_da_pipeline
 from ._utils import Y_Type, _estimate_covariance, _find_y_type
@@ -85,6 +86,7 @@ class BaseOTMappingAdapter(BaseAdapter):
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
         # xxx(okachaiev): implement auto-infer for sample_domain
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -690,6 +692,7 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
     def transform(
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -906,6 +909,7 @@ class CORALAdapter(BaseAdapter):
     def transform(
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -1031,8 +1035,6 @@ class MMDLSConSMappingAdapter(BaseAdapter):
         self.reg_m = reg_m
         self.tol = tol
         self.max_iter = max_iter
-        self.W_ = None
-        self.B_ = None
 
     def _mapping_optimization(self, X_source, X_target, y_source):
         """Mapping optimization"""
@@ -1158,6 +1160,7 @@ class MMDLSConSMappingAdapter(BaseAdapter):
     def transform(
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=allow_source)
 
         source_idx = extract_source_indices(sample_domain)
diff --git a/skada/_subspace.py b/skada/_subspace.py
index 3e92b31..1fbc076 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -16,6 +16,7 @@ from sklearn.metrics.pairwise import pairwise_kernels
 from sklearn.neighbors import KNeighborsClassifier
 from sklearn.svm import SVC
 from sklearn.utils import check_random_state
+from sklearn.utils.validation import check_is_fitted
 
 from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
@@ -125,6 +126,7 @@ class SubspaceAlignmentAdapter(BaseAdapter):
         X_t : array-like, shape (n_samples, n_components)
             The data transformed to the target subspace.
         """
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -349,6 +351,7 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         X_t : array-like, shape (n_samples, n_components)
             The data transformed to the target subspace.
         """
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -515,6 +518,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
         X_t : array-like, shape (n_samples, n_components)
             The data transformed to the target subspace.
         """
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
@@ -945,6 +949,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
     def transform(
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(
             X,
             sample_domain,
-- 
2.43.0


From 2359ae836f9eba3160fab1ec6ed3b319315098ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 22/60] fix: keep reg as given to
 TransferSubspaceLearningAdapter

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 1fbc076..13e66c4 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -781,7 +781,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         self.mu = mu
         if reg is not None and (reg < 0 or reg > 1):
             raise ValueError("reg should be None or between 0 and 1.")
-        self.reg = 0 if reg is None else reg
+        self.reg = reg
         self.max_iter = max_iter
         self.tol = tol
         self.verbose = verbose
@@ -790,7 +790,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         """Compute the covariance matrix of X using torch."""
         if self.torch:
             import torch
-        reg = self.reg
+        reg = 0 if self.reg is None else self.reg
 
         n_samples, d = X.shape
         X = X - torch.mean(X, dim=0)
-- 
2.43.0


From 7eab07de1a1959ae0a79cd9b9f1ce53f47b69da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 23/60] fix: accept allow_source in JDOTRegressor as requested
 by its metadata

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..2f94643 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -592,7 +592,7 @@ class JDOTRegressor(DAEstimator):
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
@@ -602,7 +602,7 @@ class JDOTRegressor(DAEstimator):
             )
         return self.estimator_.predict(X)
 
-    def score(self, X, y, sample_domain=None, *, sample_weight=None):
+    def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From 4f7a74ac0871d6d284e18770f589b1c0c3f36e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 24/60] fix: return the estimator from fit of JDOT estimators

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index 2f94643..affd382 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -591,6 +591,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
@@ -721,6 +722,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From a56c266c74ca060304989a099b73522ebf644428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 25/60] fix: assign JCPOT propagated labels to the right
 samples and classes

---
 skada/_ot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index affd382..de6cd7f 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -951,18 +951,21 @@ class JCPOTLabelPropAdapter(BaseAdapter):
     def fit_transform(self, X, y, sample_domain=None, *, sample_weight=None):
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
 
-        sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
+        sources, _ = per_domain_split(X, y, sample_domain=sample_domain)
 
         Xs = [X for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
 
+        # JCPOT works with class indices
+        classes, ys_idx = np.unique(np.concatenate(ys), return_inverse=True)
+        ys = np.split(ys_idx, np.cumsum([len(y) for y in ys])[:-1])
+
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        # propagated labels follow the order of target samples
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
@@ -978,7 +981,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = classes[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 18b00469b65f75b3373cb37b5f1c15bb5528e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 26/60] fix: forward verbose to the JCPOT solver

---
 skada/_ot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index de6cd7f..782595e 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -972,6 +972,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
             metric=self.metric,
             max_iter=self.max_iter,
             tol=self.tol,
+            verbose=self.verbose,
             log=True,
         )
 
-- 
2.43.0


From d8e25bd94364935adaf130ee2b902bc66d4f388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 27/60] fix: do not fit the base estimator given to
 DASVMClassifier nor predict probabilities with it

---
 skada/_self_labeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..6e6cbed 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -169,7 +169,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -293,7 +293,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From de7aa0a4989e170498c22719c5496b9d4e5a1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 28/60] fix: raise NotFittedError when an unfitted
 DASVMClassifier predicts

---
 skada/_self_labeling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6e6cbed..bbc879a 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -277,6 +277,7 @@ class DASVMClassifier(DAEstimator):
         """Return predicted value by the fitted estimator for `X`
         `predict` method from the estimator we fitted
         """
+        check_is_fitted(self)
         return self.base_estimator_.predict(X, **kwargs)
 
     def _check_proba(self):
@@ -300,6 +301,7 @@ class DASVMClassifier(DAEstimator):
                 fitted estimator for `X`
         `decision_function` method from the base_estimator_ we fitted
         """
+        check_is_fitted(self)
         return self.base_estimator_.decision_function(X)
 
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
-- 
2.43.0


From cf7f99ccb7e4857db9616752e21de5b526d2654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 29/60] fix: leave the parameters of GradualEstimator untouched
 by fit

---
 skada/_gradual_da.py | 60 ++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..29c8739 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -108,14 +109,15 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        ot_method = clone(self.ot_method)
+        ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = ot_method.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -125,20 +127,22 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -198,7 +202,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -226,14 +230,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -248,16 +248,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -272,18 +268,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -300,10 +292,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From 8b5ad9c02e9cd709fa1e6af9ae171603eac2250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 30/60] fix: handle ties in the transport plan of
 GradualEstimator

---
 skada/_gradual_da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 29c8739..db714b5 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -196,7 +196,7 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
         X_source = X[source]
         X_target = X[target]
-        X_step = np.zeros((self.max_index + 1, X.shape[1]))
+        X_step = np.zeros((np.count_nonzero(mask_gamma), X.shape[1]))
         for idx, (i, j) in enumerate(np.argwhere(mask_gamma)):
             X_step[idx] = (self.n_steps - step) * X_source[
                 i
-- 
2.43.0


From a6c29147949b826dff97085a71e172881a94a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 31/60] fix: weight each validation error by its own importance
 in DeepEmbeddedValidation

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..33e7d31 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -464,8 +464,9 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             X_val, sample_domain=sample_domain_val, allow_source=True
         )
 
-        error = self._loss_func(y_val, y_pred)
+        error = np.asarray(self._loss_func(y_val, y_pred))
         assert weights.shape[0] == error.shape[0]
+        error = error.reshape(weights.shape)
 
         weighted_error = weights * error
         weights_m = np.concatenate((weighted_error, weights), axis=1)
-- 
2.43.0


From 540b7db4d058665ef2193f0d62ac9a45de8fa471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 32/60] fix: do not overwrite logits in MaNoScorer

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 33e7d31..216c96d 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -917,7 +917,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From d1c2d687ccf4cd27a7458f5ce2099c401aada33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 33/60] fix: swap domain 0 as well as the others in
 CircularValidation

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 216c96d..61eb6de 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -624,7 +624,8 @@ class CircularValidation(_BaseDomainAwareScorer):
                 le.fit(y_pred_target)
                 y_pred_target = le.transform(y_pred_target)
 
-            backward_sample_domain = -sample_domain
+            # swap sources (>= 0) and targets (< 0), domain 0 included
+            backward_sample_domain = -sample_domain - 1
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From 3ecf53964fdf3dcbbb3c976c7439a82604ea245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 34/60] fix: update the memory bank with the features and
 outputs of the batch

---
 skada/deep/callbacks.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..e194bce 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -157,14 +157,16 @@ class MemoryBank(Callback):
             outputs_target = softmax_out**2 / ((softmax_out**2).sum(dim=0))
 
             new_memory_features = (
-                1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+                (1.0 - self.momentum)
+                * net.criterion__adapt_criterion.memory_features[batch_idx]
+                + self.momentum * features_t.clone()
+            )
 
             new_memory_outputs = (
-                1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+                (1.0 - self.momentum)
+                * net.criterion__adapt_criterion.memory_outputs[batch_idx]
+                + self.momentum * outputs_target.clone()
+            )
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From 76be4f3d041b350fc5a532e278f5a961e2bcecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 35/60] fix: restart the epoch counter of the criterion when
 training begins

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index e194bce..e1c1b7b 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 140be9fd334759e907a3cbe9428978aa2bb03740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 36/60] fix: do not extend the callbacks list given to CAN and
 SPA

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..4be4306 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = [*callbacks, ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..437ba06 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = [*callbacks, MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From f10ffab4a7a5921ba131a3de6b048f0d817f9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 37/60] fix: use the target class of each sample only in
 ModifiedCrossEntropyLoss

---
 skada/deep/_adversarial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..12b0199 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -411,7 +411,8 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        # probability of the target class of each sample
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 78f3c86742ad3d0bfdd6a5dec33b441d29d58933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 38/60] fix: do not reseed the global generator of torch in
 check_generator

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From c85bdb9b35b68b8ad78c69cd401d6378ca2c377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 39/60] fix: take random_state into account in SphericalKMeans

---
 skada/deep/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..a671bde 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(n_samples, generator=generator)
+            indices = indices[:self.n_clusters].to(self.device)
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +199,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 67d009df4837e698d65472abe2f42f74c52aa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 40/60] fix: make the output of the binary DomainClassifier
 depend on its input

---
 skada/deep/modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..ebab595 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,8 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            # softmax over a single output is always one
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=-1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From 37a45eb0aa278febcc14feaa6696dadc3b1beccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 41/60] fix: weight samples of domain 0 in the loss of
 DomainAwareNet

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..3bdf5ae 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -886,7 +886,7 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            sample_weight = sample_weight[X["sample_domain"] >= 0]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 956135b7695ee2e72d3119b9848117bfecb407b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 42/60] fix: score DomainAwareNet on labels and weights of
 target samples when sources are dropped

---
 skada/deep/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 3bdf5ae..23c950d 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -699,6 +699,11 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
         if not allow_source:
+            target_idx = to_numpy(X.sample_domain < 0)
+            if y is not None and len(y) == len(target_idx):
+                y = to_numpy(torch.as_tensor(y))[target_idx]
+            if sample_weight is not None and len(sample_weight) == len(target_idx):
+                sample_weight = to_numpy(torch.as_tensor(sample_weight))[target_idx]
             X = X.select_target()
 
         return accuracy_score(
-- 
2.43.0


From 923705dd8e08cbf2240460bb15a0e3b90be76cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 43/60] fix: accept sample weights in CDANModule

---
 skada/deep/_adversarial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 12b0199..de62a98 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -245,13 +245,17 @@ class CDANModule(DomainAwareModule):
         self,
         X,
         sample_domain=None,
-        sample_idx=None,
+        sample_weight=None,
         is_fit=False,
         return_features=False,
+        sample_idx=None,
     ):
         if is_fit:
             # predict
-            y_pred = self.base_module_(X)
+            if sample_weight is not None:
+                y_pred = self.base_module_(X, sample_weight=sample_weight)
+            else:
+                y_pred = self.base_module_(X)
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
-- 
2.43.0


From 3a1889074b09128c3650a7f5a64b977aa36baf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 44/60] fix: keep the parameters of CDANModule when it is
 cloned

---
 skada/deep/_adversarial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index de62a98..000d9cc 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -241,6 +241,12 @@ class CDANModule(DomainAwareModule):
         self.max_features = max_features
         self.random_state = random_state
 
+    def get_params(self, deep=True):
+        params = super().get_params(deep=deep)
+        params["max_features"] = self.max_features
+        params["random_state"] = self.random_state
+        return params
+
     def forward(
         self,
         X,
-- 
2.43.0


From 309fcd179d8e4c813ad18a02359b1b57a78216b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 45/60] fix: ask for n_classes when MDD creates its classifier

---
 skada/deep/_adversarial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 000d9cc..f90a9cd 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -540,6 +540,10 @@ def MDD(
             raise ValueError(
                 "If disc_classifier is None, num_features has to be provided"
             )
+        if n_classes is None:
+            raise ValueError(
+                "If disc_classifier is None, n_classes has to be provided"
+            )
         disc_classifier = DomainClassifier(
             num_features=num_features, n_classes=n_classes
         )
-- 
2.43.0


From ed0532ae5877f9f26f2dfd870ce1a2f9b02aac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 46/60] fix: accept a single domain label for all samples in
 DeepDADataset

---
 skada/deep/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 23c950d..f64e992 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1046,7 +1046,9 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None or (
+            not isinstance(sample_domain, int) and len(sample_domain) == 0
+        ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
             sample_domain = torch.full((X.shape[0],), sample_domain)
-- 
2.43.0


From bac7f89e92ac10ad759fec333e5e74df44f98189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 47/60] fix: reject unknown max_samples in
 DomainBalancedSampler

---
 skada/deep/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index f64e992..dd55b9c 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -220,6 +220,8 @@ class DomainBalancedSampler(Sampler):
             self.num_samples = self.num_samples_source
         elif max_samples == "target":
             self.num_samples = self.num_samples_target
+        else:
+            raise ValueError(f"Unknown max_samples: {max_samples}")
 
     def __iter__(self):
         positive_sampler = torch.utils.data.sampler.RandomSampler(self.positive_indices)
-- 
2.43.0


From 38c02f4fa52623b5f8814078e81faccc09fc6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 48/60] fix: raise ValueError when selecting on missing weights
 in DeepDADataset

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index dd55b9c..de07a13 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1337,8 +1337,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("There are no sample weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From b81e0e5555453df011bfd2fedc03f6231eabb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 49/60] fix: refresh sample indices when DeepDADataset merges
 in place

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index de07a13..b7fa099 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1146,6 +1146,7 @@ class DeepDADataset(Dataset):
                 self.has_y = torch.cat((self.has_y, dataset.has_y))
                 self.has_weights = bool(len(self.sample_weight))
                 self.device = str(X.device)
+                self._sample_idx = self._infer_sample_idx()
                 assert self._is_correct(), (
                     "Every input data X should have a domain associated, a label (if there is "
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
-- 
2.43.0


From ace627dbe0b7fe7738ad5e1d10e6929a97c82cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 50/60] fix: mask target labels of every type when packing

---
 skada/datasets/_base.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..acab2be 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -314,7 +314,6 @@ class DomainAwareDataset:
             sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
-        dtype = None
         for domain_name in as_targets:
             domain_id = self.domain_names_[domain_name]
             target = self.get_domain(domain_name)
@@ -328,16 +327,7 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
-                if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
-                    # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                y = _masked_labels(y, mask)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
@@ -582,6 +572,27 @@ class DomainAwareDataset:
         return domain_str
 
 
+def _masked_labels(y: ArrayLike, mask: Union[None, int, float] = None) -> ArrayLike:
+    """Labels of the same length and container as `y` carrying nothing but the mask.
+
+    Unless `mask` is given, labels are masked with nan when they are real numbers
+    (regression) and with -1 otherwise (classification).
+    """
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        if mask is None:
+            if y.is_floating_point():
+                return torch.full_like(y, torch.nan)
+            dtype = torch.int64 if y.dtype in (torch.bool, torch.uint8) else y.dtype
+            return torch.full_like(y, -1, dtype=dtype)
+        return torch.full((len(y),), mask, device=y.device)
+    y = np.asarray(y)
+    if mask is not None:
+        return np.array([mask] * len(y))
+    if y.dtype.kind == "f":
+        return np.full(len(y), np.nan, dtype=y.dtype)
+    return np.full(len(y), -1, dtype=y.dtype if y.dtype.kind == "i" else int)
+
+
 # xxx(okachaiev): putting `domain_names` first argument
 # so it's compatible with `partial`
 def select_domain(
-- 
2.43.0


From 027aec00ef9b4f96539f729efee82b58953ae0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 51/60] fix: handle unlabeled domains and dictionaries in
 DomainAwareDataset

---
 skada/datasets/_base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index acab2be..78c3e94 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -111,12 +111,21 @@ class DomainAwareDataset:
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
+            if isinstance(domains, dict):
+                domains = [
+                    (*d, *[None] * (2 - len(d)), domain_name)
+                    for domain_name, d in domains.items()
+                ]
             for d in domains:
-                if len(d) == 2:
+                y, domain_name = None, None
+                if len(d) == 1:
+                    (X,) = d
+                elif len(d) == 2:
                     X, y = d
-                    domain_name = None
                 elif len(d) == 3:
                     X, y, domain_name = d
+                else:
+                    raise ValueError("Invalid definition for domain data")
                 self.add_domain(X, y=y, domain_name=domain_name)
 
     def add_domain(
@@ -169,10 +178,8 @@ class DomainAwareDataset:
             The updated dataset.
         """
         for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            X, *labels = dataset.get_domain(domain_name)
+            y = labels[0] if labels else None
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
             self.add_domain(X, y, domain_name)
-- 
2.43.0


From 8c35eb24202d6808e4954e4d1b27c1c589bf29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 52/60] fix: do not take an interrupted download for a dataset

---
 skada/datasets/_amazon_review.py | 17 ++++++++++-------
 skada/datasets/_base.py          | 17 +++++++++++++++++
 skada/datasets/_office.py        | 21 ++++++++++++---------
 skada/datasets/_office_home.py   | 32 +++++++++++++++++++-------------
 4 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..14081d4 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -16,7 +16,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staging_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -205,12 +205,15 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staging_dir(data_home) as staging_dir:
+            staged_dataset_dir = os.path.join(staging_dir, loader_spec.dataset_dir)
+            os.makedirs(staged_dataset_dir)
+            _download_amazon_review(
+                loader_spec.remote,
+                staging_dir,
+                staged_dataset_dir,
+            )
+            os.rename(staged_dataset_dir, dataset_dir)
 
     (X, y) = _load_amazon_review(
         dataset_dir,
diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 78c3e94..131117f 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -4,7 +4,10 @@
 # License: BSD 3-Clause
 
 import os
+import shutil
+import tempfile
 import warnings
+from contextlib import contextmanager
 from functools import reduce
 from typing import Dict, Iterable, List, Literal, Mapping, Optional, Tuple, Union
 
@@ -81,6 +84,20 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+@contextmanager
+def _staging_dir(data_home: Union[str, os.PathLike]):
+    """Temporary folder in `data_home` to prepare a dataset in.
+
+    A dataset has to be moved to its final location only when it is complete, so
+    that an interrupted download is not taken for the dataset later on.
+    """
+    staging_dir = tempfile.mkdtemp(prefix=".staging_", dir=data_home)
+    try:
+        yield staging_dir
+    finally:
+        shutil.rmtree(staging_dir, ignore_errors=True)
+
+
 class DomainAwareDataset:
     """
     Container carrying all dataset domains.
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..8c091a5 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -21,7 +21,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staging_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -403,14 +403,17 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        # juggling with `extract_root` is only required because SURF features
-        # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
-        )
+        with _staging_dir(data_home) as staging_dir:
+            staged_dataset_dir = os.path.join(staging_dir, loader_spec.dataset_dir)
+            os.makedirs(staged_dataset_dir)
+            # juggling with `extract_root` is only required because SURF features
+            # were archived with root folder and DECAF without it
+            _download_office31(
+                loader_spec.remote,
+                staging_dir,
+                staging_dir if loader_spec.extract_root else staged_dataset_dir,
+            )
+            os.rename(staged_dataset_dir, dataset_dir)
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
         categories = None
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..6729f66 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -17,7 +17,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staging_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -187,12 +187,15 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staging_dir(data_home) as staging_dir:
+            staged_dataset_dir = os.path.join(staging_dir, loader_spec.dataset_dir)
+            os.makedirs(staged_dataset_dir)
+            _download_office_home(
+                loader_spec.remote,
+                staging_dir,
+                staged_dataset_dir,
+            )
+            os.rename(staged_dataset_dir, dataset_dir)
 
     (X, y, domains) = _load_office_home_all(
         dataset_dir,
@@ -225,12 +228,15 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staging_dir(data_home) as staging_dir:
+            staged_dataset_dir = os.path.join(staging_dir, loader_spec.dataset_dir)
+            os.makedirs(staged_dataset_dir)
+            _download_office_home(
+                loader_spec.remote,
+                staging_dir,
+                staged_dataset_dir,
+            )
+            os.rename(staged_dataset_dir, dataset_dir)
 
     (X, y) = _load_office_home(
         dataset_dir,
-- 
2.43.0


From 4a84142bc2200016cde9698c95e609fc6bc0e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 53/60] fix: follow set_params when telling transformers from
 final estimators

---
 skada/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 96a7240..e3a39ee 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -211,7 +211,6 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         self.base_estimator = base_estimator
         self.base_estimator.set_params(**kwargs)
         self._is_final = False
-        self._is_transformer = hasattr(base_estimator, 'transform')
         self.mask_target_labels = mask_target_labels
 
     def get_metadata_routing(self):
@@ -282,6 +281,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         self.base_estimator.set_params(**kwargs)
         return self
 
+    @property
+    def _is_transformer(self) -> bool:
+        return hasattr(self.base_estimator, 'transform')
+
     def _mark_as_final(self):
         self._is_final = True
         return self
@@ -627,7 +630,10 @@ class SelectSourceTarget(BaseSelector):
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-        self._is_transformer = hasattr(source_estimator, 'transform')
+
+    @property
+    def _is_transformer(self) -> bool:
+        return hasattr(self.source_estimator, 'transform')
 
     def get_metadata_routing(self):
         routing = MetadataRouter(owner=self.__class__.__name__).add_self_request(self)
-- 
2.43.0


From b82378b7f15ba12d3341258dfc3f639a551d9d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 54/60] fix: reject unknown options in DASVMClassifier instead
 of dropping them

---
 skada/_self_labeling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index bbc879a..56f71dd 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -74,7 +74,6 @@ class DASVMClassifier(DAEstimator):
         max_iter=1_000,
         save_estimators=False,
         save_indices=False,
-        **kwargs,
     ):
         super().__init__()
         if base_estimator is None:
-- 
2.43.0


From b9b0abc6f5b75b51b6a6c1b3fcc7ae41dc84a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 55/60] fix: reject arrays of inconsistent length in
 per_domain_split

---
 skada/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index 89d93fe..bd316a4 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -360,7 +360,7 @@ def per_domain_split(
     if len(arrays) == 0:
         raise ValueError("At least one array required as input")
 
-    check_consistent_length(arrays)
+    check_consistent_length(*arrays, sample_domain)
 
     domain_idx = extract_domains_indices(sample_domain, False)
 
-- 
2.43.0


From c4a93a49f00df90aa2015ee3679c02acdc9c7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 56/60] fix: MultiLinearMongeAlignmentAdapter adds reg to the
 covariances

---
 skada/_mapping.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 6f7a3e5..50d90a9 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -524,7 +524,7 @@ def LinearOTMapping(
     )
 
 
-def _get_cov_mean(X, w=None, bias=True):
+def _get_cov_mean(X, w=None, bias=True, reg=0.0):
     """Returns covariance and mean
 
     Parameters
@@ -535,6 +535,8 @@ def _get_cov_mean(X, w=None, bias=True):
         The weights of the samples.
     bias: bool, optional (default=True)
         estimate bias (mean).
+    reg : float, optional (default=0.)
+        Regularization added to the diagonal of the covariance.
 
     Returns
     -------
@@ -550,7 +552,7 @@ def _get_cov_mean(X, w=None, bias=True):
     else:
         mean = np.zeros(X.shape[1])
     X = X - mean
-    cov = np.dot(w * X.T, X) / np.sum(w)
+    cov = np.dot(w * X.T, X) / np.sum(w) + reg * np.eye(X.shape[1])
     return cov, mean
 
 
@@ -627,23 +629,19 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
         sources, targets = per_domain_split(X, y, None, sample_domain=sample_domain)
 
         self.cov_means_sources_ = {
-            domain: _get_cov_mean(X, w, bias=self.bias)
+            domain: _get_cov_mean(X, w, bias=self.bias, reg=self.reg)
             for domain, (X, y, w) in sources.items()
         }
 
         self.cov_means_targets_ = {
-            domain: _get_cov_mean(X, w, bias=self.bias)
+            domain: _get_cov_mean(X, w, bias=self.bias, reg=self.reg)
             for domain, (X, y, w) in targets.items()
         }
 
         C = np.stack([cov for cov, mean in self.cov_means_sources_.values()])
         m = np.stack([mean for cov, mean in self.cov_means_sources_.values()])
 
-        self.barycenter_ = bures_wasserstein_barycenter(
-            m,
-            C,
-            eps=self.reg,
-        )
+        self.barycenter_ = bures_wasserstein_barycenter(m, C)
 
         self.mappings_ = {
             domain: bures_wasserstein_mapping(
-- 
2.43.0


From 73f5667218aa49d6e5c69040ff057e39ebf0f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 57/60] fix: generators accept a RandomState instance as
 documented

---
 skada/datasets/_mnist_usps.py        | 3 ++-
 skada/datasets/_samples_generator.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..7425d41 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -11,6 +11,7 @@ except ImportError:
     torchvision = False
 
 import numpy as np
+from sklearn.utils import check_random_state
 
 from skada.datasets import DomainAwareDataset
 
@@ -54,7 +55,7 @@ def load_mnist_usps(
     if n_samples < 0 or n_samples > 1:
         raise ValueError("n_samples should be between 0 and 1.")
 
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     transform = transforms.Compose(
         [
diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From f4b9fdf1493bb21df344c9874ae3fe545eeb7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 58/60] fix: an unnamed domain never takes the name of another
 domain

---
 skada/datasets/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 131117f..cc9b062 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -170,7 +170,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            n = len(self.domain_names_) + 1
+            while f"_{n}" in self.domain_names_:
+                n += 1
+            domain_name = f"_{n}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
-- 
2.43.0


From f6d51227f2f2d2f89cd0e50524386c486ffdee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 59/60] fix: SelectSourceTarget can predict

The inherited predict looked for a base_estimator (or a fitted
estimators_[0]), which this selector has not: it was never available.
---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index e3a39ee..1db9a5d 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -786,6 +786,10 @@ class SelectSourceTarget(BaseSelector):
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     @available_if(_estimator_has('predict_proba', base_attr_name='source_estimator'))
     def predict_proba(self, X, **params):
         return self._route_to_estimator('predict_proba', X, **params)
-- 
2.43.0


From 9552129e7ed21861f854f38002344500812ac45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:58 +0000
Subject: [PATCH 60/60] fix: put made-up labels and domains of DeepDADataset on
 its device

---
 skada/deep/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index b7fa099..3ad5f40 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1053,7 +1053,9 @@ class DeepDADataset(Dataset):
         ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
-            sample_domain = torch.full((X.shape[0],), sample_domain)
+            sample_domain = torch.full(
+                (X.shape[0],), sample_domain, device=self.device
+            )
         else:
             sample_domain = check_array(
                 sample_domain,
@@ -1065,8 +1067,12 @@ class DeepDADataset(Dataset):
             sample_domain = to_tensor(sample_domain, self.device)
 
         if y is None or len(y) == 0:
-            y = torch.full((len(X),), _NO_LABEL_, dtype=torch.float)
-            has_y = torch.full((len(X),), False, dtype=torch.bool)
+            y = torch.full(
+                (len(X),), _NO_LABEL_, dtype=torch.float, device=self.device
+            )
+            has_y = torch.full(
+                (len(X),), False, dtype=torch.bool, device=self.device
+            )
         else:
             y = check_array(
                 y,
-- 
2.43.0

