From 4a4a404804dfb2ae5b96b41ef7b045e70503fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 01/45] fix: serve without distutils, which is third-party
 since Python 3.12

---
 pure_sklearn/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..494b5d2 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -5,8 +5,8 @@ Utility functions
 import pickle
 import time
 
+from re import findall
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +40,11 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _parse_version(version):
+    """ Parses the leading numeric components of a version string """
+    return [int(part) for part in findall(r"\d+", version)[:3]]
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -53,14 +58,14 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
         return
     if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
+        _parse_version(version_) < _parse_version(min_version)
     ):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _parse_version(version_) < _parse_version(MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 204b155a5b107bd9f1a18926c345d637e8aebc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/45] fix: artifacts hold plain python copies of native
 parameters, not numpy scalars or shared lists

---
 pure_sklearn/dummy.py                         |  6 +-
 pure_sklearn/ensemble/_gb.py                  |  6 +-
 .../feature_extraction/_dict_vectorizer.py    |  8 +--
 pure_sklearn/feature_extraction/text.py       | 60 ++++++++++---------
 pure_sklearn/impute/_base.py                  | 22 +++----
 pure_sklearn/linear_model/_base.py            | 10 ++--
 pure_sklearn/pipeline.py                      |  7 ++-
 pure_sklearn/preprocessing/_data.py           | 13 +++-
 pure_sklearn/preprocessing/_encoders.py       |  5 +-
 pure_sklearn/utils.py                         | 21 ++++++-
 pure_sklearn/xgboost/_classes.py              |  6 +-
 11 files changed, 93 insertions(+), 71 deletions(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..5765a45 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -3,7 +3,7 @@ Dummy classifier
 """
 
 from .base import apply_2d, safe_log
-from .utils import check_types, check_version
+from .utils import check_types, check_version, to_pure
 
 __all__ = ["DummyClassifierPure"]
 
@@ -20,9 +20,9 @@ class DummyClassifierPure:
     def __init__(self, estimator):
         check_version(estimator)
         if hasattr(estimator, "_strategy"):
-            self._strategy = estimator._strategy
+            self._strategy = to_pure(estimator._strategy)
         else:
-            self._strategy = estimator.strategy
+            self._strategy = to_pure(estimator.strategy)
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..23d47c8 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -11,7 +11,7 @@ from ._gb_losses import (
 )
 
 from ..base import transpose, apply_2d, safe_log, operate_2d
-from ..utils import check_version, check_types, check_array, shape
+from ..utils import check_version, check_types, check_array, shape, to_pure
 from ..map import convert_estimator
 
 
@@ -35,8 +35,8 @@ class GradientBoostingClassifierPure:
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
             self.init_ = convert_estimator(estimator.init_)
-        self.loss = estimator.loss
-        self.learning_rate = estimator.learning_rate
+        self.loss = to_pure(estimator.loss)
+        self.learning_rate = to_pure(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
         if self.loss == "deviance":
             self.loss_ = (
diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..6e5edf8 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -4,7 +4,7 @@ Dictionary vectorizer
 
 from collections.abc import Mapping
 
-from ..utils import check_types, sparse_list, convert_type, check_version
+from ..utils import check_types, sparse_list, convert_type, check_version, to_pure
 
 
 class DictVectorizerPure:
@@ -17,11 +17,11 @@ class DictVectorizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.vocabulary_ = estimator.vocabulary_
-        self.feature_names_ = estimator.feature_names_
+        self.vocabulary_ = to_pure(estimator.vocabulary_)
+        self.feature_names_ = to_pure(estimator.feature_names_)
         self.sparse = estimator.sparse
         self.dtype = convert_type(estimator.dtype)
-        self.separator = estimator.separator
+        self.separator = to_pure(estimator.separator)
         check_types(self)
 
     def transform(self, X):
diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..b9296df 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -16,8 +16,8 @@ from ..utils import (
     sparse_list,
     shape,
     check_array,
-    check_types,
     check_version,
+    to_pure,
 )
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
@@ -333,19 +333,21 @@ class CountVectorizerPure(_VectorizerMixinPure):
     def __init__(self, estimator):
         check_version(estimator)
         self.dtype = convert_type(estimator.dtype)
-        self.binary = estimator.binary
-        self.vocabulary_ = {k: int(v) for k, v in estimator.vocabulary_.items()}
-        self.analyzer = estimator.analyzer
-        self.preprocessor = estimator.preprocessor
-        self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
-        self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
-        self.strip_accents = estimator.strip_accents
-        self.decode_error = estimator.decode_error
-        self.encoding = estimator.encoding
-        self.lowercase = estimator.lowercase
-        self.input = estimator.input
+        self.binary = to_pure(estimator.binary)
+        self.vocabulary_ = {
+            to_pure(k): int(v) for k, v in estimator.vocabulary_.items()
+        }
+        self.analyzer = to_pure(estimator.analyzer)
+        self.preprocessor = to_pure(estimator.preprocessor)
+        self.tokenizer = to_pure(estimator.tokenizer)
+        self.stop_words = to_pure(estimator.stop_words)
+        self.token_pattern = to_pure(estimator.token_pattern)
+        self.ngram_range = to_pure(estimator.ngram_range)
+        self.strip_accents = to_pure(estimator.strip_accents)
+        self.decode_error = to_pure(estimator.decode_error)
+        self.encoding = to_pure(estimator.encoding)
+        self.lowercase = to_pure(estimator.lowercase)
+        self.input = to_pure(estimator.input)
         check_types(self)
 
     def _count_vocab(self, raw_documents):
@@ -410,7 +412,7 @@ class TfidfTransformerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.norm = estimator.norm
+        self.norm = to_pure(estimator.norm)
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
@@ -454,20 +456,20 @@ class HashingVectorizerPure(_VectorizerMixinPure):
     def __init__(self, estimator):
         check_version(estimator)
         self.dtype = convert_type(estimator.dtype)
-        self.norm = estimator.norm
-        self.binary = estimator.binary
-        self.analyzer = estimator.analyzer
-        self.preprocessor = estimator.preprocessor
-        self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
-        self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
-        self.strip_accents = estimator.strip_accents
-        self.decode_error = estimator.decode_error
-        self.encoding = estimator.encoding
-        self.lowercase = estimator.lowercase
-        self.input = estimator.input
-        self.n_features = estimator.n_features
+        self.norm = to_pure(estimator.norm)
+        self.binary = to_pure(estimator.binary)
+        self.analyzer = to_pure(estimator.analyzer)
+        self.preprocessor = to_pure(estimator.preprocessor)
+        self.tokenizer = to_pure(estimator.tokenizer)
+        self.stop_words = to_pure(estimator.stop_words)
+        self.token_pattern = to_pure(estimator.token_pattern)
+        self.ngram_range = to_pure(estimator.ngram_range)
+        self.strip_accents = to_pure(estimator.strip_accents)
+        self.decode_error = to_pure(estimator.decode_error)
+        self.encoding = to_pure(estimator.encoding)
+        self.lowercase = to_pure(estimator.lowercase)
+        self.input = to_pure(estimator.input)
+        self.n_features = to_pure(estimator.n_features)
         self.alternate_sign = estimator.alternate_sign
         check_types(self)
 
diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..de5f540 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -4,7 +4,7 @@ Imputer transformers
 
 from math import isnan
 
-from ..utils import shape, check_array, check_types, check_version
+from ..utils import shape, check_array, check_types, check_version, to_pure
 from ..base import apply_2d, apply_axis_2d
 
 
@@ -25,15 +25,11 @@ class MissingIndicatorPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.features = estimator.features
+        self.features = to_pure(estimator.features)
         self.features_ = estimator.features_.tolist()
         self._n_features = estimator._n_features
-        self.missing_values = (
-            float(estimator.missing_values)
-            if isinstance(estimator.missing_values, float)
-            else estimator.missing_values
-        )
-        self.error_on_new = estimator.error_on_new
+        self.missing_values = to_pure(estimator.missing_values)
+        self.error_on_new = to_pure(estimator.error_on_new)
         check_types(self)
 
     def transform(self, X):
@@ -84,17 +80,13 @@ class SimpleImputerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.statistics_ = estimator.statistics_.tolist()
-        self.strategy = estimator.strategy
+        self.statistics_ = to_pure(estimator.statistics_.tolist())
+        self.strategy = to_pure(estimator.strategy)
         if hasattr(estimator, "add_indicator"):
             self.add_indicator = estimator.add_indicator
         else:
             self.add_indicator = False
-        self.missing_values = (
-            float(estimator.missing_values)
-            if isinstance(estimator.missing_values, float)
-            else estimator.missing_values
-        )
+        self.missing_values = to_pure(estimator.missing_values)
         if hasattr(estimator, "indicator_") and (estimator.indicator_ is not None):
             self.indicator_ = MissingIndicatorPure(estimator.indicator_)
             self.indicator_.error_on_new = False
diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index da2db9a..994108f 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -4,7 +4,7 @@ Generalized linear models
 
 from operator import add
 
-from ..utils import check_array, ndim, shape, check_types
+from ..utils import check_array, ndim, shape, check_types, to_pure
 from ..base import dot, expit, ravel
 
 
@@ -16,15 +16,15 @@ class LinearClassifierMixinPure:
         self.classes_ = estimator.classes_.tolist()
         if hasattr(estimator, "intercept_"):
             if isinstance(estimator.intercept_, float):
-                self.intercept_ = [estimator.intercept_] * len(self.classes_)
+                self.intercept_ = [float(estimator.intercept_)] * len(self.classes_)
             else:
                 self.intercept_ = estimator.intercept_.tolist()
         if hasattr(estimator, "multi_class"):
-            self.multi_class = estimator.multi_class
+            self.multi_class = to_pure(estimator.multi_class)
         if hasattr(estimator, "solver"):
-            self.solver = estimator.solver
+            self.solver = to_pure(estimator.solver)
         if hasattr(estimator, "loss"):
-            self.loss = estimator.loss
+            self.loss = to_pure(estimator.loss)
         check_types(self)
 
     def decision_function(self, X):
diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..2c767f2 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -15,6 +15,7 @@ from .utils import (
     check_types,
     sparse_list,
     check_version,
+    to_pure,
 )
 from .map import convert_estimator
 
@@ -77,7 +78,7 @@ class PipelinePure:
         self.steps = []
         for step in estimator.steps:
             step_ = convert_estimator(step[1])
-            self.steps.append((step[0], step_))
+            self.steps.append((to_pure(step[0]), step_))
         check_types(self)
 
     def _iter(self, with_final=True, filter_passthrough=True):
@@ -164,7 +165,7 @@ class FeatureUnionPure:
         self.transformer_list = []
         for step in estimator.transformer_list:
             step_ = convert_estimator(step[1])
-            self.transformer_list.append((step[0], step_))
+            self.transformer_list.append((to_pure(step[0]), step_))
 
         if hasattr(estimator, "transformer_weights"):
             if estimator.transformer_weights is None:
@@ -172,7 +173,7 @@ class FeatureUnionPure:
             else:
                 self.transformer_weights = {}
                 for k, v in estimator.transformer_weights.items():
-                    self.transformer_weights[k] = float(v)
+                    self.transformer_weights[to_pure(k)] = float(v)
         check_types(self)
 
     def _iter(self):
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..4bb0c94 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -5,7 +5,14 @@ Normalization and scaling
 from math import sqrt
 from copy import copy as cp
 
-from ..utils import sparse_list, issparse, check_array, check_types, check_version
+from ..utils import (
+    sparse_list,
+    issparse,
+    check_array,
+    check_types,
+    check_version,
+    to_pure,
+)
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
 
@@ -96,7 +103,7 @@ class NormalizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.norm = estimator.norm
+        self.norm = to_pure(estimator.norm)
         self.copy = estimator.copy
         check_types(self)
 
@@ -162,7 +169,7 @@ class MinMaxScalerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.feature_range = estimator.feature_range
+        self.feature_range = to_pure(estimator.feature_range)
         if estimator.scale_ is None:
             self.scale_ = None
         else:
diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..04f2c9a 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -9,6 +9,7 @@ from ..utils import (
     sparse_list,
     convert_type,
     check_version,
+    to_pure,
 )
 from ..base import accumu, apply_2d, ravel
 from ._label import _encode, _encode_check_unknown
@@ -23,13 +24,13 @@ class _BaseEncoderPure:
     def __init__(self, estimator):
         check_version(estimator)
         self.dtype = convert_type(estimator.dtype)
-        self.categories_ = [a.tolist() for a in estimator.categories_]
+        self.categories_ = [to_pure(a.tolist()) for a in estimator.categories_]
         if hasattr(estimator, "sparse"):
             self.sparse = estimator.sparse
         if hasattr(estimator, "drop") and (estimator.drop is not None):
             raise ValueError("Encoder does not handle 'drop' functionality")
         if hasattr(estimator, "handle_unknown"):
-            self.handle_unknown = estimator.handle_unknown
+            self.handle_unknown = to_pure(estimator.handle_unknown)
         check_types(self)
 
     def _check_X(self, X):
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 494b5d2..bd38e22 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -29,7 +29,8 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
             for k, v in obj.items():
                 check_types(k)
                 check_types(v)
-    elif isinstance(obj, types):
+    elif isinstance(obj, types) and not hasattr(obj, "item"):
+        # numpy scalars can subclass the python types but need numpy to unpickle
         pass
     elif "pure_sklearn" in str(type(obj)):
         for attr in vars(obj):
@@ -69,6 +70,24 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
 
 
+def to_pure(obj):
+    """
+    Copies a parameter of a fitted estimator, replacing numpy scalars by
+    their pure python equivalents. Containers are copied recursively so
+    that the copy shares no state with the estimator.
+    """
+    if isinstance(obj, dict):
+        return {to_pure(k): to_pure(v) for k, v in obj.items()}
+    elif type(obj) is list:
+        return [to_pure(ob) for ob in obj]
+    elif type(obj) is tuple:
+        return tuple(to_pure(ob) for ob in obj)
+    elif isinstance(obj, TYPES) and not isinstance(obj, type) and hasattr(obj, "item"):
+        return obj.item()
+    else:
+        return obj
+
+
 def convert_type(dtype):
     """ Converts a datatype to its pure python equivalent """
     val = dtype(0)
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..edbc1c4 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -5,7 +5,7 @@ Estimator classes for xgboost
 from math import exp
 
 from ..base import sfmax, expit
-from ..utils import check_types, check_array
+from ..utils import check_types, check_array, to_pure
 from ..tree import DecisionTreeRegressorPure
 
 MIN_VERSION = "0.82"
@@ -32,11 +32,11 @@ class XGBClassifierPure:
                 )
             )
         else:
-            self.objective = estimator.objective
+            self.objective = to_pure(estimator.objective)
         if estimator.booster not in SUPPORTED_BOOSTER:
             raise ValueError("Booster: '{}' not supported".format(estimator.booster))
         else:
-            self.booster = estimator.booster
+            self.booster = to_pure(estimator.booster)
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
-- 
2.43.0


From 96258f5a3d9ace4706b3ca411254d28e71eb74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 03/45] fix: TfidfTransformer no longer edits the caller's
 rows, and sublinear_tf works

---
 pure_sklearn/feature_extraction/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index b9296df..70a5783 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -17,8 +17,10 @@ from ..utils import (
     shape,
     check_array,
     check_version,
+    issparse,
     to_pure,
 )
+from ..base import safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -424,16 +426,20 @@ class TfidfTransformerPure:
         X = check_array(X, handle_sparse="allow")
         n_samples, n_features = shape(X)
 
+        if copy and issparse(X):
+            X = sparse_list([dict(x) for x in X], size=X.size, dtype=X.dtype)
+
         if self.sublinear_tf:
             for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+                for k, v in X[index].items():
+                    X[index][k] = safe_log(v) + 1
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
             for index in range(len(X)):
                 for k, v in X[index].items():
-- 
2.43.0


From bb82120e0225e3e5029ba189d38fecd35db3ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 04/45] fix: TfidfTransformer fitted with use_idf=False can be
 converted

---
 pure_sklearn/feature_extraction/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 70a5783..6ecaae2 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -418,8 +418,9 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = len(self.idf_)
         check_types(self)
 
     def transform(self, X, copy=True):
-- 
2.43.0


From 78b4e3859153d4c1acb07b2b4874a1b2d724d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 05/45] fix: binary vectorizers return a sparse_list like all
 others

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 6ecaae2..f1572da 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -381,7 +381,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
         return X
 
 
@@ -490,7 +492,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From d01208b78b5fa60595f16acc0b18d6f8440a8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 06/45] fix: feature hashing sums repeated tokens instead of
 keeping the last one

---
 pure_sklearn/feature_extraction/_hash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..923d55d 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -106,10 +106,14 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
                 continue
 
             h = _hash(f, seed)
-            index = abs(h) % n_features
+            if h == -MAX_INT - 1:
+                # abs(h) overflows in the native 32bit arithmetic
+                index = (MAX_INT - (n_features - 1)) % n_features
+            else:
+                index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From a2714f9275e964cedb7de8adfdf88f44b7f5c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 07/45] fix: DummyClassifier predicts class labels, not class
 positions

---
 pure_sklearn/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 5765a45..6d9a71a 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -25,13 +25,15 @@ class DummyClassifierPure:
             self._strategy = to_pure(estimator.strategy)
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
+        self.classes_ = estimator.classes_.tolist()
         self.class_prior_ = estimator.class_prior_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        idx = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[idx]] * len(X)
 
     def predict_proba(self, X):
         return [self.class_prior_] * len(X)
-- 
2.43.0


From 8e0a86e0c6208d36efce157f84b6718c01e3d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 08/45] fix: DummyClassifier.predict_proba returns rows of its
 own, not the model's prior

---
 pure_sklearn/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 6d9a71a..64acfdc 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -36,7 +36,7 @@ class DummyClassifierPure:
         return [self.classes_[idx]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in X]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 8419af5f90622bf163a9b3194c13f7d057a8acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 09/45] fix: MissingIndicator compares feature indices, not
 missing counts, with the fitted ones

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index de5f540..7febeb5 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -66,7 +66,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 01b1e729c9bcd34688112e98e94a9feb981baee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 10/45] fix: SimpleImputer and MissingIndicator handle string
 columns

---
 pure_sklearn/impute/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 7febeb5..02b0cfb 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -8,9 +8,13 @@ from ..utils import shape, check_array, check_types, check_version, to_pure
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    return isinstance(val, float) and isnan(val)
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -138,7 +142,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From 949270ab05ec75bd8a319b08d13b28c648f40c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 11/45] fix: StandardScaler without centering and scaling
 returns a copy, not the request itself

---
 pure_sklearn/preprocessing/_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4bb0c94..dfaefce 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -148,7 +148,9 @@ class StandardScalerPure:
                 )
             if self.scale_ is not None:
                 X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
-                X = sparse_list(X_, size=X.size, dtype=X.dtype)
+            else:
+                X_ = [dict(x) for x in X]
+            X = sparse_list(X_, size=X.size, dtype=X.dtype)
         else:
             if self.with_mean:
                 X = [[x[i] - self.mean_[i] for i in range(len(self.mean_))] for x in X]
@@ -156,6 +158,8 @@ class StandardScalerPure:
                 X = [
                     [x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X
                 ]
+            if not (self.with_mean or self.with_std):
+                X = [list(x) for x in X]
         return X
 
 
-- 
2.43.0


From a5810b0bb43f08af6453dd018025588c118b6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 12/45] fix: max norm uses absolute values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index dfaefce..a1a19f7 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -64,7 +64,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -77,7 +77,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From 2749229f8ee385a8d352bd93bef57034a8bae89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 13/45] fix: OneHotEncoder offsets columns by all preceding
 categories

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index 04f2c9a..e924b04 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -131,7 +131,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 273c539f7ab085857d60397a54741dee140850db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 14/45] fix: exponential loss probability is expit(2x)

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..2dcbaa5 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -104,7 +104,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From 2d39494a22a2d87d2247144d34b5fa53665582ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 15/45] fix: naive Bayes normalises log probabilities without
 underflow

---
 pure_sklearn/naive_bayes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..c6442ac 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -3,7 +3,7 @@ Naive Bayes
 """
 
 from abc import abstractmethod
-from math import pi
+from math import isinf, pi
 
 from .base import dot, transpose, safe_log, safe_exp
 from .utils import check_array, check_types, check_version
@@ -11,6 +11,14 @@ from .utils import check_array, check_types, check_version
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
 
+def _logsumexp(arr):
+    """ Logarithm of the sum of exponentials, without over- or underflow """
+    max_ = max(arr)
+    if isinf(max_):
+        return max_
+    return max_ + safe_log(sum(safe_exp(x - max_) for x in arr))
+
+
 class _BaseNBPure:
     """ Base class for naive Bayes classifiers """
 
@@ -33,7 +41,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(_logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From 1d9373c0cbc8ceb9022289363771d7022cd5b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 16/45] fix: softmax does not overflow for large scores

---
 pure_sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..56fab9f 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,11 +74,13 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        max_ = max(arr.values())
+        expons = {k: safe_exp(v - max_) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        max_ = max(arr)
+        expons = [safe_exp(x - max_) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From 0d21d79ae4847a55a8be85e9b1404a1dbe42b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 17/45] fix: FeatureUnion weights apply to sparse transformers
 too

---
 pure_sklearn/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 2c767f2..586ccf7 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -62,7 +62,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
-    return apply_2d(res, lambda x: x * weight)
+    apply = apply_2d_sparse if issparse(res) else apply_2d
+    return apply(res, lambda x: x * weight)
 
 
 class PipelinePure:
-- 
2.43.0


From 66de786201178be99c47fe7995cd1ccc217d9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 18/45] fix: softmax of an empty sparse row stays empty

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 56fab9f..1222aef 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,7 +74,7 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        max_ = max(arr.values())
+        max_ = max(arr.values(), default=0.0)
         expons = {k: safe_exp(v - max_) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
-- 
2.43.0


From 270b511f1b1d33d9a606e7322e385cdca36f4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 19/45] fix: bagging on feature subsets accepts sparse input

---
 pure_sklearn/ensemble/_bagging.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..d7f23ef 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,12 +6,18 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..utils import shape, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
+    elif issparse(X):
+        return sparse_list(
+            [{j: a[i] for j, i in enumerate(feats) if i in a} for a in X],
+            size=len(feats),
+            dtype=X.dtype,
+        )
     else:
         return [[a[i] for i in feats] for a in X]
 
-- 
2.43.0


From 23e37567d1a8af2cd0309560ec2b864b3e91b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 20/45] fix: bagging handles base estimators that miss a class
 or have no probabilities

---
 pure_sklearn/ensemble/_bagging.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index d7f23ef..a71cbcf 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -39,15 +39,28 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._predict_proba_one(X, 0)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
-            proba = operate_2d(proba, proba_idx, add)
+            proba = operate_2d(proba, self._predict_proba_one(X, idx), add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
+    def _predict_proba_one(self, X, idx):
+        """
+        Probabilities of one base estimator for all classes. It votes if it has
+        no probabilities, and classes missing from its sample are never predicted.
+        """
+        est = self.estimators_[idx]
+        X = _feat_slice(X, self._get_feats(idx))
+        if not hasattr(est, "predict_proba"):
+            classes = range(len(self.classes_))
+            return [[float(c == label) for c in classes] for label in est.predict(X)]
+        proba = est.predict_proba(X)
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        rows = [dict(zip(est.classes_, a)) for a in proba]
+        return [[a.get(c, 0.0) for c in range(len(self.classes_))] for a in rows]
+
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
 
-- 
2.43.0


From a49b908c96ec21ac43f3d633b854fcab4d31529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 21/45] fix: tree conversion leaves the process-wide warning
 filters alone

---
 pure_sklearn/tree/_classes.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..8a9fe91 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -2,8 +2,6 @@
 Classes for tree based models
 """
 
-import warnings
-
 from math import isnan
 
 from ..base import safe_log
@@ -46,12 +44,9 @@ class _DecisionTreeBase:
             self.feature_ = estimator.tree_.feature.tolist()
             self.threshold_ = estimator.tree_.threshold.tolist()
             self.value_ = [a[0] for a in estimator.tree_.value.tolist()]
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
-                if hasattr(estimator, "classes_") and (estimator.classes_ is not None):
-                    self.classes_ = estimator.classes_.tolist()
-                else:
-                    self.classes_ = [0, 1]
+            # `classes_` of regressors is a deprecated property
+            classes = vars(estimator).get("classes_")
+            self.classes_ = [0, 1] if classes is None else classes.tolist()
         check_types(self)
 
     def _get_leaf_node(self, x):
-- 
2.43.0


From ace800914f0a638815d2755aa20b590a3fd2eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 22/45] fix: trees compare features in single precision as the
 native trees do

---
 pure_sklearn/base.py          | 9 +++++++++
 pure_sklearn/tree/_classes.py | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 1222aef..90ca7d9 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -4,6 +4,7 @@ Base functions for matrix calculations
 
 from math import exp, log
 from operator import mul
+from struct import pack, unpack
 
 from .utils import shape, check_array, sparse_list, todense, issparse
 
@@ -103,6 +104,14 @@ def safe_exp(x):
         return float("Inf")
 
 
+def to_float32(x):
+    """ Rounds scalar to the nearest 32bit float """
+    try:
+        return unpack("f", pack("f", x))[0]
+    except OverflowError:
+        return x
+
+
 def operate_2d(A, B, func):
     """ Apply elementwise function to 2-D lists """
     if issparse(A) or issparse(B):
diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8a9fe91..b12e2cc 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -4,7 +4,7 @@ Classes for tree based models
 
 from math import isnan
 
-from ..base import safe_log
+from ..base import safe_log, to_float32
 from ..utils import check_array, check_types, check_version
 
 
@@ -51,9 +51,9 @@ class _DecisionTreeBase:
 
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
-            left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
+            left_equal = lambda nd: to_float32(x.get(self.feature_[nd], 0.0))
         else:
-            left_equal = lambda nd: x[self.feature_[nd]]
+            left_equal = lambda nd: to_float32(x[self.feature_[nd]])
         found_node = False
         node_id = 0
         while not found_node:
-- 
2.43.0


From fa9d5bf55df8e0f6fb3d55ac6f879eaaeb2e3b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 23/45] fix: xgboost trees keep multi-digit and named features
 and survive pruning gaps

---
 pure_sklearn/tree/_classes.py    | 30 +++++++++++-------------------
 pure_sklearn/xgboost/_classes.py |  5 +++--
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index b12e2cc..8d1402c 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -11,31 +11,23 @@ from ..utils import check_array, check_types, check_version
 class _DecisionTreeBase:
     """ Decision tree base class """
 
-    def __init__(self, estimator):
+    def __init__(self, estimator, feature_names=None):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
-            self.children_left_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["Yes"],
-                )
-            )
-            self.children_right_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["No"],
-                )
-            )
-            self.feature_ = list(
-                map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
-                    estimator["Feature"],
-                )
-            )
+            # pruning leaves gaps in the node numbers
+            nodes = {node: i for i, node in enumerate(estimator["ID"])}
+            self.children_left_ = [nodes.get(x, -1) for x in estimator["Yes"]]
+            self.children_right_ = [nodes.get(x, -1) for x in estimator["No"]]
+            self.feature_ = [
+                -2
+                if x == "Leaf"
+                else (feature_names.index(x) if feature_names else int(x[1:]))
+                for x in estimator["Feature"]
+            ]
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index edbc1c4..102373d 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -51,18 +51,19 @@ class XGBClassifierPure:
                 "which is not supported".format(MIN_VERSION)
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
+        feature_names = estimator.get_booster().feature_names
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree)
+                est_row_ = DecisionTreeRegressorPure(tree, feature_names)
                 idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree))
+                    est_row_.append(DecisionTreeRegressorPure(tree, feature_names))
                     idx += 1
             estimators_.append(est_row_)
         return estimators_
-- 
2.43.0


From 9545d7d8924edb59db18acab0d72fb1ea0a059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 24/45] fix: xgboost splits send values equal to the threshold
 right

---
 pure_sklearn/tree/_classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8d1402c..908a83d 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -8,6 +8,12 @@ from ..base import safe_log, to_float32
 from ..utils import check_array, check_types, check_version
 
 
+def _just_below(x):
+    """ Largest threshold t such that (v <= t) == (v < x) for 32bit floats """
+    x = to_float32(x)
+    return x - (abs(x) * 1e-12 or 1e-60)
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
@@ -15,7 +21,7 @@ class _DecisionTreeBase:
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(lambda x: -2 if isnan(x) else _just_below(x), estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
             # pruning leaves gaps in the node numbers
-- 
2.43.0


From 05e1add2cfdf898730655a8aac30871727a1927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 25/45] fix: xgboost models route missing values to the learned
 side

---
 pure_sklearn/tree/_classes.py    | 8 +++++++-
 pure_sklearn/xgboost/_classes.py | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 908a83d..09ef043 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -17,6 +17,8 @@ def _just_below(x):
 class _DecisionTreeBase:
     """ Decision tree base class """
 
+    missing_ = None
+
     def __init__(self, estimator, feature_names=None):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
@@ -28,6 +30,7 @@ class _DecisionTreeBase:
             nodes = {node: i for i, node in enumerate(estimator["ID"])}
             self.children_left_ = [nodes.get(x, -1) for x in estimator["Yes"]]
             self.children_right_ = [nodes.get(x, -1) for x in estimator["No"]]
+            self.missing_ = [nodes.get(x, -1) for x in estimator["Missing"]]
             self.feature_ = [
                 -2
                 if x == "Leaf"
@@ -58,7 +61,10 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                value = left_equal(node_id)
+                if (value != value) and (self.missing_ is not None):
+                    node_id = self.missing_[node_id]
+                elif value <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 102373d..4eec3c6 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -37,6 +37,8 @@ class XGBClassifierPure:
             raise ValueError("Booster: '{}' not supported".format(estimator.booster))
         else:
             self.booster = to_pure(estimator.booster)
+        missing = getattr(estimator, "missing", None)
+        self.missing = float("NaN") if missing is None else to_pure(missing)
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
@@ -92,6 +94,8 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        if self.missing == self.missing:
+            X = [[float("NaN") if v == self.missing else v for v in x] for x in X]
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From 3a231ecbbf0e2a42ad589d92d05fc2d5abb91311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 26/45] fix: xgboost models honour base_score

---
 pure_sklearn/xgboost/_classes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 4eec3c6..472b9f9 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,8 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+from json import loads
+from math import log
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array, to_pure
@@ -42,9 +43,20 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
+        self.base_margin_ = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
+    def _get_base_margin(self, estimator):
+        """ Log odds of the global bias; it cancels out for multi-class """
+        booster = estimator.get_booster()
+        if hasattr(booster, "save_config"):
+            config = loads(booster.save_config())
+            base_score = float(config["learner"]["learner_model_param"]["base_score"])
+        else:
+            base_score = float(estimator.base_score)
+        return -log(1.0 / base_score - 1.0)
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -83,7 +95,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin_] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From 8dc5f31077b6923016b12ae67c9bd976364f7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 27/45] fix: xgboost models stopped early use the rounds up to
 the best one

---
 pure_sklearn/xgboost/_classes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 472b9f9..e09d02d 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -42,11 +42,18 @@ class XGBClassifierPure:
         self.missing = float("NaN") if missing is None else to_pure(missing)
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
+        self.n_estimators = self._get_n_estimators(estimator)
         self.base_margin_ = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
+    def _get_n_estimators(self, estimator):
+        """ Number of boosting rounds used to predict, fewer after early stopping """
+        best_iteration = estimator.get_booster().attr("best_iteration")
+        if best_iteration is None:
+            return estimator.n_estimators
+        return int(best_iteration) + 1
+
     def _get_base_margin(self, estimator):
         """ Log odds of the global bias; it cancels out for multi-class """
         booster = estimator.get_booster()
-- 
2.43.0


From b1177dc452b6c05924eb528f2dc6198b02075f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 28/45] fix: FastText vectors are copies, not rows of the model

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..ee844d1 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -127,7 +127,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 43b661ef4a09e7a935e47c4c234d811e1956f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 29/45] fix: FastText.predict works on lists of texts

---
 pure_fasttext/FastText.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index ee844d1..af8cc89 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -150,12 +150,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 735d6c9b1fe0aaa5f516cd136bd8cfe85f903be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 30/45] fix: FastText.predict with k=-1 returns every label

---
 pure_fasttext/FastText.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index af8cc89..1259f47 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -136,6 +136,8 @@ class _FastText(object):
             preds = sfmax(dot(A, self.output_matrix_))
         else:
             raise ValueError("Predict is not supported for loss: {}".format(self.loss_))
+        if k == -1:
+            k = len(preds)
         argsorted = [i for i in argsort(preds)[::-1] if preds[i] >= threshold]
         pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])
         pred_scores = [preds[i] for i in argsorted[:k]]
-- 
2.43.0


From ad63b5a89666d131ef05d355c5c9fcc409b9489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 31/45] fix: FastText splits text on ASCII whitespace only, as
 the native tokenizer does

---
 pure_fasttext/FastText.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 1259f47..cf4d933 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -4,6 +4,7 @@ Base class for fasttext API implemented in pure python
 
 from math import exp, sqrt
 from operator import mul
+from re import split
 
 EOS = "</s>"
 
@@ -99,16 +100,18 @@ class _FastText(object):
         text += "\n"
 
         if self.supervised_:
+            tokens = split("[ \t\n\v\f\r\0]+", text) + [EOS]
+            tokens = tokens[: tokens.index(EOS) + 1]
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in tokens
                 if word in self.words_
             ]
             return average(raw_words)
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in split("[ \t\n\v\f\r]+", text)
                 if word in self.words_
             ]
             return average(list(map(div_norm, raw_words)))
-- 
2.43.0


From c7a4f715826ac1f7d57a7e2bb4ed18e37165431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 32/45] fix: FastText sentence vector of unknown words is zero,
 not empty

---
 pure_fasttext/FastText.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index cf4d933..f5d3d05 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -114,7 +114,9 @@ class _FastText(object):
                 for word in split("[ \t\n\v\f\r]+", text)
                 if word in self.words_
             ]
-            return average(list(map(div_norm, raw_words)))
+            # words without a direction do not count
+            raw_words = [div_norm(vec) for vec in raw_words if l2_norm(vec) > 0]
+            return average(raw_words) if raw_words else [0.0] * self.dim_
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From 5452b3c1dd975d5d52b9531c9b0ee4248416f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 33/45] fix: FastText refuses supervised models with subwords
 or word n-grams it cannot reproduce

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index f5d3d05..946f723 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -70,6 +70,10 @@ class _FastText(object):
             )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
+        if self.supervised_ and (model.maxn != 0 or model.wordNgrams > 1):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode."
+            )
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
-- 
2.43.0


From de8a977aac2018e1e9982f576f485211b1e8990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 34/45] fix: performance_comparison measures with a monotonic
 clock and survives immeasurable durations

---
 pure_sklearn/utils.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index bd38e22..a57319a 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -208,6 +208,11 @@ class sparse_list(list):
         return A_dense
 
 
+def _ratio(a, b):
+    """ Quotient of two durations, which can be too short to measure """
+    return a / b if b > 0 else float("NaN")
+
+
 def performance_comparison(sklearn_estimator, pure_sklearn_estimator, X):
     """
     Profile performance characteristics between sklearn estimator and
@@ -226,25 +231,25 @@ def performance_comparison(sklearn_estimator, pure_sklearn_estimator, X):
     print("Difference: {}".format(len(pickled_) / float(len(pickled))))
 
     ### -- profile unpickle time: sklearn vs pure-predict
-    start = time.time()
+    start = time.perf_counter()
     _ = pickle.loads(pickled)
-    pickle_t = time.time() - start
+    pickle_t = time.perf_counter() - start
     print("Unpickle time sklearn: {}".format(pickle_t))
-    start = time.time()
+    start = time.perf_counter()
     _ = pickle.loads(pickled_)
-    pickle_t_ = time.time() - start
+    pickle_t_ = time.perf_counter() - start
     print("Unpickle time pure-predict: {}".format(pickle_t_))
-    print("Difference: {}".format(pickle_t_ / pickle_t))
+    print("Difference: {}".format(_ratio(pickle_t_, pickle_t)))
 
     ### -- profile single record predict latency: sklearn vs pure-predict
     X_pred = X[:1]
     X_pred_ = X_pred if isinstance(X_pred, list) else X_pred.tolist()
-    start = time.time()
+    start = time.perf_counter()
     _ = sklearn_estimator.predict(X_pred)
-    pred_t = time.time() - start
+    pred_t = time.perf_counter() - start
     print("Predict 1 record sklearn: {}".format(pred_t))
-    start = time.time()
+    start = time.perf_counter()
     _ = pure_sklearn_estimator.predict(X_pred_)
-    pred_t_ = time.time() - start
+    pred_t_ = time.perf_counter() - start
     print("Predict 1 record pure-predict: {}".format(pred_t_))
-    print("Difference: {}".format(pred_t_ / pred_t))
+    print("Difference: {}".format(_ratio(pred_t_, pred_t)))
-- 
2.43.0


From a0b01424179e5096a95ca1f3c159e7ddabc3d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 35/45] fix: bagging averages log probabilities without
 underflow

---
 pure_sklearn/base.py              | 10 +++++++++-
 pure_sklearn/ensemble/_bagging.py | 30 ++++++++++++++++++++++++------
 pure_sklearn/naive_bayes.py       | 14 +++-----------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 90ca7d9..4d067a7 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -2,7 +2,7 @@
 Base functions for matrix calculations
 """
 
-from math import exp, log
+from math import exp, isinf, log
 from operator import mul
 from struct import pack, unpack
 
@@ -104,6 +104,14 @@ def safe_exp(x):
         return float("Inf")
 
 
+def logsumexp(arr):
+    """ Logarithm of the sum of exponentials, without over- or underflow """
+    max_ = max(arr)
+    if isinf(max_):
+        return max_
+    return max_ + safe_log(sum(safe_exp(x - max_) for x in arr))
+
+
 def to_float32(x):
     """ Rounds scalar to the nearest 32bit float """
     try:
diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index a71cbcf..705fd18 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -5,7 +5,7 @@ Bagging classifier
 from operator import add
 
 from ..map import MAPPING, convert_estimator
-from ..base import safe_log, operate_2d, apply_2d
+from ..base import safe_log, operate_2d, apply_2d, logsumexp
 from ..utils import shape, check_types, check_version, issparse, sparse_list
 
 
@@ -51,15 +51,23 @@ class _BaseBaggingPure:
         no probabilities, and classes missing from its sample are never predicted.
         """
         est = self.estimators_[idx]
-        X = _feat_slice(X, self._get_feats(idx))
         if not hasattr(est, "predict_proba"):
+            votes = self._call(idx, "predict", X)
             classes = range(len(self.classes_))
-            return [[float(c == label) for c in classes] for label in est.predict(X)]
-        proba = est.predict_proba(X)
+            return [[float(c == vote) for c in classes] for vote in votes]
+        return self._all_classes(idx, self._call(idx, "predict_proba", X), 0.0)
+
+    def _call(self, idx, method, X):
+        return getattr(self.estimators_[idx], method)(
+            _feat_slice(X, self._get_feats(idx))
+        )
+
+    def _all_classes(self, idx, proba, missing):
+        est = self.estimators_[idx]
         if len(est.classes_) == len(self.classes_):
             return proba
         rows = [dict(zip(est.classes_, a)) for a in proba]
-        return [[a.get(c, 0.0) for c in range(len(self.classes_))] for a in rows]
+        return [[a.get(c, missing) for c in range(len(self.classes_))] for a in rows]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
@@ -82,4 +90,14 @@ class BaggingClassifierPure(_BaseBaggingPure):
         estimator (sklearn estimator): fitted `BaggingClassifier` object
     """
 
-    pass
+    def predict_log_proba(self, X):
+        if not all(hasattr(est, "predict_log_proba") for est in self.estimators_):
+            return super().predict_log_proba(X)
+        log_probas = [
+            self._all_classes(
+                idx, self._call(idx, "predict_log_proba", X), -float("Inf")
+            )
+            for idx in range(len(self.estimators_))
+        ]
+        log_n = safe_log(len(self.estimators_))
+        return [[logsumexp(c) - log_n for c in zip(*rows)] for rows in zip(*log_probas)]
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index c6442ac..a609347 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -3,22 +3,14 @@ Naive Bayes
 """
 
 from abc import abstractmethod
-from math import isinf, pi
+from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, transpose, safe_log, safe_exp, logsumexp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
 
-def _logsumexp(arr):
-    """ Logarithm of the sum of exponentials, without over- or underflow """
-    max_ = max(arr)
-    if isinf(max_):
-        return max_
-    return max_ + safe_log(sum(safe_exp(x - max_) for x in arr))
-
-
 class _BaseNBPure:
     """ Base class for naive Bayes classifiers """
 
@@ -41,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(_logsumexp, jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From e84b23b1c7553ddb6c440beb9ecea40f88ed73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 36/45] fix: row norms use all values of each row, not the
 width of the first row

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 4d067a7..cbe4b44 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -48,7 +48,7 @@ def matmult_same_dim(A, B):
     X = []
     if not issparse_A:
         for i in range(shape_A[0]):
-            X.append([(A[i][j] * B[i][j]) for j in range(shape_A[1])])
+            X.append(list(map(mul, A[i], B[i])))
     else:
         for i in range(shape_A[0]):
             nested_res = [
-- 
2.43.0


From 64650d836bda77b853b7dcb3bce26e51a037b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 37/45] fix: TfidfTransformer returns new rows for dense input
 too

---
 pure_sklearn/feature_extraction/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index f1572da..1165f7a 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -431,6 +431,8 @@ class TfidfTransformerPure:
 
         if copy and issparse(X):
             X = sparse_list([dict(x) for x in X], size=X.size, dtype=X.dtype)
+        elif copy:
+            X = [list(x) for x in X]
 
         if self.sublinear_tf:
             for index in range(len(X)):
-- 
2.43.0


From 7cc32de110e5c51b141107033da632e151381c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 38/45] fix: multinomial gradient boosting normalises
 probabilities without over- or underflow

The log of the summed exponentials was computed without shifting, so large
raw scores gave probabilities that are all zero where the native model
answers with a certain class.
---
 pure_sklearn/ensemble/_gb_losses.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 2dcbaa5..e08de24 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,7 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import transpose, apply_2d, safe_exp, safe_log, logsumexp, ravel, expit
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_norm = list(map(logsumexp, raw_predictions))
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_norm[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
-- 
2.43.0


From f49aa005a081406a82c4deb204e7d62e93032603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 39/45] fix: refuse multi-output decision trees, whose first
 output alone was predicted

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 09ef043..a2a5fdd 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -40,6 +40,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.n_outputs_ > 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 84bdc51df9bcdd7e8fa168a9e8f7f59dd374d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 40/45] fix: refuse bagging over estimators whose probabilities
 cannot be converted

The native model averages their probabilities; counting their votes instead
gave different answers.
---
 pure_sklearn/ensemble/_bagging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 705fd18..683ec3c 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -35,6 +35,10 @@ class _BaseBaggingPure:
         self.estimators_ = []
         for est in estimator.estimators_:
             est_ = convert_estimator(est)
+            if hasattr(est, "predict_proba") and not hasattr(est_, "predict_proba"):
+                raise ValueError(
+                    "Probabilities of base estimator not supported: {}".format(est)
+                )
             self.estimators_.append(est_)
         check_types(self)
 
-- 
2.43.0


From 338d6d1ca6a79cbba7165be7571cd2c6248ac91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 41/45] fix: xgboost conversion follows the booster's tree
 layout

With several parallel trees per round the trees were assigned to the wrong
rounds and classes and the rest dropped, and models fitted on a single class
could not be served.
---
 pure_sklearn/xgboost/_classes.py | 33 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index e09d02d..705a66d 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -73,29 +73,28 @@ class XGBClassifierPure:
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
         feature_names = estimator.get_booster().feature_names
-        estimators_ = []
-        idx = 0
-        for est_id in range(self.n_estimators):
-            if self.n_classes_ == 2:
-                tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree, feature_names)
-                idx += 1
-            else:
-                est_row_ = []
-                for cls_id in range(self.n_classes_):
-                    tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree, feature_names))
-                    idx += 1
-            estimators_.append(est_row_)
-        return estimators_
+        trees = [
+            DecisionTreeRegressorPure(tree.to_dict(orient="list"), feature_names)
+            for _, tree in tree_df.groupby("Tree")
+        ]
+        # each round holds the parallel trees of the first class, then the next
+        n_parallel = getattr(estimator, "num_parallel_tree", None) or 1
+        if self.objective == "binary:logistic":
+            return trees[: self.n_estimators * n_parallel]
+        per_round = self.n_classes_ * n_parallel
+        return [
+            trees[idx + offset : idx + per_round : n_parallel]
+            for idx in range(0, self.n_estimators * per_round, per_round)
+            for offset in range(n_parallel)
+        ]
 
     def _predict(self, X):
         """ Raw sums of estimator predictions for each class for multi-class """
         preds = []
         for cls_index in range(self.n_classes_):
             cls_sum = [0] * len(X)
-            for est_index in range(self.n_estimators):
-                est_preds = self.estimators_[est_index][cls_index].predict(X)
+            for est_row in self.estimators_:
+                est_preds = est_row[cls_index].predict(X)
                 cls_sum = list(map(lambda x, y: x + y, cls_sum, est_preds))
             preds.append(cls_sum)
         return preds
-- 
2.43.0


From c2ccc1e2bed0f7ca5245a91e82828911647e62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 42/45] fix: TfidfTransformer accepts dense input as the native
 one does

---
 pure_sklearn/feature_extraction/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 1165f7a..8200d9b 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -18,6 +18,7 @@ from ..utils import (
     check_array,
     check_version,
     issparse,
+    tosparse,
     to_pure,
 )
 from ..base import safe_log
@@ -429,10 +430,10 @@ class TfidfTransformerPure:
         X = check_array(X, handle_sparse="allow")
         n_samples, n_features = shape(X)
 
-        if copy and issparse(X):
-            X = sparse_list([dict(x) for x in X], size=X.size, dtype=X.dtype)
+        if not issparse(X):
+            X = tosparse(X)
         elif copy:
-            X = [list(x) for x in X]
+            X = sparse_list([dict(x) for x in X], size=X.size, dtype=X.dtype)
 
         if self.sublinear_tf:
             for index in range(len(X)):
-- 
2.43.0


From 95d06e6f3f9c9e7430e7545e407caff6f199dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 43/45] fix: making dense rows sparse does not cut them to the
 width of the first

---
 pure_sklearn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index a57319a..3ee0c09 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -195,6 +195,8 @@ class sparse_list(list):
             self.size = shape(A)[1]
             self.dtype = type(A[0][0])
             for row in A:
+                if len(row) != self.size:
+                    raise ValueError("Rows must all have the same number of columns")
                 self.append(
                     dict([(i, row[i]) for i in range(self.size) if row[i] != 0])
                 )
-- 
2.43.0


From c4c3cab0dc7a702b49dad153077cd0e293afed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 44/45] fix: convert xgboost models left at the default booster

XGBClassifier leaves booster=None to mean gbtree, and every model that did not
name it was refused.
---
 pure_sklearn/xgboost/_classes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 705a66d..3285881 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -12,6 +12,7 @@ from ..tree import DecisionTreeRegressorPure
 MIN_VERSION = "0.82"
 SUPPORTED_OBJ = ["binary:logistic", "multi:softprob"]
 SUPPORTED_BOOSTER = ["gbtree"]
+DEFAULT_BOOSTER = "gbtree"
 
 
 class XGBClassifierPure:
@@ -34,10 +35,12 @@ class XGBClassifierPure:
             )
         else:
             self.objective = to_pure(estimator.objective)
-        if estimator.booster not in SUPPORTED_BOOSTER:
-            raise ValueError("Booster: '{}' not supported".format(estimator.booster))
+        # newer versions leave the parameter unset to mean the default booster
+        booster = DEFAULT_BOOSTER if estimator.booster is None else estimator.booster
+        if booster not in SUPPORTED_BOOSTER:
+            raise ValueError("Booster: '{}' not supported".format(booster))
         else:
-            self.booster = to_pure(estimator.booster)
+            self.booster = to_pure(booster)
         missing = getattr(estimator, "missing", None)
         self.missing = float("NaN") if missing is None else to_pure(missing)
         self.classes_ = estimator.classes_.tolist()
-- 
2.43.0


From 7307d795a7cf11f14892b4214ddee9a1d52b5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 45/45] fix: fasttext labels have word ids, as in the native
 dictionary

---
 pure_fasttext/FastText.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 946f723..fb22cae 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -87,7 +87,7 @@ class _FastText(object):
     def get_word_vector(self, word):
         """ Get the vector representation of word """
         idx = self.get_word_id(word)
-        if idx >= 0:
+        if 0 <= idx < len(self.words_):
             return self.get_input_vector(idx)
         else:
             return [0.0] * self.dim_
@@ -129,6 +129,9 @@ class _FastText(object):
         """
         if word in self.words_:
             return self.words_.index(word)
+        elif self.supervised_ and word in self.labels_:
+            # labels follow the words in the dictionary
+            return len(self.words_) + self.labels_.index(word)
         else:
             return -1
 
-- 
2.43.0

