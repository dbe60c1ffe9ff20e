From 8d0ee4c8cdbe281d616ee322e162992a76882ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:36 +0000
Subject: [PATCH 01/16] fix: look up impressions by spend in the sorted log

PublisherData.impressions_by_spend bisected the spends in the order in which
the log was given, while every other query uses the log sorted by spend.
---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 702d26107e740eca130499572d0ec045194b2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:36 +0000
Subject: [PATCH 02/16] fix: import randint, used to name a DataSet that is
 given no name

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From d64b7be2933e06e0805de4dbfbf87f158db738ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:36 +0000
Subject: [PATCH 03/16] fix: name publishers read from disk by the last path
 component

The full path was used as the publisher's name, so that writing a data set
that had been read overwrote the files it was read from and left the new
directory empty.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 9d70e3ec1789287b2765fc8c59c527fe5635de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:30 +0000
Subject: [PATCH 04/16] fix: fit the k-inflated model to its data, not to the
 first query

by_impressions on an unfitted model fitted it with a minimum inventory taken
from the query, so the same model gave different answers depending on which
question was asked first, and no longer matched its own training point.
---
 src/models/kinflated_gamma_poisson_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..078f026 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -623,7 +623,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
         if len(impressions) != 1:
             raise ValueError("Impressions vector must have a length of 1.")
 
-        self._fit(impressions[0] + 1)
+        self._fit()
 
         p = min(impressions[0] / self._max_impressions, 1.0)
         freqs = self._max_reach * self._dist.kreach(np.arange(1, max_frequency), p)
-- 
2.43.0


From 83595f8f0c51ae29be44b97626b31a7454731184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 05/16] fix: keep Dirac mixture reaches beyond 2**31

Casting to int32 turned every reach above 2**31 into a negative number.
---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..14ff63d 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -408,7 +408,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
         kplus_reaches = (
             (self._reach_point.universe_size * relative_kplus_reaches_from_zero[1:])
             .round(0)
-            .astype("int32")
+            .astype("int64")
         )
 
         if self._cpi:
-- 
2.43.0


From 01bcb975cabbe3f7933e8aa11fbebd54df45a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 06/16] fix: keep a coordinate the training points say nothing
 about

A publisher without reach in every training point made the coordinate step
divide 0 by 0; the NaN spread to every coordinate and the fit failed with an
AttributeError.
---
 src/models/restricted_pairwise_union_reach_surface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 3dcb6c1..95603b9 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -227,7 +227,12 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         """
         us = np.array([self._compute_u(lbd, i, D) for D in self._Ds])
         vs = np.array([self._compute_v(lbd, i, D) for D in self._Ds])
-        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / np.inner(vs, vs)
+        vs_norm = np.inner(vs, vs)
+        if vs_norm == 0:
+            # The loss does not depend on lbd[i], for example because publisher
+            # i reaches no one in any of the training points.
+            return lbd[i]
+        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / vs_norm
         # The above line follows equation (4) in the algorithm description doc.
         if lbd_i_hat < 0:
             return 0
-- 
2.43.0


From 91352abb278f8f2b7a949df936b7c01f11f15aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 07/16] fix: compare mixture fits by the objective that is
 minimised

The quadratic program minimises a'Pa/2 + q'a, the comparison between starting
points used a'Pa + q'a, so that a worse fit could be kept.
---
 src/models/generalized_mixture_reach_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/generalized_mixture_reach_surface.py b/src/models/generalized_mixture_reach_surface.py
index 34530c4..f2c35b0 100644
--- a/src/models/generalized_mixture_reach_surface.py
+++ b/src/models/generalized_mixture_reach_surface.py
@@ -212,7 +212,7 @@ class GeneralizedMixtureReachSurface(ReachSurface):
 
     def _loss(self, a):
         return (
-            np.matmul(np.matmul(np.transpose(a), self._P), a)
+            np.matmul(np.matmul(np.transpose(a), self._P), a) / 2
             + np.matmul(np.transpose(self._q), a)
         )[0]
 
-- 
2.43.0


From d02a493ebc8d3a2dfc2c2de289e55dc2bafb7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:28 +0000
Subject: [PATCH 08/16] fix: a negative noised cardinality estimate gave
 negative reaches in the Venn diagram

---
 src/simulator/halo_simulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simulator/halo_simulator.py b/src/simulator/halo_simulator.py
index 5df8fb7..7ee8e58 100644
--- a/src/simulator/halo_simulator.py
+++ b/src/simulator/halo_simulator.py
@@ -577,8 +577,14 @@ class HaloSimulator:
                 seed=self._params.generator.integers(low=0, high=1e9)
             ),
         )
-        cardinality_estimate = noiser(
-            self._params.generator.normal(true_cardinality, std_cardinality_estimate)
+        # Like the reaches of the regions, the noised estimate may be negative.
+        cardinality_estimate = max(
+            0,
+            noiser(
+                self._params.generator.normal(
+                    true_cardinality, std_cardinality_estimate
+                )
+            ),
         )
         noise_event = NoisingEvent(
             PrivacyBudget(
-- 
2.43.0


From 9651a32d172aa1f288ccbb2fb967faac821c0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 09/16] fix: a publisher's ground truth curve by spend counts
 no other publisher's free impressions

---
 src/models/ground_truth_reach_curve_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/models/ground_truth_reach_curve_model.py b/src/models/ground_truth_reach_curve_model.py
index b756126..5546165 100644
--- a/src/models/ground_truth_reach_curve_model.py
+++ b/src/models/ground_truth_reach_curve_model.py
@@ -68,7 +68,16 @@ class GroundTruthReachCurveModel(ReachCurve):
             raise ValueError("Spend vector must have a length of 1.")
         data_set_spends = [0] * self._data_set.publisher_count
         data_set_spends[self._publisher_index] = spends[0]
-        return self._data_set.reach_by_spend(data_set_spends, max_frequency)
+        # Other publishers show nothing, not even impressions that cost nothing.
+        point = self.by_impressions(
+            [self.impressions_for_spend(spends[0])], max_frequency
+        )
+        return ReachPoint(
+            point.impressions,
+            [point.reach(k) for k in range(1, max_frequency + 1)],
+            data_set_spends,
+            point.universe_size,
+        )
 
     def impressions_for_spend(self, spend: float) -> int:
         return self._data_set._data[self._publisher_index].impressions_by_spend(spend)
-- 
2.43.0


From f65100ede4778a26677d75f4db466e44cbf5909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 10/16] fix: uniformly random test points number at least the
 documented minimum

---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..a7857c3 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for i in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From 070d2c17141090a6c0b8d2db3789c68a7142509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 11/16] fix: Latin hypercube test points depend only on the
 data set and the generator given

---
 .../latin_hypercube_random_test_point_generator.py   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..d510853 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,7 +78,17 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
-        design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
+        # pyDOE draws from the global numpy random state.  To have the test points
+        # depend on nothing but the arguments (not, say, on how many random numbers
+        # a modeling strategy has used), seed it from rng for the time being.
+        global_state = np.random.get_state()
+        np.random.seed(self._rng.integers(2 ** 32))
+        try:
+            design = pyDOE.lhs(
+                n=self._npublishers, samples=num_points, criterion="maximin"
+            )
+        finally:
+            np.random.set_state(global_state)
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
         ]
-- 
2.43.0


From 59d86c423d378613cc2764c0c8dab89e5bd08f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 12/16] fix: trials do not share a random generator, so that a
 result does not depend on the trials run before

---
 src/simulator/system_parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 2d2a82d..0b3f9e1 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -75,5 +75,7 @@ class SystemParameters(NamedTuple):
         else:
             campaign_spend_fractions = copy.deepcopy(self.campaign_spend_fractions)
         return SystemParameters(
-            campaign_spend_fractions, copy.deepcopy(self.liquid_legions), self.generator
+            campaign_spend_fractions,
+            copy.deepcopy(self.liquid_legions),
+            copy.deepcopy(self.generator),
         )
-- 
2.43.0


From d19d3857886daa78ab9f6050d432477dac1d9601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:50 +0000
Subject: [PATCH 13/16] fix: a previously computed trial result that is
 incomplete is computed again

---
 src/driver/experimental_trial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..e1ffd40 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -20,6 +20,7 @@ against a specific DataSet, with specific SystemParameters.
 from absl import logging
 from datetime import datetime
 import hashlib
+import io
 import numpy as np
 import pandas as pd
 from os.path import isfile, join
@@ -152,7 +153,11 @@ class ExperimentalTrial:
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
-                    return pd.read_csv(file)
+                    text = file.read()
+                previous_result = pd.read_csv(io.StringIO(text))
+                if len(previous_result) != 1 or not text.endswith("\n"):
+                    raise ValueError("Incomplete result")
+                return previous_result
             except Exception as e:
                 filesystem.unlink(trial_results_path)
                 logging.vlog(
-- 
2.43.0


From a69168b611fc85c8e4f90f9bd42487a06ed1547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:36 +0000
Subject: [PATCH 14/16] fix: a single publisher analysis of a campaign that
 reaches no one is not a modeling failure

---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index e1ffd40..e18d551 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -351,7 +351,8 @@ class ExperimentalTrial:
                         (i + 1)
                         for i, f in enumerate(training_point._kplus_reaches)
                         if f != 0
-                    ]
+                    ],
+                    default=0,
                 )
             ]
             if training_point._kplus_reaches
@@ -359,7 +360,12 @@ class ExperimentalTrial:
         )
         data_point = halo.true_reach_by_spend(halo.campaign_spends, max_frequency)
         results["max_nonzero_frequency_from_data"] = (
-            [max([(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0])]
+            [
+                max(
+                    [(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0],
+                    default=0,
+                )
+            ]
             if data_point._kplus_reaches
             else [0]
         )
-- 
2.43.0


From 34f8ce1e32534e96089d598c4780cb9556728c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:13 +0000
Subject: [PATCH 15/16] fix: trials that differ in the seed of their sketches
 keep their results apart

---
 src/simulator/system_parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 0b3f9e1..f83f7db 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -66,6 +66,9 @@ class SystemParameters(NamedTuple):
         ll_str = "decay_rate={},sketch_size={}".format(
             self.liquid_legions.decay_rate, self.liquid_legions.sketch_size
         )
+        # The default seed is left out, so that results of earlier runs are found.
+        if self.liquid_legions.random_seed != LiquidLegionsParameters().random_seed:
+            ll_str += ",random_seed={}".format(self.liquid_legions.random_seed)
         return "spends=({}),{}".format(spend_str, ll_str)
 
     def update_from_dataset(self, dataset: DataSet) -> "SystemParameters":
-- 
2.43.0


From 63763b20f7b0059b61cedbfdfc5153993e67a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 16/16] fix: reading a data set after it was written again
 returns what was written

---
 src/data_generators/data_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index f8b089f..2a772e6 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -240,6 +240,8 @@ class DataSet:
         if not dataset_dir:
             dataset_dir = self._name
 
+        # What was read from this directory before is not what it will contain.
+        DataSet.read_data_set.cache_clear()
         full_dir_path = filesystem.joinpath(parent_dir, dataset_dir)
         filesystem.mkdir(full_dir_path, parents=True, exist_ok=True)
         for pdf in self._data:
-- 
2.43.0

