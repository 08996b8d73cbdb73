From 95f397b04b67d6c4336844822ec9fa263418523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/65] fix: test statistics no longer overwrite the caller's
 arrays

BakerCousinsLL, Neyman and Pearson stored the limit-of-zero stand-in in the
observed or expected array they were given.
---
 echidna/fit/test_statistic.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index ba10c5c..a1921e4 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -369,6 +369,8 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
+        # Work on a copy, the limit must not reach the caller's array
+        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -395,6 +397,8 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
+        # Work on a copy, the limit must not reach the caller's array
+        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -462,6 +466,8 @@ class Neyman(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
+        # Work on a copy, the limit must not reach the caller's array
+        observed = observed.astype("float")
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -488,6 +494,8 @@ class Neyman(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
+        # Work on a copy, the limit must not reach the caller's array
+        observed = observed.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -557,6 +565,8 @@ class Pearson(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
+        # Work on a copy, the limit must not reach the caller's array
+        expected = expected.astype("float")
         epsilon = 1e-34  # Limit of zero
         total = 0
         for i in range(len(observed)):
@@ -583,6 +593,8 @@ class Pearson(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
+        # Work on a copy, the limit must not reach the caller's array
+        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
-- 
2.43.0


From ae0c81a63d279094a5f6a905ecfaf1afae3ced71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 02/65] fix: BakerCousinsChiUp skips upward bins in per-bin
 mode as in total mode

_get_stats counted bins with more observed than expected, which _compute
skips, so per-bin evaluation raised whenever such a bin existed.
---
 echidna/fit/test_statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index a1921e4..850450b 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,6 +302,9 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
+            if obs > exp:  # Excess over expectation, not counted
+                stats.append(0.)
+                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From 51c0900bb919684a5ed5e95ec97140641f833da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/65] fix: SpectraParameter.round returns a bin edge for any
 lower bound

---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..c3a5a2b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        return (self._low + round((x - self._low) / self.get_width()) *
+                self.get_width())
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From baca3edfea15eca042e449d74abb8ffaa0bd2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/65] fix: Spectra.shrink slices with integer bin numbers

---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From 51440af4bc23acc36f1f4813dcbdb2aac6c16f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 05/65] fix: Spectra.nd_project and surface sum the axes that
 were not requested

---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..35bc56e 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,7 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -593,7 +593,7 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From 3d1ea2fd2037fde7579f025c1bb15e943aeb1117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 06/65] fix: Spectra.rebin validates every dimension before
 changing any

---
 echidna/core/spectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 35bc56e..7e82666 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -366,6 +366,7 @@ class Spectra(object):
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From 22a811645ade2d09209e5cfa52e2d38bd7b342f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/65] fix: FitParameter.set_par converts every value before
 updating any

---
 echidna/core/parameter.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c3a5a2b..c1dcd37 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -557,31 +557,40 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
+            if kw in ("prior", "low", "high", "base"):
+                kwargs[kw] = float(kwargs[kw])
+            elif kw == "bins":
+                kwargs[kw] = int(kwargs[kw])
+            elif kw in ("logscale", "logscale_deviation"):
+                kwargs[kw] = bool(kwargs[kw])
+            elif kw == "dimension":
+                kwargs[kw] = str(kwargs[kw])
+            elif kw != "sigma":
+                raise TypeError("Unhandled parameter name / type %s" % kw)
+        for kw in kwargs:
+            self._logger.warning("Updating value for %s (%s --> %s)" %
                                  (kw, self.__dict__["_"+kw], kwargs[kw]))
             if kw == "prior":
-                self._prior = float(kwargs[kw])
+                self._prior = kwargs[kw]
             elif kw == "sigma":
                 if kwargs[kw] is None:
                     self._logger.warning("Setting sigma explicitly as None - "
                                          "No penalty term will be applied")
                 self._sigma = kwargs[kw]
             elif kw == "low":
-                self._low = float(kwargs[kw])
+                self._low = kwargs[kw]
             elif kw == "high":
-                self._high = float(kwargs[kw])
+                self._high = kwargs[kw]
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = kwargs[kw]
             elif kw == "logscale":
-                self._logscale = bool(kwargs[kw])
+                self._logscale = kwargs[kw]
             elif kw == "base":
-                self._base = float(kwargs[kw])
+                self._base = kwargs[kw]
             elif kw == "logscale_deviation":
-                self._logscale_deviation = bool(kwargs[kw])
+                self._logscale_deviation = kwargs[kw]
             elif kw == "dimension":
-                self._dimension = str(kwargs[kw])
-            else:
-                raise TypeError("Unhandled parameter name / type %s" % kw)
+                self._dimension = kwargs[kw]
         self._logger.warning("Setting _values and _bin_boundaries to None")
         self._values = None
         self._bin_boundaries = None
-- 
2.43.0


From 85679d456c3941dac2266fe45f7ca96bf8c8329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 08/65] fix: SpectraParameter.set_par converts every value
 before updating any

---
 echidna/core/parameter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c1dcd37..cf5912a 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1167,11 +1167,16 @@ class SpectraParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            if kw == "low":
-                self._low = float(kwargs[kw])
-            elif kw == "high":
-                self._high = float(kwargs[kw])
+            if kw in ("low", "high"):
+                kwargs[kw] = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = int(kwargs[kw])
+                kwargs[kw] = int(kwargs[kw])
             else:
                 raise TypeError("Unhandled parameter name / type %s" % kw)
+        for kw in kwargs:
+            if kw == "low":
+                self._low = kwargs[kw]
+            elif kw == "high":
+                self._high = kwargs[kw]
+            elif kw == "bins":
+                self._bins = kwargs[kw]
-- 
2.43.0


From 01b729ec937ccca4c6479358592f08bcff321be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 09/65] fix: logscale_deviation grids use an integer number of
 points

---
 echidna/core/parameter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index cf5912a..f43693b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -460,10 +460,11 @@ class FitParameter(Parameter):
                 delta_high = numpy.absolute(self._high - self._prior)
 
                 # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                bins_high = int(numpy.rint(
+                    (delta_high) / (delta_low + delta_high) *
+                    (self._bins + 1)))
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 607508dcb71416d50befedb0ff022c07eb26dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 10/65] fix: FitParameter.get_value_index reports a missing
 value

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f43693b..321cfe4 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -514,7 +514,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 07a3b0e7253751a21a24d6720cc58f9f37fa18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 11/65] fix: FitParameter.to_dict stores the penalty term

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 321cfe4..f18ccf4 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -640,7 +640,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 7f1e0fe210e7b2373b2ddd2c852d22edc3fe2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/65] fix: store no longer imports a module that does not
 exist

---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 931d180c8afa20904ff50f9d23470a8a1ab7408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 13/65] fix: GlobalFitConfig.load keeps the requested name

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..faffbf6 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From aabedfb308a22c0a13a3d0a744b65385d72e2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 14/65] fix: load_from_file uses the file name when given a
 blank name

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index faffbf6..79f0435 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 24c6d5e99a5f351c2826f65343b9b333101927da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 15/65] fix: GridSearch keeps its default name

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..b032489 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From 2763e24891e9fdacd94e84e14ae70207a1ed2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 16/65] fix: GridSearch grid positions are integers

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index b032489..d43b408 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From 0848a0357e93ad85685ce448f03991e6f9cd2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 17/65] fix: GridSearch checks the shape of per-bin results

---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d43b408..185a7d4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From 37c151a6d06cf77f367ae74d0a6169b3ed1f0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 18/65] fix: GridSearch best fit ignores undefined grid entries

---
 echidna/fit/minimise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 185a7d4..8b34bc1 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -345,7 +345,7 @@ class GridSearch(FitResults, Minimiser):
         if self._use_numpy:
             # Set best_fit values
             # This is probably not the most efficient way of doing this
-            position = numpy.argmin(minimum)
+            position = numpy.nanargmin(minimum)
             position = numpy.unravel_index(position, minimum.shape)
             minimum = numpy.nanmin(minimum)
         else:  # Use find_minimum method
@@ -582,7 +582,7 @@ class GridSearch(FitResults, Minimiser):
         product = 1  # product of dimensions
         for dim in new_coords.shape:
             product *= dim
-            multiplier += len(coords) / product
+            multiplier += len(coords) // product
 
         # Calculate indices
         indices = [i * multiplier + j for i, j in enumerate(new_coords)]
@@ -631,7 +631,7 @@ class GridSearch(FitResults, Minimiser):
           (41, 2, 12), the location (4, 10, 15) would be returned
         """
         dims = len(array.shape)
-        minimum = copy.copy(array)
+        minimum = numpy.where(numpy.isnan(array), numpy.inf, array)
         coords = None
 
         # Loop over dimensions, working outwards
-- 
2.43.0


From 13f7ec89c1daf23183475c7bdec3264719b6b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 19/65] fix: GridSearch.reset_grids keeps the grid's shape per
 fit mode

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 8b34bc1..5b6c7e1 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -472,8 +472,9 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        stats_shape = self._fit_config.get_shape()
+        if self._per_bin:
+            stats_shape = stats_shape + self._spectra_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 5d1e5f3504575c3f780bf90adcc19be5e4188851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 20/65] fix: GridSearch.get_raw_stats looks up parameters by
 name

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 5b6c7e1..d053e64 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -193,7 +193,7 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From bca3740a91d40a8a49a29f5ce2495e82d613ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 21/65] fix: GridSearch projections sum the axes that were not
 requested

---
 echidna/fit/minimise.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d053e64..9faa0b5 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -6,6 +6,7 @@ from echidna.fit.fit_results import FitResults
 
 import copy
 import abc
+import itertools
 
 
 class Minimiser(object):
@@ -396,19 +397,16 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        if all(par in self._fit_config.get_pars() for par in parameters):
             # Can apply penalty term contributions
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -438,15 +436,16 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        counter = 0
+        if all(par in self._fit_config.get_pars() for par in parameters):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
+            for axis, parameter in enumerate(self._fit_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
+            projection = copy.copy(self._stats)
             for axis, parameter in enumerate(
                     itertools.chain(self._fit_config.get_pars(),
                                     self._spectra_config.get_pars())):
-- 
2.43.0


From dc72dea3ffeaf17573c14ff7b2f4ef9155b55e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 22/65] fix: LimitResults.get_limit_stat reads the stored
 statistics

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From b0a6be98b3346216d9fb5b6621171e0cabfea30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 23/65] fix: Scale gives its result its own configuration

---
 echidna/core/scale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..82ae03f 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -52,6 +52,7 @@ class Scale(object):
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         sf = self.get_scale_factor()
         scaled_spec = copy.copy(spectrum)
+        scaled_spec._config = copy.deepcopy(spectrum._config)
         scaled_spec._name = spectrum._name + "_sf" + str(sf)
         scaled_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
-- 
2.43.0


From 414a7ab6f73c8e8fa921692d6b8a6751a74f6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 24/65] fix: Shift gives its result its own configuration

---
 echidna/core/shift.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..888f875 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -50,6 +50,7 @@ class Shift(object):
         preshift_sum = spectrum.sum()
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = copy.deepcopy(spectrum._config)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
@@ -185,6 +186,7 @@ class Shift(object):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = copy.deepcopy(spectrum._config)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
-- 
2.43.0


From 20ca4766e698c94b06298a1034b73bb96d33b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 25/65] fix: smearing gives its result its own configuration

---
 echidna/core/smear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..2c9c8d7 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -238,6 +238,7 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -315,6 +316,7 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -485,6 +487,7 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -563,6 +566,7 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -703,6 +707,7 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -777,6 +782,7 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = copy.deepcopy(spectrum._config)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
-- 
2.43.0


From bbc3816f311ca45b8827c42cda69e5b7fd78550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 26/65] fix: Fit leaves the spectra of a fixed background
 unshrunk

---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..b25a596 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -162,6 +162,7 @@ class Fit(object):
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
+            spectrum._config = copy.deepcopy(spectrum._config)
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
@@ -642,6 +643,7 @@ class Fit(object):
             self._logger.debug("Adding Spectra with name %s to"
                                "_fixed_background" % spectrum.get_name())
             spectrum = copy.copy(spectrum)
+            spectrum._config = copy.deepcopy(spectrum._config)
             if first:
                 first = False
                 if shrink:
-- 
2.43.0


From 73a8ac8b7dd717b5b1ea41ad69cc20688617546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 27/65] fix: a fit point no longer alters the stored floating
 backgrounds

---
 echidna/fit/fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index b25a596..defd049 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -510,6 +510,10 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
+            # Work on a copy, so the stored spectrum is unchanged
+            spectrum = copy.copy(spectrum)
+            spectrum._config = copy.deepcopy(spectrum._config)
+
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
-- 
2.43.0


From cad385d396181ed70512713baf5a55af73e20074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 28/65] fix: Fit applies every global parameter to the signal

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index defd049..55fcc09 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -544,8 +544,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 39846386f7c51a41d01dea9a3b03c09722f06e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 29/65] fix: Fit.append_fixed_background starts a fixed
 background if there is none

---
 echidna/fit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 55fcc09..ec85833 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -159,6 +159,9 @@ class Fit(object):
           shrink (bool, optional): If set to True (default), :meth:`shrink`
             method is called on the spectra shrinking it to the ROI.
         '''
+        if self._fixed_background is None:
+            self.make_fixed_background(spectra_dict, shrink)
+            return
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
-- 
2.43.0


From 680ba751f05e4c2e71d4238650710b4c25c825d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 30/65] fix: Fit.check_roi reports the malformed entry

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ec85833..93852ed 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -311,7 +311,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
-- 
2.43.0


From 9223daae95a90a8ef623e21c552138f68509c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 31/65] fix: Fit.set_pre_made_dir sets the directory that is
 used

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 93852ed..21b151f 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -843,7 +843,7 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From ecdc2eac84ebcd4a03ddeb9301f55cd39c56c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 32/65] fix: Fit checks the signal and floating backgrounds
 against the roi

---
 echidna/fit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 21b151f..276b2e2 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -224,6 +224,7 @@ class Fit(object):
                                          "pars as the number of floating "
                                          "backgrounds.")
             for background in self._floating_backgrounds:
+                self.check_spectra(background)
                 if background.get_fit_config():
                     self.check_fit_config(background)
 
@@ -826,6 +827,8 @@ class Fit(object):
         """
         if shrink:
             self.shrink_spectra(signal)
+        else:
+            self.check_spectra(signal)
         self._signal = signal
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
-- 
2.43.0


From e6be373758939eee9fe87844760576680f993ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 33/65] fix: Fit repeats its checks after anything it checks
 has changed

---
 echidna/fit/fit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 276b2e2..be8b5cc 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -668,6 +668,7 @@ class Fit(object):
         if shrink:
             self._fixed_background = total_spectrum  # No need to check
             self._fixed_pars = self.get_roi_pars(total_spectrum)
+            self._checked = False
         else:
             self.set_fixed_background(total_spectrum, shrink)
 
@@ -693,6 +694,7 @@ class Fit(object):
         self._logger.debug("Setting Spectra with name %s as data" %
                            data.get_name())
         self._data_pars = self.get_roi_pars(data)
+        self._checked = False
 
     def set_fit_config(self, fit_config):
         """
@@ -705,6 +707,7 @@ class Fit(object):
         """
         if isinstance(fit_config, GlobalFitConfig):
             self._fit_config = fit_config
+            self._checked = False
         else:
             raise TypeError("fit_config type (%s) is invalid" %
                             type(fit_config))
@@ -724,6 +727,7 @@ class Fit(object):
             self.check_spectra(fixed_background)
         self._fixed_background = fixed_background
         self._fixed_pars = self.get_roi_pars(fixed_background)
+        self._checked = False
 
     def set_floating_backgrounds(self, floating_backgrounds, shrink=True):
         """ Sets the floating backgrounds you want to fit.
@@ -749,6 +753,7 @@ class Fit(object):
             floating_pars.append(self.get_roi_pars(background))
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
+        self._checked = False
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
@@ -761,6 +766,7 @@ class Fit(object):
           IndexError: If fit config contains no parameters.
         """
         self.check_all_spectra()  # All spectra should be set and checked first
+        self._checked = False
         if minimiser:
             self._minimiser = minimiser
             self._logger.debug("Setting %s as minimiser" %
@@ -800,6 +806,7 @@ class Fit(object):
             An appropriate class for calculating test statistics.
         """
         self._test_statistic = test_statistic
+        self._checked = False
         self._logger.debug("Set _test_statistic as %s" % str(test_statistic))
 
     def set_roi(self, roi):
@@ -833,6 +840,7 @@ class Fit(object):
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
         self._signal_pars = self.get_roi_pars(signal)
+        self._checked = False
 
     def set_pre_made_dir(self, directory):
         """ Sets the directory in which pre-made convolved spectra are
-- 
2.43.0


From c61aee3d8a88931512e9b4f68b06c94bb0cc0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 34/65] fix: Fit forgets convolved spectra when the spectra
 they come from change

---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index be8b5cc..22b8796 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -694,6 +694,7 @@ class Fit(object):
         self._logger.debug("Setting Spectra with name %s as data" %
                            data.get_name())
         self._data_pars = self.get_roi_pars(data)
+        self._global_dict = {}
         self._checked = False
 
     def set_fit_config(self, fit_config):
@@ -753,6 +754,7 @@ class Fit(object):
             floating_pars.append(self.get_roi_pars(background))
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
+        self._global_dict = {}
         self._checked = False
 
     def set_minimiser(self, minimiser=None):
-- 
2.43.0


From 2b21a2367046982d695a55b7cfdca5b4fafa89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 35/65] fix: get_limit searches from the minimum of the
 statistic it reports

---
 echidna/limit/limit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..ca863fd 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -181,12 +181,12 @@ class Limit(object):
         # Convert stats to delta - subtracting minimum
         stats -= min_stat
 
-        # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
-
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
 
+        # Also want to know index of minimum
+        min_bin = numpy.argmin(stats)
+
         try:
             # Slice from min_bin upwards
             log_text = ""
-- 
2.43.0


From ae2060923cf6ec35d3eaf5fd78965f412083ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 36/65] fix: get_limit accepts a supplied reference statistic
 of zero

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index ca863fd..11e4f71 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From a6d29294bb67107943ce533bbee12bcd4c02222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 37/65] fix: get_limit reports the parameters at the limit
 found

---
 echidna/limit/limit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 11e4f71..8a5d418 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -190,8 +190,8 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
             log_text += "Signal Decays: %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -202,7 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
+                log_text += ("Sigma: %s\n" %
                              cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
@@ -252,8 +252,8 @@ class Limit(object):
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(stats[min_bin:])
+            limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
             log_text += "Signal Decays (at max stat): %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -263,7 +263,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From 7dfe15a2c5378563b22f50066f229d40f486f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 38/65] fix: get_limit stores spectra through the existing
 interface

---
 echidna/limit/limit.py | 51 +++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 8a5d418..4366aca 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -228,24 +228,7 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    limit_fname))
             if store_spectra:
-                path = output.__default_save_path__ + "/"
-                fname = self._fitter.get_data()._name + "_data.hdf5"
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    fname = (self._fitter.get_fixed_background()._name +
-                             "_fixed.hdf5")
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        fname = background._name + "_float.hdf5"
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                fname = self._signal._name + "_signal.hdf5"
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._dump_spectra()
 
             return limit
 
@@ -283,22 +266,30 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    path + fname))
             if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._dump_spectra()
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
 
+    def _dump_spectra(self):
+        """ Saves the spectra used for fitting, each to its own file. """
+        path = output.__default_save_path__ + "/"
+        fname = self._fitter.get_data()._name + "_data.hdf5"
+        store.dump(path + fname, self._fitter.get_data(),
+                   append=True)
+        if self._fitter.get_fixed_background():
+            fname = (self._fitter.get_fixed_background()._name +
+                     "_fixed.hdf5")
+            store.dump(path + fname,
+                       self._fitter.get_fixed_background(),
+                       append=True)
+        if self._fitter.get_floating_backgrounds():
+            for background in self._fitter.get_floating_backgrounds():
+                fname = background._name + "_float.hdf5"
+                store.dump(path + fname, background, append=True)
+        fname = self._signal._name + "_signal.hdf5"
+        store.dump(path + fname, self._signal, append=True)
+
     def get_statistics(self):
         """ Get the test statistics for all signal scalings.
 
-- 
2.43.0


From 5e7627cdbdb854686fcf9071a5514af00a9fa28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 39/65] fix: extractors call the ROOT event and particle
 counters

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From cb089d6856e87f04556c9388dee0971cfdc66b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 40/65] fix: radius extractors require a valid reconstructed
 position

---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..ec3e947 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1023,8 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1314,8 +1314,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 0d37604e478658812b5c22b008297f10da4a22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 41/65] fix: ZRadial3 extractors can be constructed and follow
 their siblings

---
 echidna/core/dsextract.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index ec3e947..6157449 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1092,14 +1092,18 @@ class ZRadial3ExtractMC(Extractor):
       reconstructed position. If False then MC position is used for cuts.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1248,14 +1252,19 @@ class ZRadial3ExtractReco(Extractor):
         If False then position cuts will be made on reconstructed position.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1332,8 +1341,8 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
-- 
2.43.0


From 8e6e136032789fdfecd76b4bf7760d632b9a9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 42/65] fix: fiducial cuts on reconstructed position require a
 valid one

---
 echidna/core/dsextract.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 6157449..b4b322b 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -154,6 +154,10 @@ class EnergyExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -428,6 +432,10 @@ class EnergyExtractTruth(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -572,6 +580,10 @@ class RadialExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -859,6 +871,10 @@ class Radial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -1153,6 +1169,10 @@ class ZRadial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
-- 
2.43.0


From 703fd38b34d1fbcb8cbab485149b4ce7d05620b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 43/65] fix: bipo filling from ntuples counts the last event

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..e5e482c 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # Last event has no following entry
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From 91e8ad86f65879037ec381968c3afc71e5f77159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 44/65] fix: DBIsotope validates explicit zero arguments

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From 678dcd20dc4843e443b27233d8636b6389b36418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 45/65] fix: decay self-test drops calls to an interface that
 is gone

---
 echidna/calc/decay.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 4814f49..d5d912e 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -355,12 +355,6 @@ def test(args):
     Args:
       args (dict): Command line arguments from :mod:`argparse`
     """
-    # Load signal
-    signal = store.load(args.signal)
-    # Cut to 3.5m FV and 5 year livetime
-    signal.shrink(0.0, 10.0, 0.0, 3500.0, 0.0, 5.0)
-    # Shrink to ROI
-    signal.shrink_to_roi(2.46, 2.68, 0)  # ROI used by Andy
 
     print "============"
     print "decay module"
-- 
2.43.0


From 6152470c3403d35fac7a0c66285529cb4735bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 46/65] fix: get_array_errors returns the shape of the array

---
 echidna/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..42b973e 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -66,8 +66,7 @@ def get_array_errors(array, lin_err=0.01, frac_err=None,
             error = numpy.power(10., error)
         errors[index] = error
     errors = errors - array
-    errors.reshape(shape)
-    return errors
+    return errors.reshape(shape)
 
 
 class DispatchingFormatter:
-- 
2.43.0


From b4d222280e612a1ad6a89f1a9a6858cf6d0111f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 47/65] fix: load_fit_results accepts a fit without
 spectra-specific parameters

---
 echidna/output/store.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..11d3516 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -392,12 +392,17 @@ def load_fit_results(file_path):
                        object_pairs_hook=OrderedDict),
             name=spectra_config_name)
         fit_config_name = group.attrs["fit_config_name"]
-        fit_config = GlobalFitConfig.load(
-            json.loads(group.attrs["fit_config"],
-                       object_pairs_hook=OrderedDict)[0],
-            spectral_config=json.loads(group.attrs["fit_config"],
-                                       object_pairs_hook=OrderedDict)[1],
-            name=fit_config_name)
+        global_config = json.loads(group.attrs["fit_config"],
+                                   object_pairs_hook=OrderedDict)[0]
+        spectral_config = json.loads(group.attrs["fit_config"],
+                                     object_pairs_hook=OrderedDict)[1]
+        if spectral_config["spectral_fit_parameters"]:
+            fit_config = GlobalFitConfig.load(global_config,
+                                              spectral_config=spectral_config,
+                                              name=fit_config_name)
+        else:
+            fit_config = GlobalFitConfig.load(global_config,
+                                              name=fit_config_name)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
-- 
2.43.0


From 6ccbebf5c910f74a9b58a49c3d8317bbec2a8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 48/65] fix: load_limit_results restores per-bin fit results as
 per-bin

---
 echidna/output/store.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 11d3516..9aecd9e 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -477,10 +477,13 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
+                    stats = sub_group["stats"].value
+                    per_bin = stats.shape != fit_config.get_shape()
                     fit_results = GridSearch(fit_config=fit_config,
                                              spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                                             name=fit_config_name,
+                                             per_bin=per_bin)
+                    fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
-- 
2.43.0


From 53d1fb1b2dbf28abed192a3ea037c601f12fe38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 49/65] Revert "fix: BakerCousinsChiUp skips upward bins in
 per-bin mode as in total mode"

This reverts commit ae0c81a63d279094a5f6a905ecfaf1afae3ced71.
---
 echidna/fit/test_statistic.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 850450b..a1921e4 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,9 +302,6 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
-            if obs > exp:  # Excess over expectation, not counted
-                stats.append(0.)
-                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From 2b337f25e4827e97fe3eda7e6fc8a6d7548b0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 50/65] Revert "fix: test statistics no longer overwrite the
 caller's arrays"

This reverts commit 95f397b04b67d6c4336844822ec9fa263418523a.
---
 echidna/fit/test_statistic.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index a1921e4..ba10c5c 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -369,8 +369,6 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
-        # Work on a copy, the limit must not reach the caller's array
-        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -397,8 +395,6 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
-        # Work on a copy, the limit must not reach the caller's array
-        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -466,8 +462,6 @@ class Neyman(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
-        # Work on a copy, the limit must not reach the caller's array
-        observed = observed.astype("float")
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -494,8 +488,6 @@ class Neyman(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
-        # Work on a copy, the limit must not reach the caller's array
-        observed = observed.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -565,8 +557,6 @@ class Pearson(TestStatistic):
         if isinstance(expected, float):
             expected = numpy.array([expected])
         # Chosen due to backgrounds with low rates in ROI
-        # Work on a copy, the limit must not reach the caller's array
-        expected = expected.astype("float")
         epsilon = 1e-34  # Limit of zero
         total = 0
         for i in range(len(observed)):
@@ -593,8 +583,6 @@ class Pearson(TestStatistic):
           :class:`numpy.array`: Calculated chi squared for each bin
         """
         # Chosen due to backgrounds with low rates in ROI
-        # Work on a copy, the limit must not reach the caller's array
-        expected = expected.astype("float")
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
-- 
2.43.0


From d87a0d4eb594da68a5f55c12d44d6cd373651396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 51/65] fix: smearing reaches the last bin of the axis

---
 echidna/core/smear.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 2c9c8d7..e6ec108 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -261,8 +261,8 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            # The upper end of numpy.arange is exclusive
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -511,8 +511,8 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            # The upper end of numpy.arange is exclusive
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -731,8 +731,8 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            # The upper end of numpy.arange is exclusive
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 7d46e561ad078291bbde1b9efa1a4637b40c2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 52/65] fix: Poisson smearing follows the energy resolution

---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e6ec108..9892c18 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -452,6 +452,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield giving the same sigma for Poisson smearing
+            self._light_yield = 1. / resolution**2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From b1b8b1150abc0373c180ed50b58bd15170853b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 53/65] fix: energy resolution smearing has a default
 resolution

---
 echidna/core/smear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 9892c18..9737132 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -369,6 +369,7 @@ class EnergySmearRes(Smear):
         super(EnergySmearRes, self).__init__("energy_resolution")
         self._poisson_smear = poisson
         self._light_yield = 200  # Nhit/MeV
+        self._resolution = 1. / numpy.sqrt(self._light_yield)
         self._log_factorial = {}
 
     def calc_poisson_energy(self, x, lamb):
-- 
2.43.0


From b98e89bdcccc71d9f3335e22360795be32552721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 54/65] fix: random radial smearing counts whole entries

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 9737132..62a26e3 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -790,7 +790,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From 0973cc43da5d84346e5c34040db888c2b0d67841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 55/65] fix: light yield error message names the value

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 62a26e3..7fe399e 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -204,7 +204,7 @@ class EnergySmearLY(Smear):
             self._light_yield = float(light_yield)
         else:
             raise ValueError("%s is an invalid light yield. Light yield "
-                             "must be greater than zero.")
+                             "must be greater than zero." % light_yield)
 
     def weighted_smear(self, spectrum, par="energy_mc"):
         """ Smears the energy of a :class:`spectra.Spectra` by
-- 
2.43.0


From 229c7d89cb343a986f8c60a3ab45eb13abd563a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 56/65] fix: pre-convolved file names keep the digits of the
 value

---
 echidna/core/parameter.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f18ccf4..ab03768 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -796,8 +796,9 @@ class ResolutionParameter(FitParameter):
         else:
             ext = 'rs'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Same form as written by the dump scripts
+        if value_string[-2:] == '.0':
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -910,8 +911,9 @@ class ScaleParameter(FitParameter):
         else:
             directory += 'scale/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Same form as written by the dump scripts
+        if value_string[-2:] == '.0':
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1024,8 +1026,9 @@ class ShiftParameter(FitParameter):
         else:
             directory += 'shift/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Same form as written by the dump scripts
+        if value_string[-2:] == '.0':
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From bc3daf45bcc4a7fce105e232d9af9ea04f65ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 57/65] fix: dump_shifted writes the name a fit looks for

---
 echidna/scripts/dump_shifted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shifted.py b/echidna/scripts/dump_shifted.py
index 1cf1e45..ceefb43 100644
--- a/echidna/scripts/dump_shifted.py
+++ b/echidna/scripts/dump_shifted.py
@@ -45,5 +45,8 @@ if __name__ == "__main__":
     shifter.set_shift(args.shift)
     spectrum = store.load(args.file)
     shifted_spectrum = shifter.shift(spectrum, args.dimension)
-    filename = directory + filename + "_shifted.hdf5"
+    str_sh = str(args.shift)
+    if str_sh[-2:] == '.0':
+        str_sh = str_sh[:-2]
+    filename = directory + filename + "_" + str_sh + "sh.hdf5"
     store.dump(filename, shifted_spectrum)
-- 
2.43.0


From b5c6c3f96193606d30a01581fea02d18f500a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 58/65] fix: dump_scaled writes beside a file given without a
 directory

---
 echidna/scripts/dump_scaled.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..32030e0 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,11 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.dirname(args.file)
+        if directory:
+            directory += "/"
+        else:
+            directory = "./"
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
-- 
2.43.0


From 7558cc4c9874f86a0de962b287d36a7f36b0c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 59/65] fix: one full statistic per signal scale, also for fits
 per bin

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..4090036 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
-- 
2.43.0


From f9f002f390064843e723af597725392e6d9abf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 60/65] fix: string_to_dict reads back the text of an empty
 dictionary

---
 echidna/output/store.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9aecd9e..c5fbca1 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -62,6 +62,8 @@ def string_to_dict(in_string):
       dict: The converted string.
     """
     out_dict = {}
+    if not in_string:
+        return out_dict
     keys_values = in_string.split(',')
     for entry in keys_values:
         key = entry.split(":")[0]
-- 
2.43.0


From 50246e69c8a356709fdfaede8c3a409773351b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 61/65] fix: penalty_vs_systematic saves to the file asked for

---
 echidna/output/plot_chi_squared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index e1b61ef..1a68101 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -249,7 +249,7 @@ def penalty_vs_systematic(syst_analyser, fig_num=1, save_as=None):
         label.set_fontsize(MAIN_FONT.get("size"))
 
     if save_as:
-        plt.savefig(kwagrs.get("save_as") + ".png")
+        plt.savefig(save_as + ".png")
     return fig
 
 
-- 
2.43.0


From 2202f9d5c5788be54e46352dcf6e3dfd994f23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 62/65] fix: dump_spectra_root plots every parameter of the
 config

---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..6b5a0a4 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From faffa135d7777af3bdcc541b616cd35b333fc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 63/65] fix: the plot example names the dimensions of its
 surface

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..8a2a070 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -299,4 +299,4 @@ if __name__ == "__main__":
 
     filename = "/data/Te130_0n2b_mc_smeared.hdf5"
     spectre = store.load(echidna.__echidna_home__ + filename)
-    plot_surface(spectre, 2)
+    plot_surface(spectre, "energy_mc", "radial3_mc")
-- 
2.43.0


From 85b051b826d7a62f764c708afa2159f9be35e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:12 +0000
Subject: [PATCH 64/65] fix: klz_majoron_limits follows the Fit and Limit
 interfaces

---
 echidna/scripts/klz_majoron_limits.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index 5a6f7bb..272081d 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -284,7 +284,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
 
     # Fit with no signal
     stat_zero = fitter.fit()
-    fit_results = fitter.get_fit_results()
+    fit_results = fitter.get_minimiser()
     logger.info("Calculated stat_zero: %.4f" % numpy.sum(stat_zero))
     logger.info("Fit summary:")
     logging.getLogger("extra").info("\n%s\n" %
@@ -334,7 +334,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
     # Loop through signals and set limit for each
     for signal in signals:
         # Reset GridSearch - with added signal rate parameter
-        fitter.get_fit_results().reset_grids()
+        fitter.get_minimiser().reset_grids()
 
         # Create converter
         converter = decay.DBIsotope(
@@ -349,9 +349,9 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
         klz_limit = klz_limits.get(signal._name)
 
         # Create limit setter
-        limit_setter = limit.Limit(signal, fitter, per_bin=per_bin)
+        limit_setter = limit.Limit(signal, fitter)
 
-        limit_scaling = limit_setter.get_limit(store_summary=store_summary)
+        limit_scaling = limit_setter.get_limit(store_limit=store_summary)
         signal.scale(limit_scaling)
         half_life = converter.counts_to_half_life(
             limit_scaling,
-- 
2.43.0


From ed3b7d257f0c07b39687170486073eb71468c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:47 +0000
Subject: [PATCH 65/65] fix: plotting the best fit in sigmas leaves the limit
 results alone

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..2754aae 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -425,8 +425,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0

