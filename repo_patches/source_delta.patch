From 43b40cad59f92f04cf1a78af057984b31d32a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:39 +0000
Subject: [PATCH 001/114] fix: drop store's import of the nonexistent
 echidna.limit.summary

Summary and ReducedSummary are not used and the module does not exist, so
echidna.output.store, echidna.fit.fit and echidna.limit.limit could not be
imported at all.
---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From f0f8c9e53adbab014c96c1a16229396e4e96b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 002/114] fix: make the upper slice bound of Spectra.shrink an
 integer

numpy.ceil returns a float, so the slice expression was built from strings
like '3.0' and every call to shrink, cut or shrink_to_roi raised TypeError.
---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From a469fcb9ad36615b827c55615aed4410c33c9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 003/114] fix: check every dimension before Spectra.rebin
 changes the config

When a later dimension was not divisible the ValueError left the earlier
parameters of the config with a binning the data does not have.
---
 echidna/core/spectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..0a7e5af 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -366,6 +366,7 @@ class Spectra(object):
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From 1d309b73826582745dafa2ad3448f21046078006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 004/114] fix: sum the right axes in Spectra.nd_project and
 Spectra.surface

Summing an axis away renumbers the later ones, so with two or more axes to
remove the wrong axis was summed or the call raised.
---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 0a7e5af..7e82666 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,7 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -594,7 +594,7 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From f3c9908863e2e2d1dad060b8b2c308e6520da4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 005/114] fix: keep Spectra.fill inside the histogram just
 below the upper bound

For a value in range, (value - low)/(high - low)*bins can round up to bins,
which raised IndexError instead of filling the last bin.
---
 echidna/core/spectra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 7e82666..8a1b05c 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -193,10 +193,12 @@ class Spectra(object):
                 raise ValueError("%s out of range: %s" % (v, kwargs[v]))
         bins = []
         for v in self._config.get_pars():
-            bins.append(int((kwargs[v] - self._config.get_par(v)._low) /
-                            (self._config.get_par(v)._high -
-                             self._config.get_par(v)._low) *
-                            self._config.get_par(v)._bins))
+            # A value just below high can be rounded up to the upper edge
+            bins.append(min(int((kwargs[v] - self._config.get_par(v)._low) /
+                                (self._config.get_par(v)._high -
+                                 self._config.get_par(v)._low) *
+                                self._config.get_par(v)._bins),
+                            self._config.get_par(v)._bins - 1))
         self._data[tuple(bins)] += weight
 
     def get_background_name(self):
-- 
2.43.0


From e8d4fb8ade86d3aec20778ffb86b4572160a851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 006/114] fix: SpectraParameter.round counts bin edges from the
 lower bound

Edges were taken as multiples of the width, so with a lower bound that is
not itself a multiple shrink recorded bounds the data does not have and the
smearing window was offset from the bins.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..c3a5a2b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        return (self._low + round((x - self._low) / self.get_width()) *
+                self.get_width())
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From f5d975a3d8db22c9787c324ecc87b9f6c1311636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 007/114] fix: integer number of points for logscale_deviation
 values

numpy.linspace rejects the float returned by numpy.rint, so get_values always
raised TypeError with this flag set.
---
 echidna/core/parameter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c3a5a2b..cca3fbe 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -460,10 +460,11 @@ class FitParameter(Parameter):
                 delta_high = numpy.absolute(self._high - self._prior)
 
                 # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                bins_high = int(numpy.rint(
+                    (delta_high) / (delta_low + delta_high) *
+                    (self._bins + 1)))
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 85c64f09cae99efedc6ed32950a03c4511af8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 008/114] fix: FitParameter.to_dict stored the best fit as the
 penalty term

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index cca3fbe..6b45a13 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -631,7 +631,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 211c2e540d120db523f79f5830d31efd73b91a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 009/114] fix: FitParameter.set_par with values that are not
 numbers, integer bins

The log line formatted None, flags and names with %.4g (TypeError), unknown
names raised KeyError rather than the documented TypeError, and bins became a
float which get_values cannot use.
---
 echidna/core/parameter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 6b45a13..b77f4b6 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -558,8 +558,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -572,7 +572,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
-- 
2.43.0


From 6a7d6b1ce14a37984d6190d0e9e0ca014e76d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 010/114] fix: FitParameter.get_value_index raises its
 documented ValueError

The % operator bound to the second half of the message (TypeError).
---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index b77f4b6..54f45e1 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -514,7 +514,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 35f41d9ccacb1f6f634225f523d17e91957a972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 011/114] fix: only strip trailing zeros after a decimal point
 in file names

An integer value of 200 became '2' and 1e-10 became '1e-1', so different
values shared one pre-convolved file.
---
 echidna/core/parameter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 54f45e1..61a54e7 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -788,7 +788,8 @@ class ResolutionParameter(FitParameter):
             ext = 'rs'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -902,7 +903,8 @@ class ScaleParameter(FitParameter):
             directory += 'scale/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1016,7 +1018,8 @@ class ShiftParameter(FitParameter):
             directory += 'shift/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From ecb79228fea3f485f57416ac3f4543ab3519707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 012/114] fix: logscale_deviation gives exactly bins values
 including the prior

Rounding both sides independently could give one value too many or too few,
which does not match the shape of the fit grid, and with low equal to the
prior the prior was left out.
---
 echidna/core/parameter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 61a54e7..71cf2c6 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -462,9 +462,9 @@ class FitParameter(Parameter):
                 # Calculate bins above and below, distributing evenly
                 bins_low = int(numpy.rint(
                     (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
-                bins_high = int(numpy.rint(
-                    (delta_high) / (delta_low + delta_high) *
-                    (self._bins + 1)))
+                # At least the prior itself in low, and bins values in total
+                bins_low = min(max(bins_low, 1), self._bins)
+                bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 2556bf74148b0c1184af4ac348ef91860407b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 013/114] fix: weighted_smear reaches the last bin of the
 smeared axis

The clipped upper end of the window was the centre of the last bin, which
numpy.arange excludes: nothing was ever smeared into the last bin, and the
entries of a last bin wider than the window were lost altogether.
---
 echidna/core/smear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..e45cd41 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,8 +260,7 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -508,8 +507,7 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -726,8 +724,7 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 21bab042dfa633bf6cffe427113e6f118973e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 014/114] fix: EnergySmearRes smears with its resolution in
 poisson mode too

Poisson smearing, the default and what ResolutionParameter uses, kept a
light yield of 200 whatever resolution was set.
---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e45cd41..d2e279d 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -449,6 +449,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield with the same sigma, for poisson smearing
+            self._light_yield = 1. / float(resolution) ** 2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From e359529a15330dfff29b3cfd085513b9529de0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 015/114] fix: recognise shifts by whole bins whose remainder
 rounds to a full bin

0.3 % 0.1 is 0.0999..., so such shifts were interpolated, and refused by
shift_by_bin.
---
 echidna/core/shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..95116df 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -44,7 +44,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if numpy.isclose(shift / step - numpy.rint(shift / step), 0.):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -181,7 +181,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not numpy.isclose(shift / step - numpy.rint(shift / step), 0.):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 4f65762234066d7fbcb18a7eadcb0e25f2abe6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 016/114] fix: an empty result of a shift or scale convolution
 stays empty

With no content left in range (or none to begin with) the renormalisation
divided by zero and filled the spectrum with NaN.
---
 echidna/core/scale.py | 5 +++--
 echidna/core/shift.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..1a00028 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -165,7 +165,8 @@ class Scale(object):
                             "scale2 * (y / unscaled_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
+        if scaled_spec.sum() > 0.:
+            scaled_spec._num_decays = scaled_spec.sum()
+            scaled_spec.scale(prescale_sum)
         scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 95116df..5037674 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -162,8 +162,9 @@ class Shift(object):
                             "old_data2 * scale2 * (y / unshifted_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
+        if shifted_spec.sum() > 0.:
+            shifted_spec._num_decays = shifted_spec.sum()
+            shifted_spec.scale(preshift_sum)
         shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
-- 
2.43.0


From 5e1c31ee7bab776f04e55fa8085d3326cfadcc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 017/114] fix: integer grid indices in
 GridSearch._get_fit_par_values

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..914fbdf 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From 1ec550e3df403834c0af396e6ba0d0e17f08ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 018/114] fix: integer division for the coordinates in
 GridSearch._update_coords

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 914fbdf..898fa62 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -582,7 +582,7 @@ class GridSearch(FitResults, Minimiser):
         product = 1  # product of dimensions
         for dim in new_coords.shape:
             product *= dim
-            multiplier += len(coords) / product
+            multiplier += len(coords) // product
 
         # Calculate indices
         indices = [i * multiplier + j for i, j in enumerate(new_coords)]
-- 
2.43.0


From 545fd7f3be28611eb93e80b9417984cf68e93d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 019/114] fix: give every grid point its own index when
 parameter values repeat

---
 echidna/fit/minimise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 898fa62..bf1a660 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -683,9 +683,9 @@ class GridSearch(FitResults, Minimiser):
         """
         if index < len(values):
             parameter = self._fit_config.get_par_by_index(index)
-            for value in parameter.get_values():
+            for i, value in enumerate(parameter.get_values()):
                 values[index] = value
-                indices[index] = parameter.get_value_index(value)
+                indices[index] = i
                 for values, indices in self._get_values(index+1,
                                                         values, indices):
                     yield values, indices
-- 
2.43.0


From 7f0c3ea4b4bd77a677597728010139fe4fef13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 020/114] fix: reach the shape check of per-bin results in
 GridSearch.minimise

---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index bf1a660..b502dad 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From f3f159cb25512c37c881953a84764357d16cc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 021/114] fix: do not report a nan grid point as the minimum of
 a GridSearch

---
 echidna/fit/minimise.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index b502dad..d825eb5 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -345,7 +345,7 @@ class GridSearch(FitResults, Minimiser):
         if self._use_numpy:
             # Set best_fit values
             # This is probably not the most efficient way of doing this
-            position = numpy.argmin(minimum)
+            position = self._argmin(minimum, None)
             position = numpy.unravel_index(position, minimum.shape)
             minimum = numpy.nanmin(minimum)
         else:  # Use find_minimum method
@@ -638,13 +638,13 @@ class GridSearch(FitResults, Minimiser):
         for i, dim in enumerate(reversed(list(range(dims)))):
             # Work out coordinates
             if coords is None:  # Create array
-                coords = numpy.argmin(minimum, axis=dim).ravel()
+                coords = self._argmin(minimum, dim).ravel()
                 coords = coords.reshape(len(coords), 1)
             elif dim > 0:  # Update existing array
-                new_coords = numpy.argmin(minimum, axis=dim)
+                new_coords = self._argmin(minimum, dim)
                 coords = self._update_coords(coords, new_coords)
             else:  # Last dimension - new_coords is a single float
-                new_coords = numpy.argmin(minimum, axis=dim)
+                new_coords = self._argmin(minimum, dim)
                 coords = coords[new_coords]
                 if coords is not numpy.array:
                     coords = numpy.array([coords])
@@ -657,6 +657,21 @@ class GridSearch(FitResults, Minimiser):
         coords = tuple(coords)
         return minimum, coords
 
+    @staticmethod
+    def _argmin(array, axis):
+        """ Internal method to locate minima. As
+        :func:`numpy.nanargmin`, but allows slices of nan only.
+
+        Args:
+          array (:class:`numpy.ndarray`): Array to minimise.
+          axis (int): Axis along which to minimise.
+
+        Returns:
+          (:class:`numpy.ndarray`): Indices of the minima, ignoring nan.
+        """
+        return numpy.argmin(numpy.where(numpy.isnan(array), numpy.inf, array),
+                            axis=axis)
+
     def _get_fit_par_values(self):
         """ Internal method. Gets next array of parameter values to
         test in fit.
-- 
2.43.0


From 53857ecf27c8ca5f8dd02815ab680acbe8ad7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 022/114] fix: compare grid indices with the bounds of their
 own dimension

---
 echidna/fit/minimise.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d825eb5..12a880a 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -135,7 +135,9 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
+        if (len(indices) != len(self._fit_config.get_shape()) or
+                any(index >= dim for index, dim in
+                    zip(indices, self._fit_config.get_shape()))):
             raise IndexError(
                 "indices %s out of bounds for fit with dimensions %s" %
                 (str(indices), str(self._fit_config.get_shape())))
@@ -262,7 +264,9 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
+        if (len(indices) != len(self._fit_config.get_shape()) or
+                any(index >= dim for index, dim in
+                    zip(indices, self._fit_config.get_shape()))):
             raise IndexError(
                 "indices %s out of bounds for fit with dimensions %s" %
                 (str(indices), str(self._fit_config.get_shape())))
@@ -512,7 +516,9 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
+        if (len(indices) != len(self._fit_config.get_shape()) or
+                any(index >= dim for index, dim in
+                    zip(indices, self._fit_config.get_shape()))):
             raise IndexError(
                 "indices %s out of bounds for fit with dimensions %s" %
                 (str(indices), str(self._fit_config.get_shape())))
@@ -531,7 +537,9 @@ class GridSearch(FitResults, Minimiser):
             the fit dimensions
           TypeError: If stat is not a :class:`numpy.ndarray`.
         """
-        if indices > self._fit_config.get_shape():
+        if (len(indices) != len(self._fit_config.get_shape()) or
+                any(index >= dim for index, dim in
+                    zip(indices, self._fit_config.get_shape()))):
             raise IndexError(
                 "indices %s out of bounds for fit with dimensions %s" %
                 (str(indices), str(self._fit_config.get_shape())))
-- 
2.43.0


From 22e81aab21fd56fb4e4b01929683aecbb098ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 023/114] fix: GridSearch.reset_grids keeps to the per_bin
 setting

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 12a880a..e2bb7c7 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -476,8 +476,9 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        stats_shape = self._fit_config.get_shape()
+        if self._per_bin:
+            stats_shape += self._spectra_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 94339020056cf4037364516df75a1feef9d1705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 024/114] fix: project the grid of statistics onto the
 requested parameters

---
 echidna/fit/minimise.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index e2bb7c7..bb8b5e1 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -6,6 +6,7 @@ from echidna.fit.fit_results import FitResults
 
 import copy
 import abc
+import itertools
 
 
 class Minimiser(object):
@@ -400,19 +401,18 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        if all(parameter in self._fit_config.get_pars()
+               for parameter in parameters):
             # Can apply penalty term contributions
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            # indices leave the spectral dimensions only
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -442,15 +442,17 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        counter = 0
+        if all(parameter in self._fit_config.get_pars()
+               for parameter in parameters):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
+            for axis, parameter in enumerate(self._fit_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
+            projection = copy.copy(self._stats)
             for axis, parameter in enumerate(
                     itertools.chain(self._fit_config.get_pars(),
                                     self._spectra_config.get_pars())):
-- 
2.43.0


From e3003f342a755b59fe3a2d30c0fedd0994a995b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 025/114] fix: select raw stats by the value of a fit parameter

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index bb8b5e1..baa3016 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -196,7 +196,7 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From f2aa7aa834c04ff38ba4fad82ef177f950a56228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 026/114] fix: GridSearch.get_raw_stats_at with a single value
 per grid point

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index baa3016..7d5fca5 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -218,11 +218,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while len(stats.shape) > 0 and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while len(stats.shape) > 0 and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From f5e2d3bf4282b1da52bf0ee57d910b216453378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 027/114] fix: BakerCousinsChiUp per bin skips the bins its sum
 skips

---
 echidna/fit/test_statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index ba10c5c..0c081e3 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,6 +302,9 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
+            if obs > exp:  # as in _compute
+                stats.append(0.)
+                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From 0d981b03750d0665ecf66626a8175ccf7a99e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 028/114] fix: test statistics leave the arrays they are given
 unchanged

---
 echidna/fit/test_statistic.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 0c081e3..278ee5f 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -372,6 +372,8 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -398,6 +400,8 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -464,6 +468,8 @@ class Neyman(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         total = 0
@@ -490,6 +496,8 @@ class Neyman(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated chi squared for each bin
         """
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         stats = []
@@ -559,6 +567,8 @@ class Pearson(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # Limit of zero
         total = 0
@@ -585,6 +595,8 @@ class Pearson(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated chi squared for each bin
         """
+        observed = observed.astype('float')
+        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         stats = []
-- 
2.43.0


From 95e8a36867c3eca46feaf334af375e2432d99910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 029/114] fix: LimitResults.get_limit_stat reads the stored
 statistics

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 6c923f44955df0a755a1a651fa4b1648e167eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:36 +0000
Subject: [PATCH 030/114] fix: Fit.check_roi reports the roi it is checking

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..4429b53 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -307,7 +307,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
-- 
2.43.0


From 79beed692e6c999a81c675fb7b4cb26505f14db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:36 +0000
Subject: [PATCH 031/114] fix: apply every global parameter to the signal, not
 only the last

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 4429b53..e24b37d 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -539,8 +539,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 8beed46307d4b09552e94fc2590ddaf9e5c6f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 032/114] fix: shrinking a fixed background leaves the config
 of its input alone

---
 echidna/core/config.py | 13 +++++++++++++
 echidna/fit/fit.py     |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..aa55c11 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -9,6 +9,7 @@ import echidna.util.yaml_loader as yaml_loader
 
 import logging
 import abc
+import copy
 from collections import OrderedDict
 
 
@@ -673,6 +674,18 @@ class SpectraConfig(Config):
         super(SpectraConfig, self).__init__(config_name, parameters)
         self._type = "spectra"
 
+    def copy(self):
+        """ Copy the config.
+
+        Returns:
+          :class:`echidna.core.config.SpectraConfig`: Copy of the config, with
+            its own copies of all the parameters.
+        """
+        config = copy.copy(self)
+        config._parameters = OrderedDict(
+            (name, copy.copy(self.get_par(name))) for name in self.get_pars())
+        return config
+
     def dump(self):
         """ Dumps the spectra config to a config dictionary, containing
         all spectra parameters. The dictionary has the form specified
diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index e24b37d..6ebe266 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -162,6 +162,7 @@ class Fit(object):
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
+            spectrum._config = spectrum._config.copy()
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
@@ -643,6 +644,7 @@ class Fit(object):
             self._logger.debug("Adding Spectra with name %s to"
                                "_fixed_background" % spectrum.get_name())
             spectrum = copy.copy(spectrum)
+            spectrum._config = spectrum._config.copy()
             if first:
                 first = False
                 if shrink:
-- 
2.43.0


From f7c50e85e9ad2dd81c5fbab6cc62eae17a51d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 033/114] fix: convolved spectra get their own copy of the
 config and rois

---
 echidna/core/scale.py |  2 ++
 echidna/core/shift.py |  4 ++++
 echidna/core/smear.py | 12 ++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index 1a00028..9e320fe 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -52,6 +52,8 @@ class Scale(object):
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         sf = self.get_scale_factor()
         scaled_spec = copy.copy(spectrum)
+        scaled_spec._config = spectrum._config.copy()
+        scaled_spec._rois = copy.deepcopy(spectrum._rois)
         scaled_spec._name = spectrum._name + "_sf" + str(sf)
         scaled_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 5037674..a3e7902 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -50,6 +50,8 @@ class Shift(object):
         preshift_sum = spectrum.sum()
         interpolation = spectrum.interpolate1d(dimension, **kwargs)
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = spectrum._config.copy()
+        shifted_spec._rois = copy.deepcopy(spectrum._rois)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
@@ -186,6 +188,8 @@ class Shift(object):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
+        shifted_spec._config = spectrum._config.copy()
+        shifted_spec._rois = copy.deepcopy(spectrum._rois)
         shifted_spec._name = spectrum._name + "_shift" + str(shift)
         shifted_spec._data = numpy.zeros(spectrum._data.shape)
         n_dim = len(spectrum._data.shape)
diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index d2e279d..e8951ea 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -238,6 +238,8 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -314,6 +316,8 @@ class EnergySmearLY(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
@@ -486,6 +490,8 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -563,6 +569,8 @@ class EnergySmearRes(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "%")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -703,6 +711,8 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
@@ -776,6 +786,8 @@ class RadialSmear(Smear):
             widths.append(spectrum.get_config().get_par(par_name).get_width())
             par_names.append(par_name)
         smeared_spec = copy.copy(spectrum)
+        smeared_spec._config = spectrum._config.copy()
+        smeared_spec._rois = copy.deepcopy(spectrum._rois)
         smeared_spec._name = (spectrum._name + "_" +
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
-- 
2.43.0


From dca4aa40584adc2c82ef33baeaeb26b6e2e95070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 034/114] fix: Spectra.add lines up the dimensions of the two
 spectra

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 8a1b05c..ad79647 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -100,6 +100,7 @@ class Spectra(object):
                 dim = spectrum.get_config().get_dim(v)
                 dim_type = spectrum._config.get_dim_type(dim)
                 types[dim] = dim_type
+        order = []  # Axes of spectrum, in the order of this spectra
         for v in self._config.get_pars():
             dim = self._config.get_dim(v)
             if dim in types:
@@ -133,7 +134,8 @@ class Spectra(object):
                                     spectrum._name,
                                     spectrum.get_config().get_par(v_spec)
                                     ._bins))
-        self._data += spectrum._data
+            order.append(spectrum.get_config().get_index(v_spec))
+        self._data += spectrum._data.transpose(order)
         self._raw_events += spectrum._raw_events
         self._num_decays += spectrum._num_decays
 
-- 
2.43.0


From d1d12fc2e643a89b212f1089bf2adc6f608230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 035/114] fix: GlobalFitConfig.load accepts the dump of a
 config without spectral parameters

---
 echidna/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index aa55c11..20c2580 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -468,7 +468,7 @@ class GlobalFitConfig(Config):
 
         # Add spectral fit parameters:
         main_key = "spectral_fit_parameters"
-        if not spectral_config.get(main_key):
+        if main_key not in spectral_config:
             logging.getLogger("extra").debug("\n\n%s\n" % str(spectral_config))
             raise KeyError("Cannot read spectra fit config dictionary. "
                            "Please check it has the correct form")
-- 
2.43.0


From 00db0f767a546be3980c51f6ba853069fe6f9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 036/114] fix: GlobalFitConfig.dump_to_file writes two files
 for blank names

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 20c2580..c653bc9 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -334,7 +334,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         with open(path+global_fname, "w") as stream:
@@ -344,7 +344,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
-- 
2.43.0


From 6d9c95fb87c800e16893338a74b378ef73dea635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 037/114] fix: a blank config name means the name of the file

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c653bc9..ea73d09 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -506,7 +506,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -651,7 +651,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -787,7 +787,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 8db6ee018bbef20fe3167a5bcfb88a3c337bea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 038/114] fix: Config.get_type returns the type

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index ea73d09..9a5bff6 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -149,9 +149,9 @@ class Config(object):
         """
         Returns:
           string: Type of :class:`Config` class instance - stored in
-            :attr:`_name`.
+            :attr:`_type`.
         """
-        return self._name
+        return self._type
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From 281016bff4ad6aff41e957eb7106b78bf1b7e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 039/114] fix: restore the per_bin flag of the fits in loaded
 limit results

---
 echidna/output/store.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..a17d333 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -472,10 +472,13 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
+                    stats = sub_group["stats"].value
+                    per_bin = (stats.shape != fit_config.get_shape())
                     fit_results = GridSearch(fit_config=fit_config,
                                              spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                                             name=fit_config_name,
+                                             per_bin=per_bin)
+                    fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
-- 
2.43.0


From d8293cc48695665af124d5d40199421a9a8582b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 040/114] fix: FitParameter.check_values finds a prior of zero

---
 echidna/core/parameter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 71cf2c6..5ef1c0e 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -271,8 +271,12 @@ class FitParameter(Parameter):
             logging.getLogger("extra").debug("\n\n%s\n" % str(bad_values))
 
         # Check prior contained in values
-        if not numpy.any(numpy.around(values / self._prior, 12) ==
-                         numpy.around(1., 12)):
+        if self._prior == 0.:
+            in_values = numpy.isclose(values, 0., atol=1.e-12)
+        else:
+            in_values = (numpy.around(values / self._prior, 12) ==
+                         numpy.around(1., 12))
+        if not numpy.any(in_values):
             warnings.warn("Prior not in values array "
                           "for parameter %s" % self._name)
             logging.getLogger("extra").warning(
-- 
2.43.0


From a5cd747adb14b68eef8af2aa709cd35937c59e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 041/114] fix: cut and shrink_to_roi of spectra without counts

---
 echidna/core/spectra.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index ad79647..11b2469 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -160,6 +160,8 @@ class Spectra(object):
         initial_count = self.sum()  # Store initial count
         self.shrink(**kwargs)
         new_count = self.sum()
+        if initial_count == 0.:
+            return  # Nothing to cut away
         reduction_factor = float(new_count) / float(initial_count)
         # This reduction factor tells us how much the number of detected events
         # has been reduced by shrinking the spectrum. We want the number of
@@ -561,7 +563,10 @@ class Spectra(object):
 
         # Calculate efficiency
         integral_roi = self.sum()  # Integral of spectrum over ROI
-        efficiency = float(integral_roi) / float(integral_full)
+        if integral_full == 0.:
+            efficiency = 0.
+        else:
+            efficiency = float(integral_roi) / float(integral_full)
         par = self.get_config().get_par(dimension)
         self._rois[dimension] = {"low": par._low,
                                  "high": par._high,
-- 
2.43.0


From 5fe769fab842dd39f2bb0d2173856011e60c9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 042/114] fix: counts_to_activity of integer counts and
 livetime

---
 echidna/calc/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..b9cfa01 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -243,7 +243,7 @@ class DBIsotope(object):
         """
         if livetime <= 0.:
             raise ValueError("Livetime should be positive and non zero")
-        return counts/livetime
+        return counts/float(livetime)
 
     def counts_to_eff_mass(self, counts, n_atoms=None, livetime=5.):
         """ Converts from signal counts to effective majorana mass.
-- 
2.43.0


From f76c56bb140f5a8656f12554cb9ca1a0e8e18445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 043/114] fix: DBIsotope does not replace a loading or radius
 of zero by the default

---
 echidna/calc/decay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index b9cfa01..7ffa497 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,14 +62,14 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
-- 
2.43.0


From 87ebe1a8fcf77bc5ed13b16ee64361acc7f660aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 044/114] fix: get_array_errors keeps the shape of its array

---
 echidna/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..42b973e 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -66,8 +66,7 @@ def get_array_errors(array, lin_err=0.01, frac_err=None,
             error = numpy.power(10., error)
         errors[index] = error
     errors = errors - array
-    errors.reshape(shape)
-    return errors
+    return errors.reshape(shape)
 
 
 class DispatchingFormatter:
-- 
2.43.0


From 6f27dc33c1847792339dac01695e827f16b507d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 045/114] fix: the bipo cut keeps the last event of an ntuple

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..6924bf1 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # No entry after the last event
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From 4bc3d5ebb6bcead796b7d627c4ed62f6d06c40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:39 +0000
Subject: [PATCH 046/114] fix: the extractors call GetEVCount and
 GetMCParticleCount

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From 3a12525bccec37daab2c4b8472832ba482a80af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 047/114] fix: the zradial3 extractors can be constructed

---
 echidna/core/dsextract.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..577ff9f 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1090,12 +1090,21 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _reco_pos (bool): If true then position cuts will be made on
       reconstructed position. If False then MC position is used for cuts.
+
+    Raises:
+      ValueError: If external is True. Cant have MC Positions info for
+        externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         if outer_radius:
             self._outer_radius = outer_radius
         else:
@@ -1246,12 +1255,22 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _mc_pos (bool): If true then MC position is used for cuts.
         If False then position cuts will be made on reconstructed position.
+
+    Raises:
+      ValueError: If external and mc_pos is True. Cant have MC Positions info
+        for externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         if outer_radius:
             self._outer_radius = outer_radius
         else:
-- 
2.43.0


From a7f2b9c65d653229a6cf5dbec65d2d34ec9fa6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 048/114] fix: reconstructed zradial3 from root files carries
 the sign of z

---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 577ff9f..df65705 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1351,9 +1351,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From 32879e0c0692c52899759ffe69a95c20fffb7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 049/114] fix: reconstructed radii from root files need a valid
 position

---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index df65705..02fec9e 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1023,8 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1333,8 +1333,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 3b81d2be882d19924dd52be1d88bb844937110f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 050/114] fix: Limit.get_limit uses a supplied min_stat of
 zero, or per bin

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..e8b7808 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 525219f88c9cd5e12ce4f2916f03d96d21897006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 051/114] fix: per-bin statistics have their minimum at a
 signal scale

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index e8b7808..c3419d8 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -182,7 +182,7 @@ class Limit(object):
         stats -= min_stat
 
         # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
+        min_bin = numpy.argmin([numpy.sum(stat) for stat in stats])
 
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
-- 
2.43.0


From a60de8f332d12104cb2ec2f356a344c817c973c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 052/114] fix: the limit summary describes the scale of the
 limit

---
 echidna/limit/limit.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index c3419d8..3713ffe 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -190,20 +190,18 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            scale_limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
-            log_text += "Signal Decays: %.4g\n" % limit
+            log_text += "Signal Decays: %.4g\n" % scale_limit
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
                 log_text += ("Best fit: %4g\n" %
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
-                log_text += ("Prior: %.4g\n" %
-                             cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
-                             cur_par.get_sigma())
+                log_text += ("Prior: %s\n" % cur_par.get_prior())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
@@ -247,23 +245,24 @@ class Limit(object):
                 store.dump(path + fname, self._signal, append=True,
                            group_name="signal")
 
-            return limit
+            return scale_limit
 
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(
+                [numpy.max(stat) for stat in stats[min_bin:]])
+            scale_limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += "Signal Decays (at max stat): %.4g\n" % scale_limit
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
                 log_text += ("Best fit: %4g\n" %
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
-                log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Prior: %s\n" % cur_par.get_prior())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From fa5d48afbfea9957f2235dd27cac3aa08941a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:30 +0000
Subject: [PATCH 053/114] fix: Limit.get_limit can store the spectra

---
 echidna/limit/limit.py | 48 ++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 3713ffe..ba71349 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -226,24 +226,7 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    limit_fname))
             if store_spectra:
-                path = output.__default_save_path__ + "/"
-                fname = self._fitter.get_data()._name + "_data.hdf5"
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    fname = (self._fitter.get_fixed_background()._name +
-                             "_fixed.hdf5")
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        fname = background._name + "_float.hdf5"
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                fname = self._signal._name + "_signal.hdf5"
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._store_spectra()
 
             return scale_limit
 
@@ -282,22 +265,27 @@ class Limit(object):
                                   (self._limit_results.get_name(),
                                    path + fname))
             if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                self._store_spectra()
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
 
+    def _store_spectra(self):
+        """ Save the spectra used for fitting, each to its own hdf5 file.
+        """
+        path = output.__default_save_path__ + "/"
+        spectra = [(self._fitter.get_data(), "_data.hdf5"),
+                   (self._signal, "_signal.hdf5")]
+        if self._fitter.get_fixed_background():
+            spectra.append((self._fitter.get_fixed_background(),
+                            "_fixed.hdf5"))
+        if self._fitter.get_floating_backgrounds():
+            for background in self._fitter.get_floating_backgrounds():
+                spectra.append((background, "_float.hdf5"))
+        for spectrum, suffix in spectra:
+            store.dump(path + spectrum._name + suffix, spectrum,
+                       append=True, overwrite=True)
+
     def get_statistics(self):
         """ Get the test statistics for all signal scalings.
 
-- 
2.43.0


From 54e914ede7e670826f3faa715681473a6417eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:30 +0000
Subject: [PATCH 054/114] fix: without a limit the results go to the requested
 file too

---
 echidna/limit/limit.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index ba71349..e7838eb 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -255,15 +255,20 @@ class Limit(object):
             logging.getLogger("extra").info("\n%s" % log_text)
 
             if store_limit:
-                timestamp = datetime.datetime.now().strftime(
-                    "%Y-%m-%d_%H-%M-%S")
-                path = output.__default_save_path__ + "/"
-                fname = (self._limit_results.get_name() + "_" + timestamp +
-                         ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
+                if limit_fname:
+                    if limit_fname[-5:] != '.hdf5':
+                        limit_fname += '.hdf5'
+                else:
+                    timestamp = datetime.datetime.now().strftime(
+                        "%Y-%m-%d_%H-%M-%S")
+                    path = output.__default_save_path__ + "/"
+                    fname = (self._limit_results.get_name() + "_" + timestamp +
+                             ".hdf5")
+                    limit_fname = path + fname
+                store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
-                                   path + fname))
+                                   limit_fname))
             if store_spectra:
                 self._store_spectra()
             self._logger.error("Recieived: IndexError: %s" % detail)
-- 
2.43.0


From 2d0b6b4253bd5400aede9e7a255716a53946bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 055/114] fix: RadialSmear.random_smear counts whole entries

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e8951ea..ccf2879 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -792,7 +792,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From 3706e0359c896505278f051f32767b36fa66ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 056/114] Revert "fix: test statistics leave the arrays they
 are given unchanged"

This reverts commit 0d981b03750d0665ecf66626a8175ccf7a99e111.
---
 echidna/fit/test_statistic.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 278ee5f..0c081e3 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -372,8 +372,6 @@ class BakerCousinsLL(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         total = 0
         for i in range(len(observed)):
@@ -400,8 +398,6 @@ class BakerCousinsLL(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated log-likelihood for each bin
         """
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for i in range(len(observed)):
@@ -468,8 +464,6 @@ class Neyman(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         total = 0
@@ -496,8 +490,6 @@ class Neyman(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated chi squared for each bin
         """
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         stats = []
@@ -567,8 +559,6 @@ class Pearson(TestStatistic):
             observed = numpy.array([observed])
         if isinstance(expected, float):
             expected = numpy.array([expected])
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # Limit of zero
         total = 0
@@ -595,8 +585,6 @@ class Pearson(TestStatistic):
         Returns:
           :class:`numpy.array`: Calculated chi squared for each bin
         """
-        observed = observed.astype('float')
-        expected = expected.astype('float')
         # Chosen due to backgrounds with low rates in ROI
         epsilon = 1e-34  # In the limit of zero
         stats = []
-- 
2.43.0


From 8b3bba9a8243227bdadf3fa3fd31f57358875df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 057/114] Revert "fix: BakerCousinsChiUp per bin skips the bins
 its sum skips"

This reverts commit f5e2d3bf4282b1da52bf0ee57d910b216453378a.
---
 echidna/fit/test_statistic.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/echidna/fit/test_statistic.py b/echidna/fit/test_statistic.py
index 0c081e3..ba10c5c 100644
--- a/echidna/fit/test_statistic.py
+++ b/echidna/fit/test_statistic.py
@@ -302,9 +302,6 @@ class BakerCousinsChiUp(TestStatistic):
         epsilon = 1e-34  # In the limit of zero
         stats = []
         for exp, obs in zip(expected, observed):
-            if obs > exp:  # as in _compute
-                stats.append(0.)
-                continue
             if exp < epsilon:
                 exp = epsilon
             if obs < epsilon:
-- 
2.43.0


From aba1d8a534a9992f3a0be0ca3c42acc162997fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 058/114] fix: light yields and energies of EnergySmearLY may
 be integers

---
 echidna/core/smear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index ccf2879..175aa78 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -170,7 +170,7 @@ class EnergySmearLY(Smear):
             raise ValueError("New light yield must be smaller than the"
                              "current light yield. cur_ly: %s. new_ly: %s."
                              % (cur_ly, new_ly))
-        return new_ly*cur_ly/(cur_ly-new_ly)
+        return new_ly*cur_ly/float(cur_ly-new_ly)
 
     def get_resolution(self):
         """ Returns the light yield.
@@ -189,7 +189,7 @@ class EnergySmearLY(Smear):
         Returns:
           float: Sigma equivalent to sqrt(energy/_light_yield)
         """
-        return numpy.sqrt(energy/self._light_yield)
+        return numpy.sqrt(energy/float(self._light_yield))
 
     def set_resolution(self, light_yield):
         """ Sets the light yield
-- 
2.43.0


From 13797bcc0a731934856d99be9459737c2885fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 059/114] fix: EnergySmearLY.set_resolution reports the invalid
 light yield

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 175aa78..e6ea21a 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -204,7 +204,7 @@ class EnergySmearLY(Smear):
             self._light_yield = float(light_yield)
         else:
             raise ValueError("%s is an invalid light yield. Light yield "
-                             "must be greater than zero.")
+                             "must be greater than zero." % light_yield)
 
     def weighted_smear(self, spectrum, par="energy_mc"):
         """ Smears the energy of a :class:`spectra.Spectra` by
-- 
2.43.0


From 2b88fd08ecf7ce1c9fd2eb40f0ffb026de6e6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 060/114] fix: GlobalFitConfig.load gives the config the
 requested name

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 9a5bff6..29e652a 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -441,23 +441,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From 268a3341f60b98122038245ddfd02988621ba56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 061/114] fix: configs with the results of a fit can be dumped
 to yaml

---
 echidna/core/parameter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 5ef1c0e..b3d25ca 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -636,6 +636,10 @@ class FitParameter(Parameter):
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
         parameter_dict["penalty_term"] = self._penalty_term
+        # The results of a fit are numpy types, which can't be saved to yaml
+        for key, value in parameter_dict.items():
+            if isinstance(value, numpy.generic):
+                parameter_dict[key] = value.item()
         return parameter_dict
 
 
-- 
2.43.0


From 57d7fbb954b1f879b57d795beade916345a608bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 062/114] fix: a fit survives a rate of zero

RateParameter.apply_to scales in place, so after a grid value of zero the
spectrum was lost and every later test statistic nan.
---
 echidna/fit/fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 6ebe266..7e9050c 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -510,6 +510,10 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
+            # Work on a copy, further fit values start from this spectrum
+            spectrum = copy.copy(spectrum)
+            spectrum._config = spectrum._config.copy()
+
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
-- 
2.43.0


From 4ab72a0110410b181f30f116766dcbb93283f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 063/114] fix: Fit.set_pre_made_dir sets the directory that is
 used

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 7e9050c..d3bcaed 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -840,7 +840,7 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From 7c78004a18586e5825f08bd1f2d84a3fa72e08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 064/114] fix: directories of pre-made spectra without a
 trailing separator

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index d3bcaed..19fcb39 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -609,7 +609,8 @@ class Fit(object):
         if self._pre_made_base_dir:
             directory = self._pre_made_base_dir
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.dirname(spectrum._location)
+        directory = os.path.join(directory, "")  # ends with separator
 
         # Add current value of each global parameter
         for par in global_pars:
-- 
2.43.0


From 56cb7f17fca5e1c7bd7fbc5ef35a1f378e4adceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 065/114] fix: per-bin fits with backgrounds binned finer than
 the data

The grid took the binning of the first background, while the statistics
are those of the bins of the data.
---
 echidna/fit/fit.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 19fcb39..5738655 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -763,28 +763,12 @@ class Fit(object):
             self._logger.debug("Setting %s as minimiser" %
                                minimiser.get_name())
         else:  # Use default GridSearch
-            if self._per_bin:
-                if self._floating_backgrounds:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._floating_backgrounds[0].
-                        get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-                else:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._data.get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-            else:
-                self._minimiser = GridSearch(
-                    fit_config=self._fit_config,
-                    spectra_config=self._data.get_config(),
-                    name=self._fit_config.get_name(),
-                    per_bin=self._per_bin)
+            # For per_bin this assumes fitting over all dimensions
+            self._minimiser = GridSearch(
+                fit_config=self._fit_config,
+                spectra_config=self._data.get_config(),
+                name=self._fit_config.get_name(),
+                per_bin=self._per_bin)
             self._logger.debug("Created GridSearch (%s) to use as minimiser" %
                                self._minimiser.get_name())
 
-- 
2.43.0


From 7f8c10c475b39666ea02aa863b71b4de33ffea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 066/114] fix: results of fits without parameters can be stored

hdf5 does not compress scalar datasets, such as the grid of a fit with
fixed backgrounds only.
---
 echidna/output/store.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index a17d333..59d0c89 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -147,6 +147,22 @@ def dump_ndarray(file_path, ndarray_object):
     _logger.info("Saved %s to %s" % (str(ndarray_object), file_path))
 
 
+def _compression(array):
+    """ Internal method. Compression to store an array with, datasets of
+    scalars (e.g. the grid of a fit without parameters) cannot be
+    compressed.
+
+    Args:
+      array (:class:`numpy.ndarray`): Array to store.
+
+    Returns:
+      string: Name of the compression, or None.
+    """
+    if numpy.ndim(array) == 0:
+        return None
+    return "gzip"
+
+
 def dump_fit_results(file_path, fit_results, append=False):
     """ Dump the fit results to the specified file_path.
 
@@ -173,9 +189,10 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
-                             compression="gzip")
+                             compression=_compression(
+                                 fit_results._penalty_terms))
         group.create_dataset("stats", data=fit_results._stats,
-                             compression="gzip")
+                             compression=_compression(fit_results._stats))
         group.attrs["resets"] = fit_results._resets
 
     _logger.info("Saved fit results %s to %s" %
@@ -230,9 +247,11 @@ def dump_limit_results(file_path, limit_results, append=False):
                     sub_group.attrs["exists"] = 1.
                     sub_group.create_dataset("penalty_terms",
                                              data=fit_result._penalty_terms,
-                                             compression="gzip")
+                                             compression=_compression(
+                                                 fit_result._penalty_terms))
                     sub_group.create_dataset("stats", data=fit_result._stats,
-                                             compression="gzip")
+                                             compression=_compression(
+                                                 fit_result._stats))
                     sub_group.attrs["resets"] = fit_result._resets
                 else:
                     sub_group.attrs["exists"] = 0.
@@ -399,7 +418,7 @@ def load_fit_results(file_path):
                                        object_pairs_hook=OrderedDict)[1],
             name=fit_config_name)
 
-        stats = group["stats"].value
+        stats = numpy.array(group["stats"].value)
         if stats.shape == fit_config.get_shape():
             per_bin = False
         elif stats.shape == fit_config.get_shape() + \
@@ -412,7 +431,8 @@ def load_fit_results(file_path):
                                  spectra_config=spectra_config, name=name,
                                  per_bin=per_bin)
         fit_results.set_stats(stats)
-        fit_results.set_penalty_terms(group["penalty_terms"].value)
+        fit_results.set_penalty_terms(
+            numpy.array(group["penalty_terms"].value))
         fit_results._resets = group.attrs["resets"]
 
     _logger.info("Loaded FitResults %s" % fit_results.get_name())
@@ -472,7 +492,7 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
-                    stats = sub_group["stats"].value
+                    stats = numpy.array(sub_group["stats"].value)
                     per_bin = (stats.shape != fit_config.get_shape())
                     fit_results = GridSearch(fit_config=fit_config,
                                              spectra_config=spectra_config,
@@ -480,8 +500,8 @@ def load_limit_results(file_path):
                                              per_bin=per_bin)
                     fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
-                    fit_results._penalty_terms = sub_group[
-                        "penalty_terms"].value
+                    fit_results._penalty_terms = numpy.array(
+                        sub_group["penalty_terms"].value)
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
-- 
2.43.0


From c27cc7968fb1d9694a8678ee77dc3f18a1fbaacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 067/114] fix: dump_scaled saves spectra from the current
 directory there

---
 echidna/scripts/dump_scaled.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..0a5a505 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,9 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.dirname(args.file)
+        if directory:
+            directory += "/"
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
-- 
2.43.0


From b5427e4c12fac843aa69d55a5990792884c5729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 068/114] fix: dump_shrink saves spectra from the current
 directory there

---
 echidna/scripts/dump_shrink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..9cff55e 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -75,7 +75,7 @@ def main(args):
     if not f_out:
         directory = os.path.dirname(args.input)
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = os.path.join(directory, filename + "_shrunk.hdf5")
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From ed9cc958c17079e33d561f08ba85b8b96df31867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 069/114] fix: dump_spectra_root calls config.get_pars

---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..6b5a0a4 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 4ea47087bc955d95a0daee8e53209056a0dc8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 070/114] fix: dump_spectra_root accepts text files of paths

---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index 6b5a0a4..d0710fc 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -84,7 +84,7 @@ def read_tab_delim_file(fname):
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
         for path in reader:
-            file_paths.append(path)
+            file_paths.extend(path)
     return file_paths
 
 
-- 
2.43.0


From 431cfc1720a279be491c95f1f09f845cb4b1daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 071/114] fix: multi_ntuple_spectrum saves to the directory it
 is given

---
 echidna/scripts/multi_ntuple_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..f27dd31 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -75,7 +75,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump("%s/%s.hdf5" % (save_path, bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
-- 
2.43.0


From 44184ece82afe850015899e79b3723a40a767727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 072/114] fix: multi_ntuple_spectrum names spectra after their
 directory

---
 echidna/scripts/multi_ntuple_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index f27dd31..d59db58 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -121,7 +121,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(data_path.rstrip('/'))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From 1fefac9b70569175b09367644ac136302483a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 073/114] fix: plot axes have one value per bin

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..390b52d 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -20,7 +20,7 @@ def _produce_axis(spectra, dimension):
     """
     par = spectra.get_config().get_par(dimension)
     width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    return par._low + (numpy.arange(par._bins) + 0.5)*width
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From eff1b2089d7e594e0f95a33db3a94be0ea263938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 074/114] fix: spectral_plot compares the type of spectra by
 value

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index 390b52d..c50609e 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -180,7 +180,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
-- 
2.43.0


From e6dda5aa4164327bd19ded236e7cac59492c04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 075/114] fix: plot_root.plot_surface draws each dimension on
 its axis

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..53076e8 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if spectra.get_config().get_index(dimension1) > \
+            spectra.get_config().get_index(dimension2):
+        data = data.T  # surface keeps the order of the spectrum's dimensions
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From 78a4a4ddfa9ea6f0f8b67627fc5729b4f49cee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 076/114] fix: plotting sigmas of best fits leaves the limit
 results unchanged

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 53076e8..e7860a6 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -428,8 +428,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From 219f8134f60236c3cb049973086ecd36642a87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 077/114] fix: plot_per_bin draws each dimension on its axis

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index e7860a6..973cd97 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -473,7 +473,7 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From 1458c70667c9400d202a11c5f99f6fdbb4762976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 078/114] fix: klz_majoron_limits calls Limit.get_limit with
 its arguments

---
 echidna/scripts/klz_majoron_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index 5a6f7bb..a80fdd3 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -351,7 +351,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
         # Create limit setter
         limit_setter = limit.Limit(signal, fitter, per_bin=per_bin)
 
-        limit_scaling = limit_setter.get_limit(store_summary=store_summary)
+        limit_scaling = limit_setter.get_limit(store_limit=store_summary)
         signal.scale(limit_scaling)
         half_life = converter.counts_to_half_life(
             limit_scaling,
-- 
2.43.0


From d4b6418a05e935470709f32cf5d90e93f3bb0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 079/114] fix: dump of a spectrum without background name
 leaves files alone

---
 echidna/output/store.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 59d0c89..cbaee86 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -86,6 +86,7 @@ def dump(file_path, spectrum, append=False, overwrite=False):
       spectrum (:class:`spectra.Spectra`): The spectrum to save
     """
     group_name = "spectrum"
+    background_name = spectrum.get_background_name()
     if append:
         file_opt = "a"
     else:
@@ -96,7 +97,7 @@ def dump(file_path, spectrum, append=False, overwrite=False):
             del file_[group_name]
         group = file_.create_group(group_name)
         group.attrs["name"] = spectrum.get_name()
-        group.attrs["background_name"] = spectrum.get_background_name()
+        group.attrs["background_name"] = background_name
         group.attrs["config_name"] = spectrum.get_config().get_name()
         group.attrs["config"] = json.dumps(spectrum.get_config().dump())
         if spectrum.get_fit_config():
-- 
2.43.0


From 2f8ee7e1c0643bae6ace55b5593a8e08d6b7a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 080/114] fix: dump_spectra_root sets the background name
 required to save

---
 echidna/scripts/dump_spectra_root.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index d0710fc..6a4342b 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -52,6 +52,10 @@ def read_and_dump_root(fname, config_path, spectrum_name, save_path, bipo,
             fname, spectrum_name="%s" % (spectrum_name), config=config,
             bipo=bipo, fv_radius=fv_radius)
 
+    try:
+        spectrum.get_background_name()
+    except ValueError:  # not part of the spectrum name
+        spectrum.set_background_name(spectrum_name)
     # Plot
     plot_spectrum(spectrum, config)
     # Dump to file
-- 
2.43.0


From d4edc6769822f1349beb4d7774a55af247f8b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 081/114] fix: multi_ntuple_spectrum sets the background name
 required to save

---
 echidna/scripts/multi_ntuple_spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index d59db58..e1cb511 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -72,6 +72,10 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
             else:
                 spec = fill_spectrum.fill_from_ntuple(
                     file_path, spectrum=spec, bipo=bipo, fv_radius=fv_radius)
+    try:
+        spec.get_background_name()
+    except ValueError:  # not part of the spectrum name
+        spec.set_background_name(bkgnd_name)
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-- 
2.43.0


From 02592273782a75b497d6cbc3b7b292a30bfa8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 082/114] fix: dump_spectra_ntuple reads every path of a text
 file

---
 echidna/scripts/dump_spectra_ntuple.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..54da55f 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -89,7 +89,7 @@ def read_tab_delim_file(fname):
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
         for path in reader:
-            file_paths.append(path)
+            file_paths.extend(path)
     return file_paths
 
 
@@ -116,8 +116,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
-- 
2.43.0


From 081265cf84e1e740670265e93c930fa45fa25e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 083/114] fix: log files go to the log directory without a
 trailing separator

---
 echidna/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index 42b973e..b27685d 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -163,7 +163,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
     logging.basicConfig(
         level=logging.DEBUG,  # Include all logging levels in file
         format=FORMAT,
-        filename=path+filename,
+        filename=os.path.join(path, filename),
         filemode='w')
 
     # Define Handler which writes INFO messages or higher to the sys.stdout
@@ -201,7 +201,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
 
     # Start logging
     logging.info("echidna-v%s" % echidna.__version__)
-    logging.info("Saving logfile to %s" % path + filename)
+    logging.info("Saving logfile to %s" % os.path.join(path, filename))
     logging.info("Starting script: %s.py" % current_module)
     logging.getLogger("extra").info("Use the 'extra' logger at any time "
                                     "to add extra information.")
-- 
2.43.0


From 4445ae19617b3a19e0aa7ed5effd89471df54fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 084/114] fix: plot_root.spectral_plot draws histograms of the
 projections

---
 echidna/output/plot_root.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 973cd97..fb73876 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -135,24 +135,23 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
@@ -168,11 +167,12 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
@@ -183,7 +183,8 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
     leg.Draw("same")
-- 
2.43.0


From 10e371c43d411c713d87316f0e48c706678a28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 085/114] fix: plot_root.spectral_plot compares the dimension
 that is plotted

---
 echidna/output/plot_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index fb73876..acd613b 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -156,8 +156,8 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            par = spectra.get_config().get_par(dimension+"_"+dim_type)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy lower limit")
-- 
2.43.0


From e6e6d9f6e43ff76844008ff64409ed91a43a2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 086/114] fix: plot_root.spectral_plot draws the limit

---
 echidna/output/plot_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index acd613b..7f330d8 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -187,6 +187,7 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
         hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
+        hist.Draw("same")
     leg.Draw("same")
     return can
 
-- 
2.43.0


From edacd8ca818cdf3b4511bb87f4fb3ad45a21aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 087/114] fix: plot_surface shows the last bin of both
 dimensions

---
 echidna/output/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index c50609e..343dbda 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -252,12 +252,13 @@ def plot_surface(spectra, dimension1, dimension2,
     axis = fig.add_subplot(111)
     index1 = spectra.get_config().get_index(dimension1)
     index2 = spectra.get_config().get_index(dimension2)
+    # Bin boundaries, pcolormesh drops the last bins when given bin centres
     if index1 < index2:
-        x = _produce_axis(spectra, dimension2)
-        y = _produce_axis(spectra, dimension1)
+        x = _produce_bins(spectra, dimension2)
+        y = _produce_bins(spectra, dimension1)
     else:
-        x = _produce_axis(spectra, dimension1)
-        y = _produce_axis(spectra, dimension2)
+        x = _produce_bins(spectra, dimension1)
+        y = _produce_bins(spectra, dimension2)
     data = spectra.surface(dimension1, dimension2)
     par1 = spectra.get_config().get_par(dimension1)
     par2 = spectra.get_config().get_par(dimension2)
-- 
2.43.0


From ff079e91dc7a40ab991a7424d40902939178fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 088/114] fix: klz_majoron_limits uses the per_bin flag of the
 fit for its statistic

---
 echidna/scripts/klz_majoron_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index a80fdd3..13bdde6 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -167,7 +167,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
 
     # Set test_statistic
     # This is fixed
-    chi_squared = test_statistic.BakerCousinsChi(per_bin=True)
+    chi_squared = test_statistic.BakerCousinsChi(per_bin=per_bin)
     logger.info("Using test statisitc: BakerCousinsChi")
 
     # Set fit_config
-- 
2.43.0


From f4532ec32674e18d2a2e13cf0e1153aded377dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 089/114] fix: klz_majoron_limits creates the limit setter with
 its arguments

---
 echidna/scripts/klz_majoron_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index 13bdde6..c21c8d9 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -349,7 +349,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
         klz_limit = klz_limits.get(signal._name)
 
         # Create limit setter
-        limit_setter = limit.Limit(signal, fitter, per_bin=per_bin)
+        limit_setter = limit.Limit(signal, fitter)
 
         limit_scaling = limit_setter.get_limit(store_limit=store_summary)
         signal.scale(limit_scaling)
-- 
2.43.0


From 1a034b32510a088e30172d2686e7ce12361a4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 090/114] fix: klz_majoron_limits gets the fit results from the
 minimiser

---
 echidna/scripts/klz_majoron_limits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index c21c8d9..7b34019 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -284,7 +284,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
 
     # Fit with no signal
     stat_zero = fitter.fit()
-    fit_results = fitter.get_fit_results()
+    fit_results = fitter.get_minimiser()
     logger.info("Calculated stat_zero: %.4f" % numpy.sum(stat_zero))
     logger.info("Fit summary:")
     logging.getLogger("extra").info("\n%s\n" %
@@ -334,7 +334,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
     # Loop through signals and set limit for each
     for signal in signals:
         # Reset GridSearch - with added signal rate parameter
-        fitter.get_fit_results().reset_grids()
+        fitter.get_minimiser().reset_grids()
 
         # Create converter
         converter = decay.DBIsotope(
-- 
2.43.0


From af151ccf754fae75bdb1a8558c1d0b946e30eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 091/114] fix: klz_majoron_limits --sensitivity without
 floating backgrounds

---
 echidna/scripts/klz_majoron_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index 7b34019..d4ff630 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -275,7 +275,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
         # Add fixed background
         data.add(fitter.get_fixed_background())
         # Add floating backgrounds - scaled to prior
-        for background in fitter.get_floating_backgrounds():
+        for background in fitter.get_floating_backgrounds() or []:
             prior = background.get_fit_config().get_par("rate").get_prior()
             background.scale(prior)
             data.add(background)
-- 
2.43.0


From 0b2941a56c08560ed6d242611ae9e742d2b1e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 092/114] fix: klz_majoron_limits per_bin without floating
 backgrounds

With nothing to float, Fit.fit returns the array of test statistics
together with the penalty term, which cannot be summed as they are.
---
 echidna/scripts/klz_majoron_limits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index d4ff630..c6ee290 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -284,6 +284,8 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
 
     # Fit with no signal
     stat_zero = fitter.fit()
+    if type(stat_zero) is tuple:  # test statistic and penalty term
+        stat_zero = numpy.sum(stat_zero[0]) + stat_zero[1]
     fit_results = fitter.get_minimiser()
     logger.info("Calculated stat_zero: %.4f" % numpy.sum(stat_zero))
     logger.info("Fit summary:")
-- 
2.43.0


From ac68accd281adff3fbd768fbde7bed868ce398cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 093/114] fix: spectra made with the same config are
 independent

Shrinking, cutting or re-binning a spectrum updates its config. Spectra
created with one config object shared it, so the reported binning of the
others no longer matched their data.
---
 echidna/core/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 11b2469..96bdd37 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -44,7 +44,8 @@ class Spectra(object):
                  background_name=None):
         """ Initialise the spectra data container.
         """
-        self._config = spectra_config
+        # Cutting or re-binning this spectrum changes its own config only
+        self._config = spectra_config.copy()
         self._raw_events = 0
         bins = []
         for v in self._config.get_pars():
-- 
2.43.0


From 853243a9e2e34b42c3ccd31e00608b06c075f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 094/114] fix: rebin refuses numbers of bins below one before
 changing anything

A negative number passed the check and failed in the reshape, after the
bins in the config had already been replaced.
---
 echidna/core/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 96bdd37..b1429d4 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -368,7 +368,8 @@ class Spectra(object):
                              % len(self._config.get_pars()))
         # Now do the rebinning
         for i, v in enumerate(self._config.get_pars()):
-            if self._config.get_par(v)._bins % new_bins[i] != 0:
+            if new_bins[i] < 1 or \
+                    self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
-- 
2.43.0


From eb48bb98fadd66d3b52355c602246778ac1228eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 095/114] fix: Spectra.shrink keeps to the axis for bounds just
 outside it

---
 echidna/core/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index b1429d4..e2ca15e 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -466,7 +466,10 @@ class Spectra(object):
                 raise IndexError("%s is not a parameter in the config" % par)
             if high_low == "low":
                 if numpy.allclose(kwargs[arg], self._config.get_par(par)._low):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = max(kwargs[arg],
+                                      self._config.get_par(par)._low)
+                    continue
                 if kwargs[arg] < self._config.get_par(par)._low:
                     raise ValueError("%s is below existing bound for %s (%s)"
                                      % (kwargs[arg], par,
@@ -474,7 +477,10 @@ class Spectra(object):
             elif high_low == "high":
                 if numpy.allclose(kwargs[arg],
                                   self._config.get_par(par)._high):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = min(kwargs[arg],
+                                      self._config.get_par(par)._high)
+                    continue
                 if kwargs[arg] > self._config.get_par(par)._high:
                     raise ValueError("%s is above existing bound for %s (%s)"
                                      % (kwargs[arg], par,
-- 
2.43.0


From 7fd63501efb037a6453adbcba4b0b29580acc87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 096/114] fix: Spectra.shrink refuses bounds with no bins
 between them

---
 echidna/core/spectra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index e2ca15e..77f1896 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -491,6 +491,7 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_pars = []
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -540,6 +541,12 @@ class Spectra(object):
             slices_high.append(high_bin)
             slices_low.append(low_bin)
             new_bins = high_bin - low_bin
+            if new_bins < 1:
+                raise ValueError("No bins of %s between %s and %s"
+                                 % (par_name, kwargs[kw_low],
+                                    kwargs[kw_high]))
+            new_pars.append((par, new_low, new_high, new_bins))
+        for par, new_low, new_high, new_bins in new_pars:
             par.set_par(low=new_low, high=new_high, bins=new_bins)
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
-- 
2.43.0


From f9202205938157daaf3caa9998dfff73b9e7f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 097/114] fix: Fit does not use spectra convolved for earlier
 inputs

---
 echidna/fit/fit.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 5738655..351e584 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -81,6 +81,7 @@ class Fit(object):
                  use_pre_made=False, pre_made_base_dir=None, single_bin=False):
         self._logger = logging.getLogger("Fit")
         self._checked = False
+        self._global_dict = {}  # Convolved spectra, by original spectrum
         self.set_roi(roi)
 
         self.set_test_statistic(test_statistic)
@@ -116,8 +117,6 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
@@ -495,10 +494,8 @@ class Fit(object):
                                            self._floating_pars):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                convolved = self._global_dict.setdefault(spectrum, {})
+                if cur_val not in convolved:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -506,9 +503,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    convolved[cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = convolved[cur_val]
 
             # Work on a copy, further fit values start from this spectrum
             spectrum = copy.copy(spectrum)
@@ -535,10 +532,8 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                convolved = self._global_dict.setdefault(self._signal, {})
+                if cur_val not in convolved:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -548,9 +543,11 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    convolved[cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = convolved[cur_val]
+                signal = copy.copy(signal)
+                signal._config = signal._config.copy()
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
@@ -702,6 +699,7 @@ class Fit(object):
         """
         if isinstance(fit_config, GlobalFitConfig):
             self._fit_config = fit_config
+            self._global_dict = {}  # Convolve with the new parameters
         else:
             raise TypeError("fit_config type (%s) is invalid" %
                             type(fit_config))
@@ -746,6 +744,7 @@ class Fit(object):
             floating_pars.append(self.get_roi_pars(background))
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
+        self._global_dict = {}  # Convolve the new backgrounds
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
@@ -793,6 +792,7 @@ class Fit(object):
         """
         self.check_roi(roi)
         self._roi = roi
+        self._global_dict = {}  # Convolve the spectra in the new roi
         self._logger.debug("Set _roi as %s" % str(roi))
         self._checked = False  # Must redo checks for a new roi
 
@@ -826,6 +826,7 @@ class Fit(object):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
         self._pre_made_base_dir = directory
+        self._global_dict = {}  # Load from the new directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From e6cf7310df0dcf1431c72e0b4e0e69bb76072719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 098/114] fix: get_pre_convolved only replaces values in file
 names

---
 echidna/core/parameter.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index b3d25ca..2e7bcfa 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -11,6 +11,27 @@ import warnings
 from echidna.core import scale, shift, smear
 
 
+def _is_value(segment, ext):
+    """ Internal method. Checks whether a segment of a file name is a
+    value followed by the given extension, and not a name that happens to
+    end in the same letters.
+
+    Args:
+      segment (string): Segment of a file name.
+      ext (string): Extension that labels the value.
+
+    Returns:
+      bool: True if the segment is a labelled value.
+    """
+    if not segment.endswith(ext):
+        return False
+    try:
+        float(segment[:-len(ext)])
+    except ValueError:
+        return False
+    return True
+
+
 class Parameter(object):
     """ The base class for creating parameter classes.
 
@@ -802,10 +823,10 @@ class ResolutionParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == ext:
+            if _is_value(x, ext):
                 x = value_string + ext
                 subbed = True
-            elif x[-7:] == ext + ".hdf5":
+            elif _is_value(x, ext + ".hdf5"):
                 x = value_string + ext + ".hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -917,10 +938,10 @@ class ScaleParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sc":
+            if _is_value(x, "sc"):
                 x = value_string + "sc"
                 subbed = True
-            elif x[-7:] == "sc.hdf5":
+            elif _is_value(x, "sc.hdf5"):
                 x = value_string + "sc.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -1032,10 +1053,10 @@ class ShiftParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sh":
+            if _is_value(x, "sh"):
                 x = value_string + "sh"
                 subbed = True
-            elif x[-7:] == "sh.hdf5":
+            elif _is_value(x, "sh.hdf5"):
                 x = value_string + "sh.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
-- 
2.43.0


From d9acd6210602787b160d3fa1ed2608abf0992635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 099/114] fix: load_pre_made recognises whole directory names

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 351e584..4a961dc 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -613,7 +613,7 @@ class Fit(object):
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            if dim not in directory.split('/'):
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From 4c16e3eb5ca353cb56451da656a33d96700e78b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 100/114] fix: SpectraParameter.get_bin gives existing bins up
 to the upper bound

---
 echidna/core/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2e7bcfa..36760b9 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1104,7 +1104,9 @@ class SpectraParameter(Parameter):
         if x > self._high:
             raise ValueError("%s is above parameter upper bound %s"
                              % (x, self._high))
-        return int((x - self._low) / self.get_width())
+        # The upper bound (or a value just below it, which can be rounded up)
+        # belongs to the last bin
+        return min(int((x - self._low) / self.get_width()), self._bins - 1)
 
     def get_bin_boundaries(self):
         """ Returns the bin boundaries for the parameter
-- 
2.43.0


From 8a6f6da49f8d40e56915d089674b65cd8bb1b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 101/114] fix: Fit matches the dimensions of spectra listed in
 another order

---
 echidna/fit/fit.py | 59 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 4a961dc..8b38d27 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -431,9 +431,11 @@ class Fit(object):
 
         if not self._floating_backgrounds:  # Use fixed only
             observed = self._data.nd_project(self._data_pars)
-            expected = self._fixed_background.nd_project(self._fixed_pars)
+            expected = self.project_like_data(self._fixed_background,
+                                              self._fixed_pars)
             if self._signal:
-                expected += self._signal.nd_project(self._signal_pars)
+                expected += self.project_like_data(self._signal,
+                                                   self._signal_pars)
             if self._single_bin:
                 expected = numpy.sum(expected)
                 observed = numpy.sum(observed)
@@ -483,7 +485,8 @@ class Fit(object):
         # Loop over all floating backgrounds
         observed = self._data.nd_project(self._data_pars)
         if self._fixed_background:
-            expected = self._fixed_background.nd_project(self._fixed_pars)
+            expected = self.project_like_data(self._fixed_background,
+                                              self._fixed_pars)
         else:
             expected = None
         global_pars = self._fit_config.get_global_pars()
@@ -521,12 +524,12 @@ class Fit(object):
             # Shrink to roi
             self.shrink_to_data(spectrum)
             # rebin
-            spectrum.rebin(self._data._data.shape)
+            self.rebin_to_data(spectrum)
             # and then add projection to expected spectrum
             if expected is not None:
-                expected += spectrum.nd_project(floating_pars)
+                expected += self.project_like_data(spectrum, floating_pars)
             else:
-                expected = spectrum.nd_project(floating_pars)
+                expected = self.project_like_data(spectrum, floating_pars)
 
         # Add signal, if required
         if self._signal:
@@ -549,11 +552,11 @@ class Fit(object):
                 signal = copy.copy(signal)
                 signal._config = signal._config.copy()
                 self.shrink_to_data(signal)
-                signal.rebin(self._data._data.shape)
+                self.rebin_to_data(signal)
                 signal.scale(num_decays)
             else:
                 signal = self._signal
-            expected += signal.nd_project(self._signal_pars)
+            expected += self.project_like_data(signal, self._signal_pars)
 
         # If single bin - sum over expected and observed
         if self._single_bin:
@@ -578,7 +581,7 @@ class Fit(object):
 
         # Check for per_bin flag
         if self._per_bin:
-            test_statistic = test_statistic.reshape(spectrum._data.shape)
+            test_statistic = test_statistic.reshape(self._data._data.shape)
 
         return test_statistic, total_penalty
 
@@ -665,6 +668,44 @@ class Fit(object):
         else:
             self.set_fixed_background(total_spectrum, shrink)
 
+    def project_like_data(self, spectrum, pars):
+        """ Projects a spectrum with its axes in the order of the data.
+
+        Args:
+          spectrum (:class:`echidna.core.spectra.Spectra`): The spectrum to
+            project.
+          pars (list): Names of the parameters of spectrum to project onto.
+
+        Returns:
+          :class:`numpy.ndarray`: The projection, to be compared with the
+            projection of the data.
+        """
+        config = spectrum.get_config()
+        dims = [config.get_dim(par) for par in config.get_pars()
+                if par in pars]
+        data_config = self._data.get_config()
+        data_dims = [data_config.get_dim(par) for par in data_config.get_pars()
+                     if par in self._data_pars]
+        return spectrum.nd_project(pars).transpose(
+            [dims.index(dim) for dim in data_dims])
+
+    def rebin_to_data(self, spectrum):
+        """ Rebins a spectrum to the binning of the data in each dimension.
+
+        Args:
+          spectrum (:class:`echidna.core.spectra.Spectra`): The spectrum to
+            rebin.
+        """
+        config = spectrum.get_config()
+        data_config = self._data.get_config()
+        new_bins = []
+        for par_name in config.get_pars():
+            if par_name not in data_config.get_pars():  # Different type
+                dim = config.get_dim(par_name)
+                par_name = dim + "_" + data_config.get_dim_type(dim)
+            new_bins.append(data_config.get_par(par_name)._bins)
+        spectrum.rebin(new_bins)
+
     def remove_signal(self):
         """ Removes the signal spectra from the class.
         """
-- 
2.43.0


From 1a470aae5342835fc4af5266d57defde8e7df4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 102/114] fix: chi_squared_vs_signal accepts effective_mass
 with a converter

---
 echidna/output/plot_chi_squared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index e1b61ef..849f434 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -52,7 +52,7 @@ def chi_squared_vs_signal(signal_config, converter=None, fig_num=1,
     Returns:
       matplotlib.pyplot.figure: Plotted figure.
     """
-    if (converter is None and half_life or effective_mass):
+    if converter is None and (half_life or effective_mass):
         raise TypeError("converter is None. Cannot use 'half_life' or "
                         "'effective_mass' keywords without converter")
     # Fig. 1 (axes generated automatically)
-- 
2.43.0


From 7cc594c767de554572391eb7c6dc7ac751f7ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 103/114] fix: chi_squared_vs_signal fills its array of half
 lives

---
 echidna/output/plot_chi_squared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index 849f434..fa67f09 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -68,7 +68,7 @@ def chi_squared_vs_signal(signal_config, converter=None, fig_num=1,
     elif half_life:
         x = numpy.zeros(shape=(signal_config.get_chi_squareds()[2].shape))
         for i_bin, count in enumerate(signal_config.get_chi_squareds()[2]):
-            x.append(1./converter.counts_to_half_life(count, **kwargs))
+            x[i_bin] = 1./converter.counts_to_half_life(count, **kwargs)
         plt.xlabel(r"$1/T_{1/2}^{0\nu}$", **BOLD_FONT)
     else:
         x = signal_config.get_chi_squareds()[2]
-- 
2.43.0


From cce6d5af5cb66bb9341930617d13fc2cb7074fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 104/114] fix: chi_squared_vs_signal converts with the given
 number of atoms

---
 echidna/output/plot_chi_squared.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index fa67f09..bc1d9bb 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -62,13 +62,15 @@ def chi_squared_vs_signal(signal_config, converter=None, fig_num=1,
     if effective_mass:
         x = numpy.zeros(shape=(signal_config.get_chi_squareds()[2].shape))
         for i_bin, count in enumerate(signal_config.get_chi_squareds()[2]):
-            effective_mass = converter.counts_to_eff_mass(count, **kwargs)
+            effective_mass = converter.counts_to_eff_mass(
+                count, n_atoms=n_atoms, **kwargs)
             x[i_bin] = effective_mass
         plt.xlabel(r"$m_{\beta\beta}$", **BOLD_FONT)
     elif half_life:
         x = numpy.zeros(shape=(signal_config.get_chi_squareds()[2].shape))
         for i_bin, count in enumerate(signal_config.get_chi_squareds()[2]):
-            x[i_bin] = 1./converter.counts_to_half_life(count, **kwargs)
+            x[i_bin] = 1./converter.counts_to_half_life(
+                count, n_atoms=n_atoms, **kwargs)
         plt.xlabel(r"$1/T_{1/2}^{0\nu}$", **BOLD_FONT)
     else:
         x = signal_config.get_chi_squareds()[2]
-- 
2.43.0


From 8231bc6c0245969c5912f6b5866830c14b5a591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 105/114] fix: penalty_vs_systematic can save its plot

---
 echidna/output/plot_chi_squared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index bc1d9bb..a8e4ecd 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -251,7 +251,7 @@ def penalty_vs_systematic(syst_analyser, fig_num=1, save_as=None):
         label.set_fontsize(MAIN_FONT.get("size"))
 
     if save_as:
-        plt.savefig(kwagrs.get("save_as") + ".png")
+        plt.savefig(save_as + ".png")
     return fig
 
 
-- 
2.43.0


From c5f297c221cdd5b9fe273ec99d3cdc51972f22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 106/114] fix: plot_chi_squared_per_bin names its histogram as
 asked

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 7f330d8..6079d25 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -215,7 +215,7 @@ def plot_chi_squared_per_bin(calculator, x_bins, x_low, x_high,
         hist_title = "; "+x_title+"; #chi^{2}"
     else:
         hist_title = "; Energy (MeV); #chi^{2}"
-    hist = ROOT.TH1F("chi_sq_per_bin", hist_title, x_bins, x_low, x_high)
+    hist = ROOT.TH1F(h_name, hist_title, x_bins, x_low, x_high)
     bin = 1  # 0 is underflow
     for chi_sq in calculator.get_chi_squared_per_bin():
         hist.SetBinContent(bin, chi_sq)
-- 
2.43.0


From 72fb876498726398f57db2cefe9d8fd927c83dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 107/114] fix: return the yaml of ordered_dump when there is no
 stream to write to

---
 echidna/util/yaml_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/util/yaml_loader.py b/echidna/util/yaml_loader.py
index 42ca6b7..d96c9fc 100644
--- a/echidna/util/yaml_loader.py
+++ b/echidna/util/yaml_loader.py
@@ -35,6 +35,9 @@ def ordered_dump(data, stream=None, **kwargs):
       stream (file stream, optional): Reference to pre-existing
         .yml file to write to.
       kwargs (float): Key word arguments to be passed to yaml.dump
+
+    Returns:
+      string: The yaml, when no stream is given.
     """
     class OrderedDumper(yaml.SafeDumper):
         pass
@@ -46,4 +49,4 @@ def ordered_dump(data, stream=None, **kwargs):
 
     OrderedDumper.add_representer(OrderedDict, _dict_representer)
 
-    yaml.dump(data, stream, OrderedDumper, **kwargs)
+    return yaml.dump(data, stream, OrderedDumper, **kwargs)
-- 
2.43.0


From 63e7eafad09cb74f451242b253ac3cfe0abad181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:06 +0000
Subject: [PATCH 108/114] fix: klz_majoron_limits runs without a region of
 interest, as it says

---
 echidna/scripts/klz_majoron_limits.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index c6ee290..9e09d38 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -147,6 +147,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
                             "not type %s" % type(roi))
     else:
         logger.warning("No ROI found, spectra will not be shrunk")
+        roi = None
 
     # Set per_bin, as required
     if args_config.get("per_bin") is not None:
@@ -193,6 +194,11 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
             " --> echidna can use total background as data, "
             "but a blank data spectrum should still be supplied.")
         raise ValueError("No data path found")
+    if roi is None:  # Use the whole range of the data
+        roi = {}
+        for par in data.get_config().get_pars():
+            cur_par = data.get_config().get_par(par)
+            roi[data.get_config().get_dim(par)] = (cur_par._low, cur_par._high)
 
     # Apply plot-grab errors as appropriate
     if args.upper_bound:
-- 
2.43.0


From 72bccdd882970f9dfc6e4a7da07df96fe237d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:06 +0000
Subject: [PATCH 109/114] fix: klz_majoron_limits accepts signals that are
 passed as arguments only

---
 echidna/scripts/klz_majoron_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index 9e09d38..a4082f9 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -310,7 +310,7 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
                 logger.warning(
                     "Signal %s already loaded. NOT using signal "
                     "spectrum from: %s" % (signal.get_name(), filename))
-    else:
+    elif not signals:
         logger.error("No signal spectra found")
         raise CompatibilityError("Must have at least one signal to set limit")
 
-- 
2.43.0


From 71929fa7856032076dcea1fb0fadb8e76ed910b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:06 +0000
Subject: [PATCH 110/114] fix: klz_majoron_limits main does not keep the
 spectra of former calls

---
 echidna/scripts/klz_majoron_limits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index a4082f9..d9bba66 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -100,7 +100,7 @@ class ReadableDir(argparse.Action):
         setattr(namespace, self.dest, values)  # keeps original format
 
 
-def main(args, name=None, floating_backgrounds=[], signals=[]):
+def main(args, name=None, floating_backgrounds=None, signals=None):
     """ The limit setting script.
 
     Args:
@@ -117,6 +117,11 @@ def main(args, name=None, floating_backgrounds=[], signals=[]):
     """
     logger = utilities.start_logging()
 
+    if floating_backgrounds is None:
+        floating_backgrounds = []
+    if signals is None:
+        signals = []
+
     if args.save_path is not None:
         logger.warning("Overriding default save path!")
         logging.getLogger("extra").warning(
-- 
2.43.0


From b91aaa86cf5dd52b1e3405b55ce11c391964cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:06 +0000
Subject: [PATCH 111/114] fix: klz_majoron_limits uses the spectra given by
 --floating and --signals

---
 echidna/scripts/klz_majoron_limits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/klz_majoron_limits.py b/echidna/scripts/klz_majoron_limits.py
index d9bba66..069f57e 100644
--- a/echidna/scripts/klz_majoron_limits.py
+++ b/echidna/scripts/klz_majoron_limits.py
@@ -415,4 +415,6 @@ if __name__ == "__main__":
     if args.save_path is not None:
         output.__default_save_path__ = args.save_path
 
-    main(args)
+    main(args,
+         floating_backgrounds=[store.load(f) for f in args.floating or []],
+         signals=[store.load(f) for f in args.signals or []])
-- 
2.43.0


From 395a04097338a584f939581f89c4f6d0b37ec7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:27 +0000
Subject: [PATCH 112/114] fix: FitParameter.get_bin returns the closest of
 several close values

On a grid finer than the tolerance of numpy.isclose the first value within
the tolerance was returned, so that the accessors of a grid search gave the
statistics of another grid point.
---
 echidna/core/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 36760b9..9dc36e5 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -337,7 +337,9 @@ class FitParameter(Parameter):
           int: Bin index.
         """
         try:
-            return numpy.where(numpy.isclose(self.get_values(), value))[0][0]
+            values = numpy.array(self.get_values())
+            close = numpy.where(numpy.isclose(values, value))[0]
+            return close[numpy.argmin(numpy.abs(values[close] - value))]
         except:
             return int((value - self._low) / (self._high - self._low) *
                        self._bins)
-- 
2.43.0


From d48da43f37eeb2493fb5529ce163909dbd3616c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:46 +0000
Subject: [PATCH 113/114] fix: the axes of a root surface plot carry their
 dimensions' names

The first field of a root title is the title of the histogram, so that the
x axis carried the name of the dimension drawn along y, and the y axis the
name of the counts.
---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 6079d25..e2610bd 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -57,7 +57,7 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
     if not h_name:
         h_name = dimension1 + ":" + dimension2 + strings.id_generator()
     plot = ROOT.TH2D(h_name,
-                     "%s;%s;Count per bin" % (dimension1, dimension2),
+                     ";%s;%s;Count per bin" % (dimension1, dimension2),
                      spectra.get_config().get_par(dimension1)._bins,
                      spectra.get_config().get_par(dimension1)._low,
                      spectra.get_config().get_par(dimension1)._high,
-- 
2.43.0


From 98673833a42fd096a959366f52f4e234c9f7e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:27 +0000
Subject: [PATCH 114/114] fix: a signal of no decays can be fitted with global
 parameters

Convolving such a signal for the first time scaled it from no decays to no
decays, a division by zero, while the same fit without global parameters
worked.
---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 8b38d27..2c8fc45 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -553,7 +553,8 @@ class Fit(object):
                 signal._config = signal._config.copy()
                 self.shrink_to_data(signal)
                 self.rebin_to_data(signal)
-                signal.scale(num_decays)
+                if signal._num_decays != num_decays:  # Convolved earlier
+                    signal.scale(num_decays)
             else:
                 signal = self._signal
             expected += self.project_like_data(signal, self._signal_pars)
-- 
2.43.0

