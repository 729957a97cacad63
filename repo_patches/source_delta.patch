From 4801029cdfc8058f45daf48503553ebfce0d3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 01/76] fix: conversion to wavenumber was off by a factor 1e4

The metre representation has to be scaled to centimetres before the inverse
is taken; converting a wavenumber spectrum to wavenumber did not round trip.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..507ae22 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From 7cf92bb0e0415444ae63994d9884da0d9f74402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:56 +0000
Subject: [PATCH 02/76] fix: array inverse treated values below 1e-8 as zero
 and truncated integers

Wavelengths below 10 nm in an array converted to infinite energy, and integer
arrays were inverted in integer arithmetic.
---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 507ae22..2dc1c99 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=float)
+    zero_ind = inverse == 0.0
+    inf_ind = inverse == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From 1ec80503fecc52644de3dd6690f598030966a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 03/76] fix: wavelengths in cm were rounded to 100 nm

Rounding to 1e-5 cm made conversion to cm (also used for absorption
coefficients) useless for optical wavelengths; round to 1e-15 m as for um.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 2dc1c99..2e5e47b 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From c3a96c1a16fd68da8af910cb1e69c0e3172b59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:01 +0000
Subject: [PATCH 04/76] fix: no display name for unit cm

Labels and out-of-range messages for spectra in cm raised KeyError.
---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 2e5e47b..5d60bb3 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From d176fa455af7cd66b1ff56ec5f758e78a7e6452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:03 +0000
Subject: [PATCH 05/76] fix: convert_to rejected unit names not in lower case

The constructor accepts any letter case, so data defined with e.g. 'NM' could
be created but not evaluated.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 5d60bb3..c6c7359 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -303,7 +303,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From 970581e90e6ed7196487c8a6738ff436614dda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:36 +0000
Subject: [PATCH 06/76] fix: spectrum shared its arrays with the caller

Changing the array passed in, or the array returned by a conversion to metre,
silently changed the spectrum (values and standard representation then
disagreed). Keep private floating point copies.
---
 src/dispersion/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index c6c7359..68a0815 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -102,7 +102,7 @@ def wavelength_to_standard(unit, values):
 def to_wavelength(unit, values):
     """converts values from standard to wavelength representation"""
     if unit == 'm':
-        converted_values = values
+        converted_values = 1.0*values
     elif unit == 'cm':
         converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
@@ -185,8 +185,8 @@ class Spectrum(object):
                              "not valid, valid types are " +
                              "{}".format(spectral_types))
         self.unit = self.standardise_unit(self.spectrum_type, unit.lower())
-        if isinstance(values, (list, tuple)):
-            values = np.array(values)
+        if isinstance(values, (list, tuple, np.ndarray)):
+            values = np.array(values, dtype=float)
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
@@ -276,7 +276,7 @@ class Spectrum(object):
             self.standard_rep = self.convert_from(self.spectrum_type,
                                                   self.unit, values)
         else:
-            self.standard_rep = values
+            self.standard_rep = 1.0*values
 
     @staticmethod
     def convert_from(spectrum_type, unit, values):
-- 
2.43.0


From c945b3b1f379403214e55ad15dd2a156f669e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 07/76] fix: end points of a valid range were rejected due to
 conversion error

Values were compared after a lossy conversion, so about a third of all tables
could not be evaluated at their own first or last point. Compare the metre
representations with a relative tolerance and keep interpolation in range.
---
 src/dispersion/spectral_data.py |  3 +++
 src/dispersion/spectrum.py      | 13 +++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..1a5fcba 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -220,6 +220,9 @@ class Interpolation(SpectralData):
 
         self.valid_range.contains(spectrum)
         values = spectrum.convert_to(self.spectrum_type, self.unit)
+        # the conversion may have moved end points beyond the tabulated range
+        values = np.clip(values, np.min(self.data[:, 0]),
+                         np.max(self.data[:, 0]))
         return self.interpolation(values)
 
     def dict_repr(self):
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 68a0815..0d3b996 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -229,10 +229,15 @@ class Spectrum(object):
         self_min = np.min(self.values)
         self_max = np.max(self.values)
         out_of_range = None
-        if other_min < self_min:
-            out_of_range = other_min
-        elif other_max > self_max:
-            out_of_range = other_max
+        # compare without the rounding applied by convert_to and allow for
+        # the floating point error of converting between units
+        valid = [np.min(self.standard_rep), np.max(self.standard_rep)]
+        requested = [np.min(other.standard_rep), np.max(other.standard_rep)]
+        at_limit = np.isclose(requested, valid, rtol=1e-9, atol=0.0)
+        below = requested[0] < valid[0] and not at_limit[0]
+        above = requested[1] > valid[1] and not at_limit[1]
+        if below or above:
+            out_of_range = other_min if other_min < self_min else other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
             raise ValueError("evaluation requested for " +
-- 
2.43.0


From 0afbf948d51eded0b4c76717a89b63ce49b4b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:06 +0000
Subject: [PATCH 08/76] fix: Retro model solved the wrong equation

Formula 8 of refractiveindex.info is (n^2-1)/(n^2+2) = rhs; the code solved
(n^2-1)/(n^2+2n) = rhs, giving e.g. 3.4 instead of 2.25 for AgBr.
---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 1a5fcba..bad9bfb 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -534,10 +534,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # solve (n^2-1)/(n^2+2) = rhs for n
+        ref_index = np.sqrt((1.0+2.0*rhs)/(1.0-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From 0e412addae2cbd51d9465911ceb3c947d0f3a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:08 +0000
Subject: [PATCH 09/76] fix: Exotic model had a spurious wavelength factor

Formula 9 of refractiveindex.info has C2/(lambda^2-C3) as second term.
---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index bad9bfb..dcaf727 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -560,7 +560,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From 03af7107e4ecececdff8d9cb647d869fd82ce3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 10/76] fix: Tauc-Lorentz failed for scalars and at the band
 gap

A scalar spectrum raised TypeError and a point exactly at the gap gave nan
although the limit is finite.
---
 src/dispersion/spectral_data.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index dcaf727..f1ec449 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -644,12 +644,10 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
-        return eps_imag
+        E = energies
+        eps_imag = ( (1./E) *A*E0*C*(E-Eg)**2 /
+                     ((E**2-E0**2)**2+C**2*E**2))
+        return np.where(E >= Eg, eps_imag, 0.0*ones)
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
         E = energies
@@ -679,12 +677,14 @@ class TaucLorentz(Model):
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
 
+        # terms in log|E-Eg| cancel in the limit E -> Eg
+        gap = np.where(E == Eg, 1.0, np.abs(E-Eg))
         part4 = ((-A*E0*C/(np.pi*zeta4))*
                  ((E**2+Eg**2)/E) *
-                 np.log( np.abs(E-Eg)/(E+Eg)))
+                 np.log( gap/(E+Eg)))
 
         part5 = ((2.*A*E0*C*Eg/(np.pi*zeta4)) *
-                 np.log( (np.abs(E-Eg)*(E+Eg))/
+                 np.log( (gap*(E+Eg))/
                          np.sqrt((E0**2-Eg**2)**2+Eg**2*C**2)))
 
         eps_real = eps_inf + part1 + part2 + part3 + part4 +part5
-- 
2.43.0


From 2fb809e0fdf2d647c1221a4657cf319a4bbb5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:27 +0000
Subject: [PATCH 11/76] fix: extrapolation converted the caller's spectrum in
 place

Both creating and evaluating an extrapolation silently changed the unit of the
spectrum object passed in.
---
 src/dispersion/spectral_data.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index f1ec449..015a94a 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
         new_range = np.array(base_spectrum.values)
         if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,8 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
-            new_range = self.validate_extrap_val(extrap_val, new_range)
+            new_range = self.validate_extrap_val(extrap_values, new_range)
 
         return Spectrum(new_range,
                         spectrum_type= base_spectrum.spectrum_type,
@@ -191,9 +189,9 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
+            values = spectrum.convert_to(self.spectrum_type, self.unit)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            return splev(values,self.extrapolation)
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From 57939074a77e8332a9bd86549be2a0d02e23c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:05 +0000
Subject: [PATCH 12/76] fix: extrapolation replaced known data when a request
 also had outside points

A request with one point outside the base range evaluated the spline fit for
all points, so in-range values depended on what else was requested.
---
 src/dispersion/spectral_data.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 015a94a..ea4d2bb 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -191,7 +191,17 @@ class Extrapolation(SpectralData):
         except ValueError as e:
             values = spectrum.convert_to(self.spectrum_type, self.unit)
             self.valid_range.contains(spectrum)
-            return splev(values,self.extrapolation)
+            result = np.array(splev(values,self.extrapolation))
+            # points inside the base range are not to be extrapolated
+            base_values = self.base_spectral_data.valid_range.values
+            inside = ((values >= np.min(base_values)) &
+                      (values <= np.max(base_values)))
+            if np.any(inside):
+                base_spectrum = Spectrum(values[inside],
+                                         spectrum_type=self.spectrum_type,
+                                         unit=self.unit)
+                result[inside] = self.base_spectral_data.evaluate(base_spectrum)
+            return result
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From 9a1bb05e02896441a0e9db0e7e85b4e024761346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 13/76] fix: tabulated_n_alpha input always raised
 AttributeError

The shape check looked at the wrong table.
---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..1fff7ea 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From 9b78f083cc27ae22cb0c17bb60ad65f72dbea7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:10 +0000
Subject: [PATCH 14/76] fix: interp_order of a material was ignored

The documented option never reached the interpolation (and was not type
checked because of a misspelled key).
---
 src/dispersion/material.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1fff7ea..7490ef1 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -115,7 +115,7 @@ class Material():
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':parsed_args["interp_order"]}
+        self.options = {'interp_order':parsed_args["interp_order"]}
         self.defaults = {'unit':parsed_args["unit"],
                          'spectrum_type':parsed_args["spectrum_type"]}
         #process input arguments
@@ -190,13 +190,13 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
-            inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
+        if inputs['interp_order'] is None:
+            inputs['interp_order'] = 1
 
         float_args = {"fixed_n", "fixed_eps_r"}
         float_types = {float, np.double}
@@ -516,7 +516,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_order'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
@@ -913,7 +914,7 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':1}
+        self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
         self.spectrum = spectrum
-- 
2.43.0


From 06907905250518102bf9edf4bbbdd7ee21d18448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:12 +0000
Subject: [PATCH 15/76] fix: maximum valid range wrong for complex models and
 energy units

The range of complex models was taken in its own unit but interpreted as
metres, and limits came in descending order for reciprocal spectrum types.
---
 src/dispersion/material.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7490ef1..f4ea88f 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -689,12 +689,17 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        max_range = spec.convert_to(self.defaults['spectrum_type'],
+                                    self.defaults['unit'])
+        if not Spectrum.check_type(self.defaults['spectrum_type'],
+                                   'wavelength'):
+            # all other spectrum types are reciprocal to wavelength
+            max_range = max_range[::-1]
+        return max_range
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 5bd81cc916495ae45ef734ef0b91fb9e9b0eb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 16/76] fix: sample spectrum left the valid range if only one
 limit is infinite

100 to 2000 nm was used even if the finite limit excludes part of it, so such
materials could not be plotted.
---
 src/dispersion/material.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index f4ea88f..c96e3ff 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -796,7 +796,17 @@ class Material():
         """spectrum which covers the maximum valid range of the material data"""
         max_range = self.get_maximum_valid_range()
         if max_range[0] == 0.0 or max_range[1] == np.inf:
-            values = np.geomspace(100, 2000, 1000)
+            spectrum = Spectrum(max_range,
+                                spectrum_type=self.defaults['spectrum_type'],
+                                unit=self.defaults['unit'])
+            wavelengths = spectrum.convert_to('wavelength', 'nm')
+            lower = np.min(wavelengths)
+            upper = np.max(wavelengths)
+            if lower == 0.0:
+                lower = min(100., 0.1*upper)
+            if upper == np.inf:
+                upper = max(2000., 10.*lower)
+            values = np.geomspace(lower, upper, 1000)
             spectrum = Spectrum(values, spectrum_type='wavelength',
                                 unit='nm')
         else:
-- 
2.43.0


From fb93563666749c79beb4b8ba25b46bb2bde3163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 17/76] fix: materials defined by a complex model or a
 parameter list could not be written

The part name 'complex' was iterated letter by letter, and parameters were
assumed to be an array.
---
 src/dispersion/material.py      | 2 +-
 src/dispersion/spectral_data.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index c96e3ff..ea08eac 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -872,7 +872,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index ea4d2bb..269ba23 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -283,7 +283,8 @@ class Model(SpectralData):
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
         data['Yields'] = self.output
-        data['Parameters'] = _numeric_to_string_table(self.model_parameters)
+        data['Parameters'] = _numeric_to_string_table(
+            np.asarray(self.model_parameters))
         return data
 
     def input_output(self):
-- 
2.43.0


From b6acb0daaab9b2f783b217d0b934fb5fdf24b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:50 +0000
Subject: [PATCH 18/76] fix: tables were rounded and abbreviated when written

np.array2string keeps 8 digits, replaces the middle of tables with more than
1000 entries by '...' and follows the global print options, so written files
could lose data or be unreadable.
---
 src/dispersion/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..c1ed165 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,11 +62,11 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
-    no_brackets = re.sub(r'[\[\]]', '', string_array)
-    no_indent = re.sub(r'\n ', r"\n", no_brackets)
-    no_indent = no_indent.rstrip().lstrip()
-    return no_indent
+    # np.array2string is for display only: depending on the print options it
+    # rounds and abbreviates the data
+    rows = np.atleast_2d(table)
+    return "\n".join(" ".join(repr(float(value)) for value in row)
+                     for row in rows)
 
 def _str_table_to_numeric(table):
     '''
-- 
2.43.0


From 45e631afc03a8a2f7b04fed53daeadbf99aebcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:52 +0000
Subject: [PATCH 19/76] fix: tables with descending spectrum lost their rows
 when written

When reading a table all rows which are not ascending are dropped, so a table
has to be written in ascending order.
---
 src/dispersion/spectral_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 269ba23..14a9941 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -242,7 +242,9 @@ class Interpolation(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Data'] = _numeric_to_string_table(self.data)
+        # files hold data with ascending spectrum
+        order = np.argsort(self.data[:, 0])
+        data['Data'] = _numeric_to_string_table(self.data[order, :])
         return data
 
 class Model(SpectralData):
-- 
2.43.0


From 228c96cd823edac680ed233768a2dd56d256f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:55 +0000
Subject: [PATCH 20/76] fix: permittivity tables and tables of different length
 did not survive a file

Permittivity was written as two data sets the reader silently ignored, and n
and k tables of different length could not be written at all. Combine
permittivity tables as done for n and k, read separate parts, and refuse
unknown table kinds instead of returning an empty material.
---
 src/dispersion/material.py | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index ea08eac..21edcc4 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -489,7 +489,15 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
-
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_i':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
+        else:
+            raise ValueError("tabulated data <{}> ".format(identifier) +
+                             "not supported")
 
     def _spec_data_from_table(self, data):
         '''
@@ -845,7 +853,7 @@ class Material():
             if data_part == 'real':
                 dtype += " eps_r"
             elif data_part == 'imag':
-                dtype += ' eps_k'
+                dtype += ' eps_i'
             elif data_part == 'complex':
                 dtype += ' eps'
         else:
@@ -888,20 +896,20 @@ class Material():
         return datasets
 
     def collapse_datasets(self, datasets):
-        n_collapsable = 0
-        for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
-                n_data = _str_table_to_numeric(dataset['Data'])
-                n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
-                k_data = _str_table_to_numeric(dataset['Data'])
-                n_collapsable += 1
-
-        if n_collapsable < 2:
+        for real, imag, both in [('tabulated n', 'tabulated k',
+                                  'tabulated nk'),
+                                 ('tabulated eps_r', 'tabulated eps_i',
+                                  'tabulated eps')]:
+            if [dset['DataType'] for dset in datasets] == [real, imag]:
+                break
+        else:
             return datasets
 
+        real_data = _str_table_to_numeric(datasets[0]['Data'])
+        imag_data = _str_table_to_numeric(datasets[1]['Data'])
+
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(real_data[:, 0], imag_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
@@ -916,9 +924,8 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
-        k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
-        new_data = np.concatenate([n_data, k_data], axis=1)
+        new_dataset['DataType'] = both
+        new_data = np.concatenate([real_data, imag_data[:, [1]]], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
         return [new_dataset]
 
-- 
2.43.0


From 080209d0eaaad9844f20be654f3629724562a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:20 +0000
Subject: [PATCH 21/76] fix: text files with a single row of data could not be
 read

---
 src/dispersion/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c1ed165..a3639c4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -326,24 +326,24 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      delimiter=',')
+                                      delimiter=',', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      comments=';')
+                                      comments=';', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From b97ec9407c1e4e0ee4365773ea291527d9b6bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 22/76] fix: text files kept only 8 decimals of each number

Wavelengths in metre, small absorption and similar data were destroyed by
writing with a fixed number of decimals; write significant digits instead.
---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index a3639c4..feec762 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -659,7 +659,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%.15g")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 31fdbfd7c978ed9d538636ff0bad198c69dd88e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:24 +0000
Subject: [PATCH 23/76] fix: writing .nk files raised UnboundLocalError

No delimiter was set for the extension; .nk files are tab separated and use ;
for comments.
---
 src/dispersion/io.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index feec762..9eaa468 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -214,7 +214,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, comment='#'):
     """
     read information from a file and rewrite with text prepended
     """
@@ -223,8 +223,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment)
+        text = comment + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -607,7 +607,9 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                comment = ';' if self.extension == '.nk' else '#'
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment=comment)
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -650,15 +652,20 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
+        comments = "# "
         if self.extension == '.txt':
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
+        elif self.extension == '.nk':
+            delimiter = "\t"
+            comments = "; "
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=comments,
                    fmt="%.15g")
 
 
-- 
2.43.0


From f5d27a040dbaa8454dec76ba3604b05e6d88c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:48 +0000
Subject: [PATCH 24/76] fix: text files with non-ASCII metadata were written as
 latin1

All readers expect utf-8, so such files could not be read back.
---
 src/dispersion/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 9eaa468..68e970c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -666,7 +666,8 @@ class Writer():
                    delimiter=delimiter,
                    header=header,
                    comments=comments,
-                   fmt="%.15g")
+                   fmt="%.15g",
+                   encoding='utf-8')
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 029fd3c1fe5dc61ec70decdfa41c0fc693986044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 25/76] fix: meta comment changed on every write and read

Reading a yaml file cut off the last character of the comment, reading a text
file added the blank line that ends the header, which then accumulated.
---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 68e970c..2482dea 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -407,6 +407,7 @@ class Reader():
                 if valid_key_val is False:
                     multi_line_comment += line + "\n"
 
+        multi_line_comment = multi_line_comment.rstrip()
         if multi_line_comment != "":
             file_dict['MetaData']['MetaComment'] = multi_line_comment
         dataset = file_dict['Datasets'][0]
@@ -428,8 +429,7 @@ class Reader():
 
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
-        mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
+        mcomment = "\n".join(self._read_text_comment()).rstrip()
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 593fa2bed7b0e9cc0ed286f30b2fb789d2548ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:53 +0000
Subject: [PATCH 26/76] fix: line breaks in metadata corrupted text files

Everything after the first line ended up in the comment or even in another
metadata field.
---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 2482dea..51cccb0 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -629,8 +629,10 @@ class Writer():
         for key in Writer.DATA_META_DATA_KEYS:
             if key in self.file_dict['MetaData']:
                 alias = Writer.KEY_ALIASES[key]
+                value = str(self.file_dict['MetaData'][key])
+                # each metadata entry is restricted to one line
                 header += "{}: {}\n".format(alias,
-                                            self.file_dict['MetaData'][key])
+                                            " ".join(value.splitlines()))
 
 
         # for item in Writer.KEY_ALIASES.items():
-- 
2.43.0


From 0e52f18ed763ce34e942f19a324a2f11f2ebcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 27/76] fix: yaml keys not in upper case raised KeyError when
 read

Keys were looked up by their upper case form. The writer itself produces such
keys for additional metadata, and gave them the value of another field.
---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 51cccb0..d22f7eb 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -450,8 +450,8 @@ class Reader():
             the updated file_dict
         """
         for kwd in yaml_dict:
-            kwd = kwd.upper()
             arg = yaml_dict[kwd]
+            kwd = kwd.upper()
             valid = False
             if kwd == 'DATA':
                 valid = True
@@ -700,8 +700,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From 6d400723933a9fe8cc95d361e03ae016dd161e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 28/76] fix: constant values were lost when a material was
 written

---
 src/dispersion/io.py            | 28 ++++++++++++++++++++--------
 src/dispersion/material.py      | 23 +++++++++++++++++++++++
 src/dispersion/spectral_data.py | 10 +++++++++-
 3 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index d22f7eb..5e4f11d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -506,6 +506,8 @@ class Reader():
                     data_dict['Data'] = dataset['data']
                 except KeyError:
                     data_dict['Data'] = dataset['Data']
+            elif data_type.startswith('constant'):
+                data_dict['Data'] = dataset['Value']
             else:
                 raise KeyError("data type <{}> invalid".format(data_type))
 
@@ -621,6 +623,17 @@ class Writer():
                              ", supported extensions are (.yml|.csv|.txt)")
 
 
+    def _drop_constant_datasets(self):
+        """
+        remove parts with constant value of 0. which the reader fills in
+        """
+        datasets = [dataset for dataset in self.file_dict['Datasets']
+                    if not ("constant" in dataset['DataType'] and
+                            dataset['ValidRange'].split() == ['0.0', 'inf'] and
+                            dataset['Value'] == 0.0)]
+        if len(datasets) > 0:
+            self.file_dict['Datasets'] = datasets
+
     def _write_text_file(self):
         """
         writer for .txt, .csv and .nk files
@@ -640,7 +653,12 @@ class Writer():
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
+        self._drop_constant_datasets()
         data_dict = self.file_dict["Datasets"][0]
+        if (len(self.file_dict['Datasets']) > 1 or
+                not data_dict['DataType'].startswith('tabulated')):
+            raise ValueError("text files can only hold a single data set of " +
+                             "tabulated data")
 
         spec_type = multi_key(data_dict, {'spectrum_type', 'SpectrumType'})
         header += "SPECTRUMTYPE: {}\n".format(spec_type)
@@ -683,14 +701,8 @@ class Writer():
                 pop_keys.append(key)
         for key in pop_keys:
             self.file_dict.pop(key)
-        pop_dataset = []
-
-        for ids, dataset in enumerate(self.file_dict['Datasets']):
-            if ("constant" in dataset['DataType'] and
-                    self.ignore_constant):
-                pop_dataset.append(ids)
-        for pop_id in pop_dataset:
-            self.file_dict['Datasets'].pop(pop_id)
+        if self.ignore_constant:
+            self._drop_constant_datasets()
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 21edcc4..16cee74 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -447,9 +447,32 @@ class Material():
             elif data_type in {'formula', 'model'}:
                 #data is a formula with coefficients
                 self._process_formula_data(dataset)
+            elif data_type == 'constant':
+                self._process_constant_data(dataset, identifier)
             else:
                 raise ValueError("data type {} not supported".format(data_type))
 
+    def _process_constant_data(self, dataset, identifier):
+        """
+        Uses a data set with a constant value to set relevant class attributes.
+        """
+        parts = {'n': ('nk', 'real'), 'k': ('nk', 'imag'),
+                 'eps_r': ('eps', 'real'), 'eps_i': ('eps', 'imag')}
+        if identifier not in parts:
+            raise ValueError("constant data <{}> ".format(identifier) +
+                             "not supported")
+        kws = {}
+        if dataset['ValidRange']:
+            kws['valid_range'] = [float(val) for val in
+                                  dataset['ValidRange'].split()]
+        if dataset['SpectrumType']:
+            kws['spectrum_type'] = dataset['SpectrumType']
+        if dataset['Unit']:
+            kws['unit'] = dataset['Unit']
+        name, part = parts[identifier]
+        self.data['name'] = name
+        self.data[part] = Constant(float(dataset['Data']), **kws)
+
     def _process_table(self, table, identifier, meta_data=None):
         """
         Uses a table(np.ndarray) and metadata to set relevant class attributes.
diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 14a9941..82c7149 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -109,7 +109,15 @@ class Constant(SpectralData):
         data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
         data['SpectrumType'] = self.spectrum_type
         data['Unit'] = self.unit
-        data['Value'] = self.constant
+        lower = np.min(self.valid_range.values)
+        upper = np.max(self.valid_range.values)
+        if lower == upper:
+            # a constant valid at one point is a table with one row
+            data['DataType'] = "tabulated"
+            data['Data'] = _numeric_to_string_table(
+                np.array([[lower, self.constant]]))
+        else:
+            data['Value'] = float(self.constant)
         return data
 
 class Extrapolation(SpectralData):
-- 
2.43.0


From 727a345b08ab8464b078aa7dd9eda99f8a39bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 29/76] fix: unlisted keys of SPECS were dropped when written

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 5e4f11d..afa84e5 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -757,6 +757,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in yaml_spec:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From f8256d024bacd2b940322db2cc7ae49e470d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:24 +0000
Subject: [PATCH 30/76] fix: models were not renamed to formulas by
 use_rii_aliases

---
 src/dispersion/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index afa84e5..2036990 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -570,15 +570,15 @@ class Writer():
                    "DataType": "type",
                    "Parameters": "coefficients",
                    "Data":"data",
-                   "Model:Sellmeier":"formula 1",
-                   "Model:Sellmeier2":"formula 2",
-                   "Model:Polynomial":"formula 3",
-                   "Model:RefractiveIndexInfo":"formula 4",
-                   "Model:Cauchy":"formula 5",
-                   "Model:Gases":"formula 6",
-                   "Model:Herzberger":"formula 7",
-                   "Model:Retro":"formula 8",
-                   "Model:Exotic":"formula 9"}
+                   "model Sellmeier":"formula 1",
+                   "model Sellmeier2":"formula 2",
+                   "model Polynomial":"formula 3",
+                   "model RefractiveIndexInfo":"formula 4",
+                   "model Cauchy":"formula 5",
+                   "model Gases":"formula 6",
+                   "model Herzberger":"formula 7",
+                   "model Retro":"formula 8",
+                   "model Exotic":"formula 9"}
 
     DATA_META_DATA_KEYS = ['Reference', 'Author',
                            'FullName', 'Name', 'Comment']
-- 
2.43.0


From 3da3b12c9b5722bd064142f2d1abb584355d0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 31/76] fix: tables were cut off at the first blank line

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 2036990..13dfbf4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -81,7 +81,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From 09820032fb672f1b469516f605c42cccb0af19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 32/76] fix: valid_file_name created files outside of its
 temporary directory

---
 src/dispersion/io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 13dfbf4..2fb9a8f 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -238,15 +238,18 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename or "\0" in filename:
+        # a path would lead out of the temporary directory
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-            open(file_path, 'r')
-            return True
+            with open(file_path, 'r'):
+                return True
         except IOError:
             try:
-                open(file_path, 'w')
-                return True
+                with open(file_path, 'w'):
+                    return True
             except IOError:
                 return False
 
-- 
2.43.0


From b7f44a8eb3082be09e26cdb4d77a2082500f1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 33/76] fix: missing configuration file raised ValueError
 instead of using defaults

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..c6c0c59 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 5747ae0f6d6007a2175e66416c895190e5187d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:26 +0000
Subject: [PATCH 34/76] fix: user configuration directory could not be created

---
 src/dispersion/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index c6c0c59..6c5d2b0 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -82,8 +82,7 @@ def _get_user_config_dir():
         home_dir = os.environ["HOME"]
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
-    if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+    os.makedirs(config_dir, exist_ok=True)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 9e4309388457b199010c52aa8440cc241d15feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 35/76] fix: default path was parsed as yaml

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 6c5d2b0..c7657f4 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ""
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From 10efbabf1f613a748cc2196016a19b90678499f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 36/76] fix: setup failed if the root directory did not exist

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From f214fedf387c4906488ea8fa54c3498e01c1f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:50 +0000
Subject: [PATCH 37/76] fix: existing database with catalog-nk.yml was disabled
 by setup

---
 src/dispersion/scripts/setup_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..85fbce2 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -192,7 +192,9 @@ def install_rii(module_dir, ask_confirm=True):
                           " not present: {}".format(database_dir) +
                           " refractive index info module will be disabled")
             return False
-        database_file = os.path.join(database_dir, "library.yml")
+        database_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not os.path.isfile(database_file):
+            database_file = os.path.join(database_dir, "library.yml")
         if not os.path.isfile(database_file):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
-- 
2.43.0


From 8e266b5532ccd0cab84c5d700af27e6d4f6a3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:56 +0000
Subject: [PATCH 38/76] fix: catalogue could not be rebuilt with pandas 2 and
 later

---
 src/dispersion/catalogue.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..aa50ec9 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -133,7 +130,7 @@ class Catalogue(object):
         all_modules = {'RefractiveIndexInfo':self.read_ri_info_db,
                        'Filmetrics':self.read_filmetrics_db,
                        'UserData':self.read_user_data_db}
-        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        dframes = []
         for module, valid in config_modules.items():
             if valid:
                 if module in rebuild or rebuild == 'All':
@@ -142,18 +139,10 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    dframes.append(dframe)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    dframes.append(dframe)
 
             else:
                 if rebuild == module:
@@ -161,7 +150,10 @@ class Catalogue(object):
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
-        return df_new
+        dframes = [dframe for dframe in dframes if len(dframe) > 0]
+        if len(dframes) == 0:
+            return pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        return pd.concat(dframes, sort=False, ignore_index=True)
 
     def view_interactive(self):
         """
-- 
2.43.0


From 430e510b6258ed1a2362fa8437e519bbe13045ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 39/76] fix: rebuild=None raised TypeError

---
 src/dispersion/catalogue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index aa50ec9..9d5c64e 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -93,6 +93,8 @@ class Catalogue(object):
 
 
     def __init__(self, config=None, rebuild="None"):
+        if rebuild is None:
+            rebuild = "None"
         if config is None:
             config = get_config()
         validate_config(config)
-- 
2.43.0


From 89afbba70e7dae72811cb6f1e1bae9899e166955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:01 +0000
Subject: [PATCH 40/76] fix: register_alias failed for data frames and accepted
 rows that do not exist

---
 src/dispersion/catalogue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 9d5c64e..b329d2f 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -220,13 +220,18 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if len(row_id.index) != 1:
+                raise ValueError("an alias must refer to a single row, not " +
+                                 "{} rows".format(len(row_id.index)))
+            index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
         if index is None:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
+        if index not in self.database.index:
+            raise ValueError("catalogue has no row {}".format(index))
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
-- 
2.43.0


From 693710d171fa34f1e6d11543f87ce77d6ba7dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 41/76] fix: alias returned the wrong material if rows were
 filtered or sorted

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index b329d2f..bec51f2 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -250,7 +250,7 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.iloc[row_index[0], :]
+            row = self.database.loc[row_index[0], :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From 5dfb58f3198f7e5c5d081da753953f753b63bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:29 +0000
Subject: [PATCH 42/76] fix: catalogue bounds were not in the unit of the
 catalogue row

---
 src/dispersion/catalogue.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index bec51f2..376839e 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -274,6 +274,23 @@ class Catalogue(object):
                                            unit=unit)
 
 
+    @staticmethod
+    def _get_row_range(mat, content_dict):
+        """valid range of a material in the spectrum type and unit of its row
+
+        the data file may define a spectrum type and unit of its own
+        """
+        spectrum = Spectrum(mat.get_maximum_valid_range(),
+                            spectrum_type=mat.defaults['spectrum_type'],
+                            unit=mat.defaults['unit'])
+        valid_range = spectrum.convert_to(content_dict['SpectrumType'],
+                                          content_dict['Unit'])
+        if not Spectrum.check_type(mat.defaults['spectrum_type'],
+                                   content_dict['SpectrumType']):
+            # all other spectrum types are reciprocal to wavelength
+            valid_range = valid_range[::-1]
+        return valid_range
+
     def read_ri_info_db(self, db_path):
         """read the file structure provided by the refractiveindex.info
         website"""
@@ -358,7 +375,7 @@ class Catalogue(object):
                                 "Module":"RefractiveIndexInfo"}
                 content_dict['SpectrumType'] = 'wavelength'
                 content_dict['Unit'] = 'micrometer'
-                valid_range = mat.get_maximum_valid_range()
+                valid_range = self._get_row_range(mat, content_dict)
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
                 content_dict['Reference'] = mat.meta_data['Reference']
@@ -409,7 +426,7 @@ class Catalogue(object):
             content_dict['Reference'] = mat.meta_data['Reference']
             content_dict['SpectrumType'] = "wavelength"
             content_dict['Unit'] = 'nanometer'
-            valid_range = mat.get_maximum_valid_range()
+            valid_range = self._get_row_range(mat, content_dict)
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
             content_dict['Path'] = os.path.normpath(filename)
-- 
2.43.0


From 08afc7204eda97caea255e00a692995b81919dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:22 +0000
Subject: [PATCH 43/76] fix: comparing a material with one read from file
 raised KeyError

---
 src/dispersion/material.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 16cee74..a805370 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -431,6 +431,7 @@ class Material():
         self.meta_data['Name'] = file_dict['MetaData']['Name']
         self.meta_data['FullName'] = file_dict['MetaData']['FullName']
         self.meta_data['Author'] = file_dict['MetaData']['Author']
+        self.meta_data['Alias'] = ""
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
-- 
2.43.0


From 852cfd3bd3f3ebf2c87a63a2a05ae398ba3b88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 44/76] fix: effective media had no meta data and could not be
 written

---
 src/dispersion/material.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a805370..15bfc7e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -956,6 +956,15 @@ class Material():
 class EffectiveMedium(Material):
 
     def __init__(self, spectrum, material1, material2, filling_fraction):
+        self.meta_data = {'Reference': "",
+                          'Comment': "",
+                          'Name': "",
+                          'FullName': "",
+                          'Author': "",
+                          'Alias': "",
+                          'MetaComment': "",
+                          'Specification': {}}
+        self._file_data = None
         self.data = {'name': "",
                      'real': None,
                      'imag': None,
-- 
2.43.0


From 6ec368ac54cd79f6c1f566d71f6ae8a5de7ed930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:26 +0000
Subject: [PATCH 45/76] fix: effective media converted the caller's spectrum in
 place

---
 src/dispersion/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 15bfc7e..7f55d5a 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -995,8 +995,8 @@ class Simple(EffectiveMedium):
         eps_base = self.mat1.get_permittivity(self.spectrum)
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -1013,8 +1013,8 @@ class MaxwellGarnett(EffectiveMedium):
         if np.any(abs(factor_down)) < small_number_cutoff:
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -1033,8 +1033,8 @@ class Bruggeman(EffectiveMedium):
         eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
-- 
2.43.0


From f22d6d737026c02ec137e29e9d647f6e339982d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:28 +0000
Subject: [PATCH 46/76] fix: singular Maxwell-Garnett mixtures were not
 detected

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7f55d5a..338a4ed 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -1010,7 +1010,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From 1eb679a150b1e209e85ad1dd89cda940b4698701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:13 +0000
Subject: [PATCH 47/76] fix: Bruggeman lost solutions due to rounding and
 failed for scalars

---
 src/dispersion/material.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 338a4ed..c9e2f82 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -1028,11 +1028,10 @@ class Bruggeman(EffectiveMedium):
         solution2 = self._get_bruggeman_solution2(eps_b, eps_a)
         self.sol1 = solution1
         self.sol2 = solution2
-        indices1 = np.imag(solution1) >= 0.0
-        indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
-        eps_eff[indices2] = solution2[indices2]
-        eps_eff[indices1] = solution1[indices1]
+        # rounding may leave a lossless solution with a tiny negative part
+        indices1 = ((np.imag(solution1) >= 0.0) |
+                    (np.imag(solution1) >= np.imag(solution2)))
+        eps_eff = np.where(indices1, solution1, solution2)
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
         table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
-- 
2.43.0


From 1c37e4fee86c2a144eb71cd0c61c17998b4e8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:15 +0000
Subject: [PATCH 48/76] fix: failed extrapolation changed the real part of the
 material

---
 src/dispersion/material.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index c9e2f82..ac0ccf7 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -292,12 +292,15 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            new_data = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                new_data[data_name] = Extrapolation(self.data[data_name],
+                                                    new_spectrum,
+                                                    spline_order=spline_order)
+            # do not extrapolate only one part if the other one fails
+            self.data.update(new_data)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From 4016b4896f91bcd8fec2400e294d8edd6655d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 49/76] fix: plotting a single value raised AttributeError

---
 src/dispersion/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index ac0ccf7..57cae9d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -787,10 +787,10 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
+        if np.size(spectrum.values) == 1:
+            color = axes._get_lines.get_next_color()
             plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
+            color = axes._get_lines.get_next_color()
             plt.axhline(data_i, label=labels[1], ls='--', color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
-- 
2.43.0


From 0c050e21e2753375711a82a918c07eb1824fffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 50/76] fix: interrupted write destroyed an existing material
 or configuration file

---
 src/dispersion/io.py | 71 +++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 2fb9a8f..8792cc4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -21,6 +21,8 @@ print_yaml_string
     print a dict in yaml format to stdout
 prepend_text_to_file
     add text to start of a file
+replace_file
+    write a file such that it is never left incomplete
 valid_file_name
     check if file name is valid for this operating system
 
@@ -35,8 +37,10 @@ import os
 import sys
 import codecs
 import re
+import shutil
 import tempfile
 from collections import OrderedDict
+from contextlib import contextmanager
 import numpy as np
 USE_RUAMEL = True
 try:
@@ -181,6 +185,28 @@ def read_yaml_string(string_data):
             yaml_data = yaml.safe_load(string_data)
     return yaml_data
 
+@contextmanager
+def replace_file(file_path):
+    """context for writing a file such that it is never left incomplete.
+
+    Yields the path of a file with the same name in a temporary directory next
+    to the file. It replaces the file at file_path once it is completely
+    written. If an error occurs the file at file_path is left as it was.
+
+    Parameters
+    ----------
+    file_path: str
+        path of the file to be replaced
+    """
+    file_path = os.path.realpath(file_path)
+    dir_path, file_name = os.path.split(file_path)
+    with tempfile.TemporaryDirectory(dir=dir_path, suffix=".tmp") as temp_dir:
+        temp_path = os.path.join(temp_dir, file_name)
+        yield temp_path
+        if os.path.exists(file_path):
+            shutil.copymode(file_path, temp_path)
+        os.replace(temp_path, file_path)
+
 def write_yaml_file(file_path, dict_like):
     """write a dict_like object to a file using the given file path.
 
@@ -191,14 +217,15 @@ def write_yaml_file(file_path, dict_like):
     dict_like: dict or OrderedDict
         the data to be written to file
     """
-    with open(file_path, 'w', encoding='utf8') as fpt:
-        if USE_RUAMEL:
-            yaml_obj = YAML()
-            yaml_obj.indent(mapping=4, sequence=4, offset=2)
-            scalarstring.walk_tree(dict_like)
-            yaml_obj.dump(dict_like, fpt)
-        else:
-            yaml.dump(dict_like, fpt)
+    with replace_file(file_path) as temp_path:
+        with open(temp_path, 'w', encoding='utf8') as fpt:
+            if USE_RUAMEL:
+                yaml_obj = YAML()
+                yaml_obj.indent(mapping=4, sequence=4, offset=2)
+                scalarstring.walk_tree(dict_like)
+                yaml_obj.dump(dict_like, fpt)
+            else:
+                yaml.dump(dict_like, fpt)
 
 def print_yaml_string(dict_like):
     """print a dict_like object to stdout in yaml format.
@@ -610,16 +637,18 @@ class Writer():
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
-            self._write_text_file()
-            if not meta_comment == "":
-                comment = ';' if self.extension == '.nk' else '#'
-                prepend_text_to_file(self.file_path, meta_comment,
-                                     comment=comment)
+            with replace_file(self.file_path) as temp_path:
+                self._write_text_file(temp_path)
+                if not meta_comment == "":
+                    comment = ';' if self.extension == '.nk' else '#'
+                    prepend_text_to_file(temp_path, meta_comment,
+                                         comment=comment)
         elif self.extension == '.yml':
-            self._write_yaml_file()
-            if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment,
-                                     extra_line=True)
+            with replace_file(self.file_path) as temp_path:
+                self._write_yaml_file(temp_path)
+                if not meta_comment == "":
+                    prepend_text_to_file(temp_path, meta_comment,
+                                         extra_line=True)
         else:
             raise ValueError("extension" +
                              "{} not supported".format(self.extension) +
@@ -637,7 +666,7 @@ class Writer():
         if len(datasets) > 0:
             self.file_dict['Datasets'] = datasets
 
-    def _write_text_file(self):
+    def _write_text_file(self, file_path):
         """
         writer for .txt, .csv and .nk files
         """
@@ -685,7 +714,7 @@ class Writer():
             comments = "; "
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
-        np.savetxt(self.file_path, data,
+        np.savetxt(file_path, data,
                    delimiter=delimiter,
                    header=header,
                    comments=comments,
@@ -693,7 +722,7 @@ class Writer():
                    encoding='utf-8')
 
 
-    def _write_yaml_file(self):
+    def _write_yaml_file(self, file_path):
         """
         writer for .yml files
         """
@@ -765,4 +794,4 @@ class Writer():
                     yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
-        write_yaml_file(self.file_path, yaml_dict)
+        write_yaml_file(file_path, yaml_dict)
-- 
2.43.0


From 23002c10bae84b29d4a2c4c27b03c30ebe82383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 51/76] fix: interrupted save destroyed the existing catalogue

---
 src/dispersion/catalogue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 376839e..02a89e7 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -24,7 +24,7 @@ import pandas as pd
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
 from dispersion.config import get_config, validate_config
-from dispersion.io import read_yaml_file
+from dispersion.io import read_yaml_file, replace_file
 
 def rebuild_catalogue():
     valid_ans = False
@@ -205,8 +205,9 @@ class Catalogue(object):
     def save_to_file(self):
         """save the pandas dataframe to the root path of the catalogue
         file structure"""
-        self.database.to_csv(os.path.join(self.base_path, self.file_name),
-                             index=False, index_label='Index')
+        file_path = os.path.join(self.base_path, self.file_name)
+        with replace_file(file_path) as temp_path:
+            self.database.to_csv(temp_path, index=False, index_label='Index')
 
     def register_alias(self, row_id, alias):
         """create an alias for a material to easily access it from the
-- 
2.43.0


From da3159b52ce1dac02256f423574df7a5c5ccc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:47 +0000
Subject: [PATCH 52/76] fix: fixed values accepted an invalid spectrum type or
 unit

---
 src/dispersion/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 57cae9d..a3fe5fc 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -317,6 +317,8 @@ class Material():
         inputs: dict
             the dict holding the fixed value
         '''
+        # raises ValueError if spectrum type or unit is invalid
+        Spectrum(1.0, **self.defaults)
         if inputs['fixed_n'] is not None:
             self.data['name'] = 'nk'
             self.data['real'] = Constant(inputs['fixed_n'])
-- 
2.43.0


From a134b5883395c4e28356497d5e28244eb87a576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 53/76] fix: range limits converted with convert_to were
 rejected

---
 src/dispersion/spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 0d3b996..936e70e 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -234,6 +234,12 @@ class Spectrum(object):
         valid = [np.min(self.standard_rep), np.max(self.standard_rep)]
         requested = [np.min(other.standard_rep), np.max(other.standard_rep)]
         at_limit = np.isclose(requested, valid, rtol=1e-9, atol=0.0)
+        # the limits as convert_to rounds them in the unit of the request
+        limits = Spectrum(self.convert_to(other.spectrum_type, other.unit),
+                          spectrum_type=other.spectrum_type,
+                          unit=other.unit).standard_rep
+        limits = [np.min(limits), np.max(limits)]
+        at_limit |= np.isclose(requested, limits, rtol=1e-9, atol=0.0)
         below = requested[0] < valid[0] and not at_limit[0]
         above = requested[1] > valid[1] and not at_limit[1]
         if below or above:
-- 
2.43.0


From 7a881a5e892f4f19555db1cf1531f3082caf0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 54/76] fix: Bruggeman picked the wrong solution for almost
 lossless media

---
 src/dispersion/material.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a3fe5fc..b920df4 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -1034,8 +1034,7 @@ class Bruggeman(EffectiveMedium):
         self.sol1 = solution1
         self.sol2 = solution2
         # rounding may leave a lossless solution with a tiny negative part
-        indices1 = ((np.imag(solution1) >= 0.0) |
-                    (np.imag(solution1) >= np.imag(solution2)))
+        indices1 = np.imag(solution1) >= -1e-12*np.abs(solution1)
         eps_eff = np.where(indices1, solution1, solution2)
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
         table = np.vstack([[wavelengths],
-- 
2.43.0


From 4af455ad48417673cff8d6131361789e135a9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:59 +0000
Subject: [PATCH 55/76] fix: formula with a single coefficient could not be
 read

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b920df4..07b82f1 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -578,7 +578,8 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        # yaml reads a single coefficient as a number
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From f659798243e943daf273e50144b16d9a3c7b52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 56/76] fix: trailing blanks in the header made type and unit
 invalid

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 8792cc4..bea3848 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -413,7 +413,7 @@ class Reader():
             if len(kwd_arg) == 1:
                 multi_line_comment += line + "\n"
             else:
-                arg = ":".join(kwd_arg[1:]).rstrip("\n\r").lstrip()
+                arg = ":".join(kwd_arg[1:]).strip()
                 #arg = kwd_arg[1].rstrip("\n\r").lstrip()
                 valid_key_val = False
                 for key in Reader.FILE_META_DATA_KEYS:
-- 
2.43.0


From 9f2a23470d9f1721a1cda73b055f8e1c0423ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 57/76] fix: tables with repeated spectrum values could not be
 read

---
 src/dispersion/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index bea3848..df68a94 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -95,7 +95,7 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
+    if not validate_table(numeric_table):
         numeric_table = fix_table(numeric_table)
     return numeric_table
 
@@ -111,8 +111,10 @@ def validate_table(tabulated_data):
 
 def fix_table(tabulated_data):
     '''
-    throw out rows which break strict monotonicity
+    sort rows and throw out rows which break strict monotonicity
     '''
+    order = np.argsort(tabulated_data[:, 0], kind='stable')
+    tabulated_data = tabulated_data[order, :]
     n_cols = tabulated_data.shape[1]
     new_rows = [tabulated_data[0, :]]
     last_valid = tabulated_data[0, 0]
-- 
2.43.0


From e6ffdaf070436125c049d2a2e1613390a9b1d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:49 +0000
Subject: [PATCH 58/76] fix: rebuilding a disabled module given in a list was
 silently ignored

---
 src/dispersion/catalogue.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 02a89e7..883ef64 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -147,9 +147,9 @@ class Catalogue(object):
                     dframes.append(dframe)
 
             else:
-                if rebuild == module:
-                    raise ValueError("Tried to rebuild module" +
-                                     "{}".format(rebuild) +
+                if rebuild != 'All' and module in rebuild:
+                    raise ValueError("Tried to rebuild module " +
+                                     "{}".format(module) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
         dframes = [dframe for dframe in dframes if len(dframe) > 0]
-- 
2.43.0


From 5817d36d390b53e20226a62e065ed9f7c6252929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 59/76] fix: .nk files were left out of the catalogue

---
 src/dispersion/catalogue.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 883ef64..b41b448 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -400,8 +400,8 @@ class Catalogue(object):
         return self._read_text_db(db_path, "UserData")
 
     def _read_text_db(self, db_path, database_name):
-        """internal function used to load all txt, csv or yml
-        files in a folder"""
+        """internal function used to load all txt, csv, nk or
+        yml files in a folder"""
         onlyfiles = [f for f in os.listdir(db_path)
                      if os.path.isfile(os.path.join(db_path, f))]
 
@@ -409,7 +409,7 @@ class Catalogue(object):
         database_list = []
         for filename in onlyfiles:
             [name, ext] = os.path.splitext(filename)
-            allowed_ext = {'.txt', '.csv', '.yml'}
+            allowed_ext = {'.txt', '.csv', '.nk', '.yml'}
             if ext not in allowed_ext:
                 continue
 
-- 
2.43.0


From 09be9f4aecf0cb0b6265e9b6246c417c29232f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:21 +0000
Subject: [PATCH 60/76] fix: constant data without type and unit ignored those
 given by the caller

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 07b82f1..50f499e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -467,7 +467,7 @@ class Material():
         if identifier not in parts:
             raise ValueError("constant data <{}> ".format(identifier) +
                              "not supported")
-        kws = {}
+        kws = dict(self.defaults)
         if dataset['ValidRange']:
             kws['valid_range'] = [float(val) for val in
                                   dataset['ValidRange'].split()]
-- 
2.43.0


From f9a5fe4086d8c76bd6ed6709368fc0e001478027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 61/76] fix: a not-a-number among the requested points switched
 off the range check

---
 src/dispersion/spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 936e70e..25ae5df 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -240,8 +240,9 @@ class Spectrum(object):
                           unit=other.unit).standard_rep
         limits = [np.min(limits), np.max(limits)]
         at_limit |= np.isclose(requested, limits, rtol=1e-9, atol=0.0)
-        below = requested[0] < valid[0] and not at_limit[0]
-        above = requested[1] > valid[1] and not at_limit[1]
+        # written such that not-a-number is never within the limits
+        below = not (requested[0] >= valid[0] or at_limit[0])
+        above = not (requested[1] <= valid[1] or at_limit[1])
         if below or above:
             out_of_range = other_min if other_min < self_min else other_max
         if out_of_range is not None:
-- 
2.43.0


From 287a711ac8e79f045b74400558704b960d417eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 62/76] fix: a data set of a file without type or unit falls
 back to those of the caller, not to those of the previous data set

---
 src/dispersion/material.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 50f499e..765ca48 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -442,7 +442,13 @@ class Material():
         datasets = file_dict['Datasets']
         #self.dataTypes = []
         #self.dataSets = []
+        caller_defaults = dict(self.defaults)
         for dataset in datasets:
+            # a data set does not inherit the unit of the previous one
+            if not dataset['SpectrumType']:
+                dataset['SpectrumType'] = caller_defaults['spectrum_type']
+            if not dataset['Unit']:
+                dataset['Unit'] = caller_defaults['unit']
             data_type, identifier = dataset['DataType'].split()
             #meta_data = dataset['MetaData']
             if data_type == 'tabulated':
-- 
2.43.0


From c98452ddcc692487050b2ae6eade3b9001c140fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:23 +0000
Subject: [PATCH 63/76] fix: database edits with an alias used twice are
 refused

---
 src/dispersion/catalogue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index b41b448..7a6c237 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -192,7 +192,7 @@ class Catalogue(object):
         used"""
         if self.config['Interactive'] is False:
             raise ValueError("interactivity disabled in config")
-        self.database = self.qgrid_widget.get_changed_df()
+        self.set_database(self.qgrid_widget.get_changed_df())
 
     def get_database(self):
         """returns the pandas data frame"""
@@ -200,6 +200,11 @@ class Catalogue(object):
 
     def set_database(self, database):
         """set the pandas data frame"""
+        aliases = [alias for alias in database.loc[:, 'Alias']
+                   if isinstance(alias, str) and alias != ""]
+        if len(set(aliases)) < len(aliases):
+            raise ValueError("an alias must refer to a single row of the " +
+                             "catalogue")
         self.database = database
 
     def save_to_file(self):
-- 
2.43.0


From 2b3a36c000e43929ecf813001c9b7ad252e8b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 64/76] fix: an empty identifier is no alias

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 7a6c237..68a94aa 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -252,7 +252,7 @@ class Catalogue(object):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
             row_index = self.database.index[bool_list]
-            if row_index.size == 0:
+            if row_index.size == 0 or identifier == "":
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-- 
2.43.0


From f06c514998097e1c8d461ce770d1242904d2680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:03 +0000
Subject: [PATCH 65/76] fix: tables and model parameters are copied, later
 changes of the caller's arrays do not change the data

---
 src/dispersion/spectral_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 82c7149..48e11b2 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -46,6 +46,7 @@ Notes
 for more information on models see https://refractiveindex.info/about
 """
 import re
+from copy import copy
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
 from dispersion.spectrum import Spectrum
@@ -217,7 +218,7 @@ class Interpolation(SpectralData):
 
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
-        self.data = data
+        self.data = np.array(data)
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
         max_range = np.max(data[:, 0])
@@ -260,7 +261,7 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        self.model_parameters = copy(model_parameters)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From a932d897a33d56fcd0d8d872f3f6b0c116f69608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:20 +0000
Subject: [PATCH 66/76] fix: extrapolation of a model whose valid range is
 given in descending order

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 48e11b2..0ca2cf3 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -151,7 +151,7 @@ class Extrapolation(SpectralData):
         extrap_values = extended_spectrum.convert_to(
             spectrum_type= base_spectrum.spectrum_type,
             unit= base_spectrum.unit)
-        new_range = np.array(base_spectrum.values)
+        new_range = np.sort(base_spectrum.values)
         if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             if extrap_values.size > 2:
-- 
2.43.0


From 5230902946b83bcb0254255221fbb013eb8e7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:43 +0000
Subject: [PATCH 67/76] fix: a writer can write more than once

---
 src/dispersion/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index df68a94..b92c2d6 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -635,7 +635,7 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
-        meta_comment = self.file_dict['MetaData'].pop('MetaComment')
+        meta_comment = self.file_dict['MetaData']['MetaComment']
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
@@ -747,6 +747,9 @@ class Writer():
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
             md = self.file_dict['MetaData'][key]
+            if key == 'MetaComment':
+                # written above the data by write_file
+                continue
             if key in Writer.KEY_ALIASES:
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
-- 
2.43.0


From 563c561bab8392c48bb02c29e747c5ebbd908fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:01 +0000
Subject: [PATCH 68/76] fix: integer model parameters with negative exponents

---
 src/dispersion/spectral_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 0ca2cf3..9fdab63 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -46,7 +46,6 @@ Notes
 for more information on models see https://refractiveindex.info/about
 """
 import re
-from copy import copy
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
 from dispersion.spectrum import Spectrum
@@ -261,7 +260,7 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = copy(model_parameters)
+        self.model_parameters = np.array(model_parameters, dtype=float)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From 107ebe85adc4282cee8e438492db17d30317e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 69/76] fix: Bruggeman returned the wrong solution for a pure
 metal

---
 src/dispersion/material.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 765ca48..b451a29 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -1040,8 +1040,10 @@ class Bruggeman(EffectiveMedium):
         solution2 = self._get_bruggeman_solution2(eps_b, eps_a)
         self.sol1 = solution1
         self.sol2 = solution2
-        # rounding may leave a lossless solution with a tiny negative part
-        indices1 = np.imag(solution1) >= -1e-12*np.abs(solution1)
+        # of the two solutions only one is passive, rounding may leave both
+        # solutions of a lossless medium with a tiny imaginary part
+        rounding = 1e-12*(np.abs(solution1) + np.abs(solution2))
+        indices1 = np.imag(solution1) >= np.imag(solution2) - rounding
         eps_eff = np.where(indices1, solution1, solution2)
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
         table = np.vstack([[wavelengths],
-- 
2.43.0


From ba2e7502197db95f4499003e7359d332115a7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 70/76] fix: a filling fraction that is not a number was
 accepted

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b451a29..97e182b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -988,7 +988,7 @@ class EffectiveMedium(Material):
         self.mat1 = material1
         self.mat2 = material2
         self.frac = filling_fraction
-        if self.frac < 0. or self.frac > 1.0:
+        if not 0. <= self.frac <= 1.0:
             raise ValueError("filling fraction must be between "+
                              "0. and 1.")
 
-- 
2.43.0


From 90f9315f99b9010e0c6041963468a6c2eb4a19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:44 +0000
Subject: [PATCH 71/76] fix: extrapolation to two values on the same side
 depended on their order

---
 src/dispersion/spectral_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 9fdab63..1125e0f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -156,8 +156,13 @@ class Extrapolation(SpectralData):
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
+            base_range = new_range
             for extrap_val in extrap_values:
-                new_range = self.validate_extrap_val(extrap_val, new_range)
+                # both values may lie on the same side, in any order
+                extended = self.validate_extrap_val(extrap_val,
+                                                    np.array(base_range))
+                new_range = np.array([min(new_range[0], extended[0]),
+                                      max(new_range[1], extended[1])])
         else:
             # upper or lower
             new_range = self.validate_extrap_val(extrap_values, new_range)
-- 
2.43.0


From 84f1d4a2ad8aa11140410511a6c2c69822d6509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:44 +0000
Subject: [PATCH 72/76] fix: aliases in a catalogue with repeated row labels

---
 src/dispersion/catalogue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 68a94aa..4b1d673 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -238,6 +238,9 @@ class Catalogue(object):
                              " not understood")
         if index not in self.database.index:
             raise ValueError("catalogue has no row {}".format(index))
+        if np.sum(self.database.index == index) > 1:
+            raise ValueError("row {} of the catalogue ".format(index) +
+                             "is not unique")
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
@@ -256,7 +259,8 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.loc[row_index[0], :]
+            # labels need not be unique
+            row = self.database.iloc[bool_list.index(True), :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From 6bddd65e3c33ddfa85a6863e3952dedf55357d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:11 +0000
Subject: [PATCH 73/76] fix: metadata entries without value in a yaml file

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index b92c2d6..63a0c06 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -484,6 +484,9 @@ class Reader():
         for kwd in yaml_dict:
             arg = yaml_dict[kwd]
             kwd = kwd.upper()
+            if arg is None and kwd != 'DATA':
+                # an entry without value keeps its default
+                continue
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 4c256395360134acbd63da9f41b11fb91a2e517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:43 +0000
Subject: [PATCH 74/76] fix: check_unit takes the aliases of a unit into
 account

---
 src/dispersion/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 25ae5df..ad05b6c 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -273,6 +273,9 @@ class Spectrum(object):
         """test if two unit strings are equal taking aliases
         into account"""
         test_str = unit.lower()
+        for aliases in Spectrum.UNIT_TYPES.values():
+            if is_unit.lower() in aliases:
+                return test_str in aliases
         return test_str == is_unit
 
     @staticmethod
-- 
2.43.0


From 42957b5d9f10b0c867bf7e08a6ef7715d4c0f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:08 +0000
Subject: [PATCH 75/76] fix: a file that mixes refractive index and
 permittivity data is refused

---
 src/dispersion/material.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 97e182b..e9a6617 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -443,6 +443,7 @@ class Material():
         #self.dataTypes = []
         #self.dataSets = []
         caller_defaults = dict(self.defaults)
+        previous_name = ""
         for dataset in datasets:
             # a data set does not inherit the unit of the previous one
             if not dataset['SpectrumType']:
@@ -463,6 +464,10 @@ class Material():
                 self._process_constant_data(dataset, identifier)
             else:
                 raise ValueError("data type {} not supported".format(data_type))
+            if previous_name not in ("", self.data['name']):
+                raise ValueError("refractive index and permittivity data " +
+                                 "cannot be combined")
+            previous_name = self.data['name']
 
     def _process_constant_data(self, dataset, identifier):
         """
-- 
2.43.0


From 36fa0e80a2e072414fca8674db7bfc20843fb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:10 +0000
Subject: [PATCH 76/76] fix: comparing materials with metadata entries of their
 own

---
 src/dispersion/material.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index e9a6617..f4cbbbd 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -146,10 +146,8 @@ class Material():
         if not isinstance(other, Material):
             return False
 
-        for meta_data_key, meta_data_value in self.meta_data.items():
-            meta_data_value_other = other.meta_data[meta_data_key]
-            if not meta_data_value == meta_data_value_other:
-                return False
+        if not self.meta_data == other.meta_data:
+            return False
 
         if not self.data['name'] == other.data['name']:
             return False
-- 
2.43.0

