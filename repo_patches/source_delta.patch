From fd8c7e06e07f375a6e08b431ac83cd5b86fbbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 01/51] fix: compute the co-rotating cyclic frequency of
 inertial angular input from the angular frequency

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From 98707f46c3922e67ff7814b7fd2b65d29e846113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 02/51] fix: make mode frequencies dimensionless in every
 frequency unit

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..c33cdcc 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -941,8 +941,9 @@ class FrequencyHandler:
         # store local link to first mode dictionary containing stellar evolution model information
         _md = self._mode_dicts[0]
         # compute the correctly dimensioned dimensioning factor for frequencies in the requested frequency unit
-        dim_factor = _cfc(
-            np.sqrt((_md['R_star']) ** (3.0) / (_md['G'] * _md['M_star']))
+        # (convert the dynamical frequency itself: its reciprocal does not scale in the same way)
+        dim_factor = 1.0 / _cfc(
+            np.sqrt((_md['G'] * _md['M_star']) / (_md['R_star']) ** (3.0))
         )  # IN REQUESTED UNITS! (not necessarily CYCLIC!!!)
         # non-adiabatic vs. adiabatic
         if nonadiabatic:
-- 
2.43.0


From bc4b9eb595b6b18c3aad9e803face3f48d3846c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 03/51] fix: accept dimensionless non-adiabatic input whose
 units differ from the adiabatic input

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index c33cdcc..1eb6c37 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1040,7 +1040,9 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(
+                    _m_dict_n, self._requested_units, no_exit=True
+                )
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From 633a4232b1a8f5d68a20e9b2b68e462bfbd1311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 04/51] fix: compute the meridional orders of the modes of a
 triad, for any triad of mode numbers

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..85974b4 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -173,8 +173,8 @@ class PreCheckQuadratic:
         _m_list = self._m_list[lm_index]
         # return the meridional order list
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l, _m)
+            for _l, _m, _ in zip(_l_list, _m_list, my_mode_nrs)
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From 3b32947cc7385f4bad5871c527716835d554f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 05/51] fix: use the default conjugation for each of several
 triads

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 85974b4..e28820b 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
-- 
2.43.0


From c765ba9c278b8dbc75704a14f6f37f655aef122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 06/51] fix: close the string literal that keeps lam_tar_gyre
 from being imported

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 47a83f3b9379fd5dd2875eb5b6fb3f5b9194e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 07/51] fix: write a single minus sign in the names of the GYRE
 eigenvalue tables

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From f896402dc03525a671b71394ac1c1bdd279a6e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 08/51] fix: convert mode frequencies that are in hertz already

---
 .../enumeration_freq_converter_normalization.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..21898e0 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -68,7 +68,7 @@ class EnumerationGYREFreqConverter(Enum):
         * np.sqrt(obj._G * obj._M_star / (obj._R_star ** (3.0))),
         None,
     )
-    HZ = (None, None)
+    HZ = (lambda val, _: val, None)
     UHZ = (lambda val, _: val / 1.0e6, None)
     RAD_PER_SEC = (lambda val, _: val / (2.0 * np.pi), None)
     CYC_PER_DAY = (lambda val, _: val / 86400.0, None)
-- 
2.43.0


From 7d2c02c222e571c5b3e084814f98afbab8437e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 09/51] fix: convert dimensionless mode frequencies to hertz,
 not to radians per second

---
 .../enumeration_freq_converter_normalization.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index 21898e0..d3d7a96 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -65,7 +65,8 @@ class EnumerationGYREFreqConverter(Enum):
     # --> second function/None: conversion from array and function input
     NONE = (
         lambda val, obj: val
-        * np.sqrt(obj._G * obj._M_star / (obj._R_star ** (3.0))),
+        * np.sqrt(obj._G * obj._M_star / (obj._R_star ** (3.0)))
+        / (2.0 * np.pi),
         None,
     )
     HZ = (lambda val, _: val, None)
-- 
2.43.0


From bf08b77bf99fdf15b85dfb9143b0fcbcd6f5e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 10/51] fix: take the radial orders of the damped modes from
 their own ranges

---
 .../mode_input_generator/input_generator.py   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/mode_input_generator/input_generator.py b/aesolver/aesolver/mode_input_generator/input_generator.py
index fd8968b..31bad81 100644
--- a/aesolver/aesolver/mode_input_generator/input_generator.py
+++ b/aesolver/aesolver/mode_input_generator/input_generator.py
@@ -8,7 +8,7 @@ import statistics
 import numpy as np
 
 # from custom modules import combination computation objects
-from py_combinations import SingleSetCombos, SymmetricProductCombos
+from py_combinations import CartesianCombos, SingleSetCombos
 
 
 # set up the logger
@@ -90,14 +90,19 @@ class AdNadModeInfoInputGenerator:
         list[tuple]
             Contains tuples of radial orders of second-order combinations of damped modes.
         """
-        # initialize the object
-        my_object = SymmetricProductCombos(
-            A=self._damped_rad_order_range_1,
-            B=self._damped_rad_order_range_2,
-            include_diagonal=include_diagonal,
+        # initialize the object: the first (second) radial order is always that of the first (second) damped mode
+        my_object = CartesianCombos(
+            set_A=self._damped_rad_order_range_1,
+            set_B=self._damped_rad_order_range_2,
         )
+        # generate the combination list: the harmonics follow the other combinations
+        my_combinations = [_c for _c in my_object.l if _c[0] != _c[1]]
+        if include_diagonal:
+            my_combinations += [
+                _c for _c in reversed(my_object.l) if _c[0] == _c[1]
+            ]
         # return the combination list
-        return my_object.l
+        return my_combinations
 
     def _get_damped_combinations_single_range(self) -> list[tuple]:
         """Utility method that generates second-order combinations of radial orders for the damped modes in a parametric resonance.
-- 
2.43.0


From c69c0aac54c3cf8c66677a285ee5c0c45c211c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 11/51] fix: represent each pair of a symmetric product by a
 single tuple

---
 .../py_combinations/symmetric_product.py      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/py-combinations/py_combinations/symmetric_product.py b/py-combinations/py_combinations/symmetric_product.py
index 678fc3d..651d3bd 100644
--- a/py-combinations/py_combinations/symmetric_product.py
+++ b/py-combinations/py_combinations/symmetric_product.py
@@ -31,6 +31,7 @@ class SymmetricProductCombos(GenericCombination):
     # attribute type declarations
     _A: set
     _B: set
+    _ordered_elements: list
     _A_combs: set
     _B_combs: set
     include_diagonal: bool
@@ -47,9 +48,11 @@ class SymmetricProductCombos(GenericCombination):
             logger.exception(
                 f'Input is not iterable and cannot be converted to a set. (A: {A}, B: {B}, include_diagonal: {include_diagonal}) Now exiting.'
             )
+        # fix the order of the elements, so that each pair of elements is represented by a single tuple
+        self._ordered_elements = list(dict.fromkeys([*A, *B]))
         # compute combinations of elements in individual input sets/lists/arrays
-        self._A_combs = set(combinations(A, 2))
-        self._B_combs = set(combinations(B, 2))
+        self._A_combs = self._get_combs(self._A)
+        self._B_combs = self._get_combs(self._B)
         # store whether you want to include overlapping elements
         self.include_diagonal = include_diagonal
         # compute the symmetric product of combinations
@@ -59,14 +62,20 @@ class SymmetricProductCombos(GenericCombination):
         # account for the diagonal input between input sets, if necessary
         self._account_for_diagonal()
 
+    def _get_combs(self, my_set):
+        """Generates the set of pairs of different elements of a set, using the fixed order of the elements."""
+        return set(
+            combinations([_e for _e in self._ordered_elements if _e in my_set], 2)
+        )
+
     def _compute_combinations(self):
         """Compute the generic set of symmetric pairs of elements of two sets/lists/arrays, taking any overlap into account."""
         # compute auxiliary variables
         # - pairs of elements in union of input sets/lists/arrays
-        _A_union_B_combs = set(combinations(self._A | self._B, 2))
+        _A_union_B_combs = self._get_combs(self._A | self._B)
         # - pairs of elements that uniquely exist in the input sets/lists/arrays
-        _A_min_B = set(combinations(self._A - self._B, 2))
-        _B_min_A = set(combinations(self._B - self._A, 2))
+        _A_min_B = self._get_combs(self._A - self._B)
+        _B_min_A = self._get_combs(self._B - self._A)
         # compute different terms that contribute to the list of symmetric pairings between two sets
         _first_term = _A_union_B_combs - (self._A_combs | self._B_combs)
         _second_term = self._A_combs - _A_min_B
-- 
2.43.0


From 35a39107ee5eae60617edd17395a3c740c64a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 12/51] fix: invert the symmetric pairing of equal integers

---
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..1b9dd45 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -49,7 +49,7 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
+    _w = floor(0.5 * np.sqrt(8.0 * (my_sym_number - 1) + 1.0) - 0.5)
     _t = int(((_w * _w) + _w) / 2)
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
-- 
2.43.0


From b2e940f2d89383f3c413e5b996d5e8d2b7116de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 13/51] fix: accept tuples and plain integers in the pairing
 functions and their inverses

---
 py-combinations/pairing_functions/cantor_pairing.py    | 4 ++--
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 py-combinations/pairing_functions/xie_pairing.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..bd33def 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -24,7 +24,7 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = np.array(my_pair) - lowest_integer
     # compute the sum of the mapping integer pair
     int_sum = mapping_pair.sum()
     # compute and return the paired/mapped integer
@@ -54,4 +54,4 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return tuple(_x + lowest_integer for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 1b9dd45..331e0f2 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -54,4 +54,4 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return tuple(_x + lowest_integer - 1 for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..9eda17e 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return (m + lowest_integer - 1, n + lowest_integer - 1)
-- 
2.43.0


From 3f398031e8cc0beb156a6108b3ea48929f0ccf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 14/51] fix: integrals over fewer than two samples vanish
 instead of reading outside the arrays

---
 cpp-numintegrator/num_integrator/num_integration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index ca1f3e4..18f7199 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -193,6 +193,10 @@ double NumericalDoubleInputIntegrator::simpson_parallel() {
  * @brief Perform integration based on selection string.
  */
 double NumericalDoubleInputIntegrator::integrate() {
+  // the integral vanishes if there are fewer than two samples
+  if (this->arr_size < 2) {
+    return 0.0;
+  }
   // switch statement between the different integrations
   switch (this->integration_switch) {
   case IntegrationOptions::trapz: {
-- 
2.43.0


From 3bb11bfe772528f89dccd4d7a5113b41707e924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 15/51] fix: limb darkening of arrays that are not contiguous

---
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..4f37e53 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -30,8 +30,13 @@ def compute(
     ):
     # compute the array size
     cdef int asize = kap.shape[0]
+    # the C++ object works on contiguous memory: use contiguous copies
+    cdef double[::1] kap_contiguous = np.ascontiguousarray(kap)
+    cdef double[::1] ld_values = np.empty(asize, dtype=np.float64)
     # compute the ld function
     _comp(
-        asize, kap, res, myselvar.encode('utf-8'),
+        asize, kap_contiguous, ld_values, myselvar.encode('utf-8'),
         num_threads, paral
         )
+    # store the result in the passed array
+    res[:asize] = ld_values
-- 
2.43.0


From 4773fd858cd95642066890870c91c6f1c85319bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 16/51] fix: pass the bin width of histogram_*_spec_width under
 its parameter name

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..b8b54e7 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..8e958a6 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From a8bcc0bbf3cc7075f7580eec96c5025947c2ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 17/51] fix: normalise the cython jackknife likelihood by the
 counts, not by the number of bins alone

---
 .../hogg_jacky/cython_jacky/cy_jacky.py       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index b8b54e7..6499424 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -430,6 +430,12 @@ def hogg_jackknife_likelihood_cython(
                     if use_parallel
                     else cj_j.cython_jacky_serial_loop
                 )
+                # select the function that computes the empirical probability conversion factor from the bin counts
+                _my_ep_cf_func = (
+                    cj_ep_cf.cython_empirical_probability_conversion_parallel_loop
+                    if use_parallel
+                    else cj_ep_cf.cython_empirical_probability_conversion_serial_loop
+                )
                 # compute the jackknife likelihoods, and update the output values based on the likelihoods
                 for (
                     _my_alpha,
@@ -451,9 +457,7 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
-                    )
+                    _ep_cf = _my_ep_cf_func(_my_bin_values, _my_alpha)
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
                         _my_bin_values, _my_alpha, _bin_width, _ep_cf
@@ -631,6 +635,12 @@ def hogg_jackknife_likelihood_cython_log(
                     if use_parallel
                     else cj_j.cython_variable_bw_jacky_serial_loop
                 )
+                # select the function that computes the empirical probability conversion factor from the bin counts
+                _my_ep_cf_func = (
+                    cj_ep_cf.cython_empirical_probability_conversion_parallel_loop
+                    if use_parallel
+                    else cj_ep_cf.cython_empirical_probability_conversion_serial_loop
+                )
                 # compute the jackknife likelihoods, and update the output values based on the likelihoods
                 for _my_alpha, _my_bin_number in _my_combinations_iter:
                     # get the bin values for this configuration
@@ -644,9 +654,7 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
-                    )
+                    _ep_cf = _my_ep_cf_func(_my_bin_values, _my_alpha)
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
                         _my_bin_values, _my_bin_edges, _my_alpha, _ep_cf
-- 
2.43.0


From 82d8e2f00ce752e4b7b6421fc82c165410dae2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 18/51] fix: verbose linear-bin histograms no longer raise a
 TypeError

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6499424..bfd347a 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -473,7 +473,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 8e958a6..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 02bc9404cf727908ceaad379af15e69f1e9c6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 19/51] fix: the negative-bin check looks at the lowest data
 point in every backend

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index bfd347a..b6dc5cc 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -267,7 +267,7 @@ def _cython_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..02b89e4 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -219,7 +219,7 @@ def _numexpr_histogram_counts(
         # ensure that no negative counts are ever registered (due to mess-up at argmax, for example)
         if additional_checks and (neg_mask := _binning_result < 0).any():
             _idx = np.argwhere(neg_mask)
-            if len(_idx) == 1 and _idx[0] == np.argmax(my_data):
+            if len(_idx) == 1 and _idx[0] == np.argmin(my_data):
                 # mistake was made when counting at argmax, reverse it, by setting the counts in this bin to zero!
                 _binning_result[neg_mask] = 0
             else:
-- 
2.43.0


From 21bf12df16789a5859207a9ad114be7679bad3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 20/51] fix: report the bin phase that was selected for linear
 bins

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..52688c9 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -599,7 +599,7 @@ def hogg_jackknife_likelihood_blas(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index b6dc5cc..88c73c1 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -480,7 +480,7 @@ def hogg_jackknife_likelihood_cython(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 02b89e4..bea7485 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -557,7 +557,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
-- 
2.43.0


From 5ffaa98f256647d5e82101fafce993ae12bdbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 21/51] fix: log-bin numexpr histograms are normalised by the
 data that were binned

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index bea7485..83944f9 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,7 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                             },
@@ -763,7 +763,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                                 'ha': hist_edges[1:],
-- 
2.43.0


From ee52304acff1f81c8596ed63a39fdc6b0f534d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 22/51] fix: log-bin blas densities are divided by the width of
 each bin

---
 histogram_maker/hogg_jacky/blas_jacky.py | 34 +++++++++++-------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 52688c9..a7bd2b4 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -145,16 +145,15 @@ def empirical_probability_histogram_blas(
         additional_checks=additional_checks,
         my_data_min=my_data_min,
     )
-    # compute empirical probability histogram and return it together with the bin edges
-    try:
-        return (
-            dscal(1.0 / my_data.shape[0], count_histogram),
-            bin_edges,
-            bin_width,
-        )
-    except AttributeError:
-        # returned value from histogram_blas = None, None, None
+    # returned value from histogram_blas = None, None, None
+    if count_histogram is None:
         return None, None, None
+    # compute empirical probability histogram and return it together with the bin edges
+    return (
+        dscal(1.0 / my_data.shape[0], count_histogram),
+        bin_edges,
+        bin_width,
+    )
 
 
 def empirical_density_histogram_blas(
@@ -208,16 +207,15 @@ def empirical_density_histogram_blas(
         additional_checks=additional_checks,
         my_data_min=my_data_min,
     )
-    # compute empirical density histogram and return it together with the bin edges
-    try:
-        return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
-            bin_edges,
-            bin_width,
-        )
-    except AttributeError:
-        # returned value from histogram_blas = None, None, None
+    # returned value from histogram_blas = None, None, None
+    if count_histogram is None:
         return None, None, None
+    # compute empirical density histogram and return it together with the bin edges (the bin width is an array for logarithmic bins)
+    return (
+        dscal(1.0 / my_data.shape[0], count_histogram) / bin_width,
+        bin_edges,
+        bin_width,
+    )
 
 
 def _blas_histogram_counts(
-- 
2.43.0


From 7d5f027956697f1ac9d5b23de517f1a8284ea488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 23/51] fix: every histogram backend shifts the bins by the
 phase in the same direction

---
 .../hogg_jacky/cython_jacky/cython_jacky_binning.pyx          | 4 ++--
 histogram_maker/hogg_jacky/numexpr_jacky.py                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
index 01cb097..bd01557 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
+++ b/histogram_maker/hogg_jacky/cython_jacky/cython_jacky_binning.pyx
@@ -32,7 +32,7 @@ cdef _cython_binning_serial_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_dat
     cdef int d
     # loop to fill binning array using view
     for d in range(view_size):
-        binning_view[d] = <cnp.int32_t>floor(((my_data_view[d] - lowest_val) / bin_width) - bin_phase)
+        binning_view[d] = <cnp.int32_t>floor(((my_data_view[d] - lowest_val) / bin_width) + bin_phase)
 
 
 # @cython.boundscheck(False)
@@ -82,7 +82,7 @@ cdef _cython_binning_parallel_loop(Py_ssize_t view_size, cnp.float64_t[::1] my_d
     cdef int i
     # attempt to fill the binning array
     for i in prange(view_size, nogil=True):
-        binning_view[i] = <cnp.int32_t>floor(((my_data_view[i] - lowest_val) / bin_width) - bin_phase)
+        binning_view[i] = <cnp.int32_t>floor(((my_data_view[i] - lowest_val) / bin_width) + bin_phase)
 
 
 # @cython.boundscheck(False)
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 83944f9..532cc31 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -263,7 +263,7 @@ def _numexpr_binning(
     """
     if my_data_min is None:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            'floor(((d - d_min)/bw) + bp)',
             {
                 'd': my_data,
                 'd_min': my_data.min(),
@@ -273,7 +273,7 @@ def _numexpr_binning(
         )
     else:
         float_result = numexpr.evaluate(
-            '((d - d_min)/bw) - bp',
+            'floor(((d - d_min)/bw) + bp)',
             {
                 'd': my_data,
                 'd_min': my_data_min,
-- 
2.43.0


From b527a2f556f1806e166c846f9f149a2c62a4305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 24/51] fix: isolation masks can be computed when a parent mode
 partakes in a single triad

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..bb788ce 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # no competing triads for this parent: no comparison necessary
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..84865bb 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # no competing triads for this parent: no comparison necessary
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 17e3bdab3c17eec32e75b753ac931e6c4d0ec3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 25/51] fix: a triad is isolated only if its own threshold is
 the lowest one of its modes

---
 aesolver/ae_analyzer/library_functions/masking.py | 14 +++++++++++---
 aesolver/aeplotter/library_functions/masking.py   | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index bb788ce..85e6251 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -41,13 +41,17 @@ def _get_ae_validity_check_mask(data_dict: dict) -> np.ndarray:
     return np.abs(data_dict['linear_omega_diff_to_min_omega']) <= 0.1
 
 
-def _get_isolation_mask(lowest_thresholds: np.ndarray) -> np.ndarray:
+def _get_isolation_mask(
+    lowest_thresholds: np.ndarray, thresholds: np.ndarray
+) -> np.ndarray:
     """Generates the mode triad isolation mask.
 
     Parameters
     ----------
     lowest_thresholds : np.ndarray
         Contains the lowest thresholds for the different modes in the triad.
+    thresholds : np.ndarray
+        Contains the thresholds of the triads themselves.
 
     Returns
     -------
@@ -61,8 +65,10 @@ def _get_isolation_mask(lowest_thresholds: np.ndarray) -> np.ndarray:
     pd2 = np.isclose(
         lowest_thresholds[:, 0], lowest_thresholds[:, 2], rtol=0, atol=1e-14
     )
+    # the triad itself needs to have that lowest threshold
+    own = np.isclose(lowest_thresholds[:, 0], thresholds, rtol=0, atol=1e-14)
     # return the isolation mask
-    return pd1 & pd2
+    return pd1 & pd2 & own
 
 
 def _threshold_det_mask(
@@ -157,7 +163,9 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
         idx=2,
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
-    _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    _all_same = _get_isolation_mask(
+        lowest_thresholds=_lowest_thresh_surf, thresholds=_valued_thresh
+    )
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 84865bb..26d39a4 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -41,13 +41,17 @@ def _get_ae_validity_check_mask(data_dict: dict) -> np.ndarray:
     return np.abs(data_dict['linear_omega_diff_to_min_omega']) <= 0.1
 
 
-def _get_isolation_mask(lowest_thresholds: np.ndarray) -> np.ndarray:
+def _get_isolation_mask(
+    lowest_thresholds: np.ndarray, thresholds: np.ndarray
+) -> np.ndarray:
     """Generates the mode triad isolation mask.
 
     Parameters
     ----------
     lowest_thresholds : np.ndarray
         Contains the lowest thresholds for the different modes in the triad.
+    thresholds : np.ndarray
+        Contains the thresholds of the triads themselves.
 
     Returns
     -------
@@ -61,8 +65,10 @@ def _get_isolation_mask(lowest_thresholds: np.ndarray) -> np.ndarray:
     pd2 = np.isclose(
         lowest_thresholds[:, 0], lowest_thresholds[:, 2], rtol=0, atol=1e-14
     )
+    # the triad itself needs to have that lowest threshold
+    own = np.isclose(lowest_thresholds[:, 0], thresholds, rtol=0, atol=1e-14)
     # return the isolation mask
-    return pd1 & pd2
+    return pd1 & pd2 & own
 
 
 def _threshold_det_mask(
@@ -157,7 +163,9 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
         idx=2,
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
-    _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    _all_same = _get_isolation_mask(
+        lowest_thresholds=_lowest_thresh_surf, thresholds=_valued_thresh
+    )
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From 30eb95c576d81c57cc370f8c204dd17f52302b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 26/51] fix: frequencies between two and three times the
 Nyquist frequency are mirrored into the observable range

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..85d9efb 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -761,7 +761,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From d675b590accd506562e7453696162c947e79ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 27/51] fix: quantum numbers are part of the name of a result
 file for every save name

---
 .../aesolver/data_handling/data_specific/hdf5_saver.py    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..3b7b40c 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,7 +4,6 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
-import re
 import h5py as h5
 import numpy as np
 
@@ -81,10 +80,9 @@ class HDF5Saver:
         """Adjusts the file path to a name that incorporates quantum number information."""
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
-        # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
-        )
+        # insert this string into the file path name, in front of the suffix
+        _path, _dot, _suffix = self._file_path.rpartition('.')
+        self._file_path = f'{_path}{_qnr_string}{_dot}{_suffix}'
 
     def _create_base_attribute(
         self,
-- 
2.43.0


From eed14e8dbe0028b5b5340832840cbc917ca275de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 28/51] fix: the saved Wu statistics are the Wu differences,
 not the average radial orders

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From 74fa445300fb144d73d367af2378735884bf22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 29/51] fix: the solve program registers its command-line
 arguments with the generic parser

---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From 622e9b6e2091af913ff205698fa4660bf1817e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 30/51] fix: analysis and plot programs look for the inlist in
 the AESolver directory, as the solve program does

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From 63f95594917c7bc43eb2185e5fda277ba9bf40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 31/51] fix: result files are saved inside the sub-directory
 created for them

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..37656af 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f"{_sub_directory_name.rstrip('/')}/{save_name}.{self._save_suffix}"
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 4d387fbfebadd08499bb1f2ea765d6896e5efd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 32/51] fix: second derivatives of the radial Hough function
 have the parity of the function itself

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From 2d5325a53f0e823b4c161f7d50aa1554bea6510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 33/51] fix: azimuthal Hough terms use the azimuthal order in
 the sign convention of the azimuthal Hough function

---
 .../hough_function/hough_function.py          | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..a6cecb7 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -587,6 +587,20 @@ class HoughFunction:
             value1=self.neg_mu_hpp_theta, value2=self._hpp_theta
         )
 
+    @property
+    def _m_phi(self):
+        """Return the azimuthal order in the sign convention of the azimuthal Hough function.
+
+        Returns
+        -------
+        float
+            The azimuthal order: its sign is the opposite of the sign of 'm' if the sign of the azimuthal Hough function was adjusted.
+        """
+        if self._my_instructions['adjust_phi_sign']:
+            return -self._m
+        else:
+            return self._m
+
     @property
     def theta_phi_hough_tilde(self):
         """Return the values of the theta_phi term defined in Eqn. B16 of Lee(2012).
@@ -603,9 +617,10 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            _m_phi = self._m_phi
+            pos_mu_part = ((_m_phi * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = (_m_phi * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -628,12 +643,13 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
+            _m_phi = self._m_phi
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) - (_m_phi * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) - (_m_phi * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From c26ea67f87903c850dc08f45332d538d3b83102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 34/51] fix: integrals of Hough functions take the unequal
 spacing of the cos(theta) grid into account

---
 .../rotating_tar_angular/hough_integration.py                 | 4 ++--
 hough-func-tools/hough_function/hough_normalizer.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..7d7d29a 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -212,7 +212,7 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
@@ -252,7 +252,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    False,
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From a487f59d8ce106f4e1c23d238ef4f3f4661cf7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 35/51] fix: azimuthal terms of complex conjugated modes change
 sign in angular integrals

---
 .../rotating_tar_angular/hough_integration.py | 53 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 7d7d29a..e87a792 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -29,6 +29,16 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+# names of the (Hough) terms that carry a factor i due to the azimuthal dependence of the modes
+AZIMUTHAL_TERMS = (
+    'hp',
+    'theta_der_hp',
+    'theta_der_hp_theta',
+    'theta_phi',
+    'mhr',
+)
+
+
 # CONJUGATION FUNCTION DEFINITION + TYPING
 def conjugator(m: int, conjugated: bool) -> int:
     """Performs complex conjugation of an azimuthal order, if necessary.
@@ -300,6 +310,41 @@ class HoughIntegration(Enum):
             logger.error("Cannot recognize the type of 'conj' in '_adapt_to_complex_conjugation', now exiting.")
             sys.exit()
 
+    # method that computes the sign due to the complex conjugation of azimuthal terms
+    @classmethod
+    def _conjugation_sign(
+        cls,
+        conj: bool | tuple[bool, bool, bool] | None,
+        descrips: list[str],
+    ) -> float:
+        """Internal class utility method that computes the sign of the integrand that is due to the complex conjugation of modes.
+
+        Notes
+        -----
+        The azimuthal component of the displacement and the azimuthal derivatives carry a factor i, which is taken into account explicitly in the coupling terms. That factor changes sign if the mode is complex conjugated.
+
+        Parameters
+        ----------
+        conj : bool | tuple[bool, bool, bool] | None
+            If None, no term is complex conjugated. If True, the first term is complex conjugated. If tuple[bool, bool, bool], use the corresponding boolean values to decide which term is complex conjugated.
+        descrips : list[str]
+            Contains specifications of the functions that make up the integrand.
+
+        Returns
+        -------
+        float
+            The sign of the integrand.
+        """
+        # determine which terms are conjugated
+        _conj_list = list(conj) if isinstance(conj, tuple) else [conj]
+        # determine the sign
+        _sign = 1.0
+        for _descr, _conjugated in zip(descrips, _conj_list):
+            _name = _descr.strip('_').rsplit('_mode_', 1)[0]
+            if _conjugated and _name in AZIMUTHAL_TERMS:
+                _sign *= -1.0
+        return _sign
+
     # method that handles the requested numerical integration over the Hough functions
     @classmethod
     def quadratic_angular_integral(
@@ -377,6 +422,12 @@ class HoughIntegration(Enum):
                 cheby_order_multiplier=cheby_order_multiplier,
             )
             # multiply with the phi coordinate integration result
-            return 2.0 * np.pi * theta_integral
+            # (and the sign change due to complex conjugated azimuthal terms)
+            return (
+                2.0
+                * np.pi
+                * cls._conjugation_sign(conj=conj, descrips=descrips)
+                * theta_integral
+            )
         else:
             return 0.0
-- 
2.43.0


From 9b030279a002f623e0c69f5c407e67964c58d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 36/51] fix: mode energies contain the azimuthal integral once,
 and the Coriolis term with the sign that matches the Hough functions

---
 .../quadratic_coupling_coefficient_rotating.py        | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..a28e1a1 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1233,8 +1233,8 @@ class QuadraticCouplingCoefficientRotating(CCR):
             )
             # compute the result of the specific term in the 'traditional norm' and add it to the total
             trad_norm += _trad_norm_angular * _trad_norm_radial
-        # multiply with pre-factor (due to Phi coordinate integration) to get the 'traditional norm' and store in the object
-        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm * 2.0 * np.pi)
+        # store the 'traditional norm' in the object (the pre-factor due to Phi coordinate integration is included in the angular integrals)
+        setattr(self, f'_classic_norm_mode_{mode_nr}', trad_norm)
 
     # generic method that computes a radial integral
     def _compute_radial_integral(
@@ -1379,12 +1379,11 @@ class QuadraticCouplingCoefficientRotating(CCR):
         _coriolis_norm_radial = self._radint(
             _coriolis_norm_radial_integrand, self._x
         )
-        # compute the total Coriolis term contribution
+        # compute the total Coriolis term contribution (the pre-factor due to Phi coordinate integration is included in the angular integral, and the negative sign is due to the sign of the azimuthal Hough function of Lee & Saio (1997), who use a time dependence of e^(i*omega*t))
         _coriolis_norm = (
-            _coriolis_norm_radial
+            -4.0
+            * _coriolis_norm_radial
             * _coriolis_norm_angular
-            * 8.0
-            * np.pi
             * self._freq_handler.surf_rot_angular_freq
         )
         # get the corotating-frame frequency for the modes
-- 
2.43.0


From 3ca99595182e4ee0e51886ac4b41765a00bfc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 37/51] fix: the derivative of the azimuthal Hough function has
 the sign of that function in each definition

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index a6cecb7..b3a554c 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -885,6 +885,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # adjust sign, if necessary
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From 4f5f30bd9e4fe7446c2f6d1c3f18466590b5907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 38/51] fix: structure profiles on other radial grids than the
 modes are interpolated onto the grid of the modes

---
 .../super_coupling_coefficients.py            | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..f01a665 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -591,6 +591,16 @@ class SuperCouplingCoefficient:
             # add debug properties
             if self._store_debug:
                 self._add_debug_attribute_modes(_i + 1, _my_dict, _interp_list)
+        # the mode-independent profiles are those of the first mode:
+        # interpolate them, if another mode provides the radial coordinate
+        _x_first = list_dict[0]['x']
+        if _x_interpolation is not _x_first:
+            for _attr in self._list_common:
+                _v = list_dict[0].get(_attr)
+                if _attr != 'x' and np.shape(_v) == _x_first.shape:
+                    setattr(
+                        self, f'_{_attr}', np.interp(self._x, _x_first, _v)
+                    )
 
     def _add_debug_attribute(
         self, my_attr: str, normed: bool = False, poly: bool = False
@@ -787,13 +797,11 @@ class SuperCouplingCoefficient:
             # loop over the dictionary items
             for _k, _v in my_internal_structure_dict.items():
                 # do interpolation, set the interpolated attribute and add profile suffix to parameter to distinguish it
-                if (
-                    isinstance(_v, float)
-                    or isinstance(_v, str)
-                    or isinstance(_v, int)
-                ):
+                if _k in _exclude_list:
+                    continue
+                if np.shape(_v) != _norm_rad.shape:
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1206,17 +1214,11 @@ class SuperCouplingCoefficient:
         if interp_necessary:
             # get the attribute
             _my_att = my_dict.get(my_attr)
-            # try interpolation to return GYRE-fitted attribute
-            if typing.TYPE_CHECKING:
-                assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
+            # interpolate to return GYRE-fitted attribute
+            if _my_att is None:
                 return None
             else:
-                return my_interp
+                return np.interp(self._x, radial_structure_profile, _my_att)
         else:
             # no interpolation necessary: directly return attribute
             my_att = my_dict.get(my_attr)
@@ -1239,7 +1241,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From b75d5482bb70ae6b8dff4116cfae81557b68abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 39/51] fix: density gradients of polytropes are derived from
 the density profile of the polytrope

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index f01a665..b3821fe 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1062,7 +1062,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
-- 
2.43.0


From cbff907abe047b851c50868cc0ac3c9d1b36e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 40/51] fix: the spelling of the unit system selects the unit
 conversion as it selects the gravitational constant

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 505fd6e..0dad513 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -483,7 +483,7 @@ class ModelLoader:
         """
         # get the unit conversion function dictionary
         _conversion_dict = my_unit_converter_class.unit_conversions(
-            unit_system=unit_system
+            unit_system=unit_system.upper()
         )
         # use the conversion dict to recreate the data dictionary, with updated values
         return [
-- 
2.43.0


From 24f4c1b46fb251d6b93ec285beae2f49a35f54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 41/51] fix: requests the Fornberg routine cannot serve stop it
 instead of reaching outside its arrays

---
 fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
index 6eff78a..bf25449 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
@@ -1,7 +1,7 @@
 module fornberg_deriv
     implicit none
     ! define parameters used in the subroutines
-    integer, parameter :: mmax=8, nmax=20, iaccuracy_max=20
+    integer, parameter :: mmax=8, nmax=21, iaccuracy_max=20
     
 contains
 
@@ -51,9 +51,14 @@ contains
         real(8), intent(in), dimension(ngrid) :: grid, u
         real(8), intent(out), dimension(ngrid) :: du
         integer :: m, n, i, imid, jend
-        real(8), dimension(iaccuracy_max) :: coef
+        real(8), dimension(nmax) :: coef
         ! Check if requested accuracy is reasonable
         if (iaccuracy .gt. iaccuracy_max) stop 'requested accuracy order too large in routine'
+        if (iaccuracy .lt. 0) stop 'requested accuracy order negative in routine'
+        ! Check if requested order of the derivative is reasonable
+        if (iorder .lt. 0 .or. iorder .ge. mmax) stop 'requested order of derivative not supported in routine'
+        ! Check if the grid has enough points for the requested accuracy
+        if (ngrid .le. iaccuracy) stop 'grid too small for requested accuracy order in routine'
         ! Declare aliases
         m = iorder + 1
         n = iaccuracy + 1
-- 
2.43.0


From 751e56ac533ee77de47a426841822c9db5c10a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 42/51] fix: interpolated derivatives are returned at every
 point of the grid; stencils that do not exist are refused

---
 num-tools/num_deriv/num_deriv.py | 14 +++++++++-----
 num-tools/num_deriv/stencils.py  |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..e7a94f0 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -271,10 +271,14 @@ class NumericalDifferentiator:
         if self._perform_interpolation:
             # get the linear 1D interpolation
             _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # - refine each interval of the grid, so that the original
+            # grid points are part of the refined grid
+            _n = x.shape[0]
+            _x = np.interp(
+                np.arange((_n - 1) * self._interpolation_factor + 1)
+                / self._interpolation_factor,
+                np.arange(_n),
+                x,
             )
             _y = _interpolator(_x)
         else:
@@ -291,7 +295,7 @@ class NumericalDifferentiator:
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
             # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
+            _map_idx = np.arange(x.shape[0]) * self._interpolation_factor
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
diff --git a/num-tools/num_deriv/stencils.py b/num-tools/num_deriv/stencils.py
index e6d68e8..bd0cb9a 100644
--- a/num-tools/num_deriv/stencils.py
+++ b/num-tools/num_deriv/stencils.py
@@ -73,6 +73,9 @@ class StencilFunctions(Enum):
         """
         _stencil_dict = cls.__getitem__(my_differencing_type.upper()).value
         try:
+            # stencils that are not implemented are of no use
+            if _stencil_dict[f'{my_order}'] is None:
+                raise KeyError(f'{my_order}')
             return (
                 _stencil_dict[f'{my_order}'],
                 f'Numba {my_differencing_type} stencil models of order '
-- 
2.43.0


From 3c7d42fbc489caa1e240d539c74d7ea357f5a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 43/51] fix: the file of a stellar model ends with its suffix,
 and files whose name starts with gyre are none

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..2bc7f15 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From 2ae8f0ca255ab07613c063e442038a0cc02dbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:52 +0000
Subject: [PATCH 44/51] fix: surface perturbations of the modes are normalised
 with their normalisation factors

---
 aesolver/aesolver/solver/quadratic_solver.py              | 8 ++++----
 .../solver/solver_base_classes/quadratic_solver.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..9f498fa 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
@@ -1092,8 +1092,8 @@ class QuadraticAESolver:
         _log_lag_var = np.log10(self._lag_var_surf_lum)
         _q_factor_prod = np.sqrt(self._quality_factor_products[-1])
         _log_q_factor_prod = np.log10(_q_factor_prod)
-        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][-4][0]
-        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][-4][1]
+        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][4][0]
+        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][4][1]
         # compute the equilibrium amplitudes --> TODO: update this!!!
         coefficient_factor = _abs_eta * _q_factor_prod
         coefficient_factor = 1.0 / coefficient_factor
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 0478801e06d734279529ff1abed99783e55e4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 45/51] fix: adjusted coupling profiles of models with a valid
 core subtract the contributions of the zones below

---
 .../plot_template.py                          | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..fe8435e 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -55,6 +55,30 @@ def get_contribution_due_to_convective_zone(
     return end_value - start_value
 
 
+def get_validity_zone_adjustments(
+    zone_indices: 'list[tuple[int, int]] | list[tuple[Literal[0], int]]',
+    summed_contributions: np.ndarray,
+) -> 'list[float]':
+    """Retrieves the summed contributions of the TAR-invalid zones below each of the TAR-valid zones.
+
+    Parameters
+    ----------
+    zone_indices : list[tuple[int, int]]
+        Limiting indices of the TAR-invalid zones.
+    summed_contributions : np.ndarray
+        The cumulatively summed contributions of the TAR-invalid zones.
+
+    Returns
+    -------
+    list[float]
+        The value to be subtracted from the profile in each TAR-valid zone.
+    """
+    if zone_indices[0][0] > 0:
+        # TAR-valid core: no TAR-invalid zone lies below the first TAR-valid zone
+        return [0.0, *summed_contributions]
+    return [*summed_contributions]
+
+
 # single profile figure template function
 def single_integrated_radial_profile_figure_template_function(
     fractional_radius: np.ndarray,
@@ -270,7 +294,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 y_ax_data, _adjusted_tar_profile, _summed_contributions
             ):
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    get_validity_zone_adjustments(
+                        zone_indices=convection_zone_selection_indices,
+                        summed_contributions=_summed_contrib,
+                    ),
+                    validity_zone_masks,
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -367,7 +395,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                get_validity_zone_adjustments(
+                    zone_indices=convection_zone_selection_indices,
+                    summed_contributions=_summed_contributions,
+                ),
+                validity_zone_masks,
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
-- 
2.43.0


From 27baea1283f9879125c2038c5b32248a970f4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:14 +0000
Subject: [PATCH 46/51] fix: scale the angular kernels as their labels state

AngularKernelData computed the scaled kernel and dropped it, so that kernels with
a factor or a division by sin(theta) were drawn without them.
---
 .../angular_kernels/angular_kernel_helper.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..87bf741 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -193,17 +193,14 @@ class AngularKernelData:
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                my_kernel *= multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                my_kernel *= multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
-                    my_kernel * multiplying_factor * self._div_by_sin_scaling
-                )
+                my_kernel *= multiplying_factor * self._div_by_sin_scaling
             case (True, True):
-                my_kernel = (
-                    my_kernel
-                    * multiplying_factor
+                my_kernel *= (
+                    multiplying_factor
                     * self._mu_vals
                     * self._div_by_sin_scaling
                 )
-- 
2.43.0


From d5f4ac1faf239143ac25e59f414ba6b17b72a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 47/51] fix: angular kernels of the third contribution without
 a sine

The coupling coefficient integrates H_r (H_phi^phi)^2 and H_r (dH_theta)^2 without
dividing by sin(theta); the kernels shown for these terms were labelled as divided.
---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 87bf741..dca9f38 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -466,7 +466,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -475,7 +475,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From af9f75a23a4359b6420a3a12fcbd823b4069afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:45 +0000
Subject: [PATCH 48/51] fix: read the header of a MESA profile as numbers

---
 aesolver/aesolver/model_handling/read_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..272984d 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -144,7 +144,9 @@ class ModelReader:
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-        my_read = pd.read_fwf(file_path, skiprows=1, infer_nrows=2)
+        my_read = pd.read_fwf(
+            file_path, skiprows=1, nrows=1, infer_nrows=2
+        )
         if TYPE_CHECKING:
             assert isinstance(my_read, pd.DataFrame | pd.Series)
         _my_header_info = my_read.iloc[0]
-- 
2.43.0


From 41e5ab33bd90fcd379a3415109e41a8ee8a24dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 49/51] fix: folders given without a base folder are taken as
 they are

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 0dad513..eedfe23 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -304,7 +304,7 @@ class ModelLoader:
         # choose the correct return option
         if subdir is None:
             return subdir
-        elif (self._base_dir is not None) and (not infer_subdir):
+        elif (self._base_dir is None) or (not infer_subdir):
             return subdir
         else:
             return f'{self._base_dir}{subdir}'
-- 
2.43.0


From 9b4c22597684f6aef9c7518a21549d9d8ac28519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:25 +0000
Subject: [PATCH 50/51] fix: version number and date of a MESA profile stay
 texts

---
 aesolver/aesolver/model_handling/read_models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 272984d..26de596 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -144,8 +144,13 @@ class ModelReader:
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
+        # (version number and date are texts)
         my_read = pd.read_fwf(
-            file_path, skiprows=1, nrows=1, infer_nrows=2
+            file_path,
+            skiprows=1,
+            nrows=1,
+            infer_nrows=2,
+            dtype={'version_number': str, 'date': str},
         )
         if TYPE_CHECKING:
             assert isinstance(my_read, pd.DataFrame | pd.Series)
-- 
2.43.0


From 0598ab7b0e9787a80c422cb9bc405a871c0bfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:07 +0000
Subject: [PATCH 51/51] fix: numerical derivatives of complex mode functions do
 not end in an unbound message

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index b3821fe..edc550c 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1382,6 +1382,8 @@ class SuperCouplingCoefficient:
         """
         # check if the array has a complex dtype
         if isinstance(y, np.ndarray) and ('complex' in str(y.dtype)):
+            # the nested computations do not log: describe them here
+            _num_der_string = 'Numerical derivatives of a complex quantity.'
             # compute the real part (in a nested way)
             _num_der_list_real = self._compute_der(
                 differentiator=differentiator,
-- 
2.43.0

