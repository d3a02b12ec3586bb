From 90572f236f6f06d9c8c980222da3a4f30987d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 01/35] fix: make the post-processing functions work on mpmath
 values

The module kept the Decimal API after the move to mpmath (is_zero, ln, exp
and getcontext do not exist on mpf) and named dec_tan and dec_cot, which were
never defined, so every function but the powers raised when called.
---
 postprocfuncs.py | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..8523d12 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, mp, exp, log
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
@@ -17,7 +17,7 @@ def dec_cos(x):
     (0.87758256189+0j)
 
     """
-    getcontext().prec += 2
+    mp.dps += 2
     i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
     while s != lasts:
         lasts = s
@@ -26,7 +26,7 @@ def dec_cos(x):
         num *= x * x
         sign *= -1
         s += num / fact * sign
-    getcontext().prec -= 2
+    mp.dps -= 2
     return +s
 
 def dec_sin(x):
@@ -43,7 +43,7 @@ def dec_sin(x):
     (0.479425538604+0j)
 
     """
-    getcontext().prec += 2
+    mp.dps += 2
     i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
     while s != lasts:
         lasts = s
@@ -52,12 +52,12 @@ def dec_sin(x):
         num *= x * x
         sign *= -1
         s += num / fact * sign
-    getcontext().prec -= 2
+    mp.dps -= 2
     return +s
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
@@ -69,6 +69,25 @@ def safe_sqrt(x):
     else:
         return x.sqrt()
 
+def dec_tan(x):
+    """Returns the tangent of x as measured in radians."""
+    return dec_sin(x) * safe_inverse(dec_cos(x))
+
+def dec_cot(x):
+    """Returns the cotangent of x as measured in radians."""
+    return dec_cos(x) * safe_inverse(dec_sin(x))
+
+def dec_exp(x):
+    """Returns e to the power of x."""
+    return exp(x)
+
+def dec_ln(x):
+    """Returns the natural logarithm of x if x > 0, otherwise returns NaN"""
+    if x <= 0:
+        return dec('NaN')
+    else:
+        return log(x)
+
 
 # All the supported postproc functions. New ones should be added at the end, to allow backward compatibility.
 # IMPORTANT: after every new postproc func should appear it's inverse: safe_inverse(new_postproc_func).
@@ -92,10 +111,10 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -134,10 +153,10 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From e81bdea765055a7fcbd6c8470eff618ac54935e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 02/35] fix: build hashtable keys from mpmath values

mpf has no to_eng_string, so no value could be stored or looked up.
---
 decimal_hashtable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..6f34003 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -4,7 +4,7 @@
  serialization by dill/pickle and (perhaps) more."""
 
 # from decimal import Decimal as dec
-from mpmath import mpf as dec
+from mpmath import mpf as dec, mp, nstr, inf
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
@@ -28,7 +28,8 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            # all the digits, in positional notation
+            key_str = nstr(key, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
-- 
2.43.0


From d21bbc9ed812c7093ffe96a807dd853687cd25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 03/35] fix: DecimalHashTable.__delitem__ deletes the entry
 under the current accuracy

It returned the entry and left it in the table.
---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 6f34003..03c76d2 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -52,7 +52,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From 9262e9a21c620efde882971d694207797bd973d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 04/35] fix: DecimalHashTable.get and setdefault use the digit
 keys

The inherited methods bypass the overridden accessors: setdefault stored the
raw value as the key, so no entry could be found again by its digits.
---
 decimal_hashtable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 03c76d2..0d9f8ee 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -61,6 +61,14 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From 1c1333e6618a2b7ee300a7ec133fc03687a2ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 05/35] fix: DecimalHashTable takes string keys as they are

Cutting them to the accuracy turned 'parameters' into another key whenever
fewer than 8 digits are kept, and the table could then not be expanded.
---
 decimal_hashtable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 0d9f8ee..0c16b1d 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -25,11 +25,11 @@ class DecimalHashTable(dict):
         """Converts the key to a string of the appropriate length, to be used as a key."""
         if not isinstance(key, dec) and not isinstance(key, str):
             raise TypeError('Only Decimal is supported')
+        # a string is a key as it is stored (or 'parameters'), whatever its length
         if isinstance(key, str):
-            key_str = key
-        else:
-            # all the digits, in positional notation
-            key_str = nstr(key, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
+            return [], key
+        # all the digits, in positional notation
+        key_str = nstr(key, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
-- 
2.43.0


From 3e718f2113790235c4201e2fe79663185af80b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 06/35] fix: make the LHS evaluators work on mpmath values

They called is_normal and to_eng_string, which mpf does not have.
---
 lhs_evaluators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..753e622 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,6 +1,6 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), str(self.val))
 
     def __repr__(self):
         return self.__str__()
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From 4e5fa6fe1a3c62e1ae0376610ba8631cb6695b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 07/35] fix: compare and export mpmath values by their decimal
 digits

mpf has no to_eng_string, so every refinement and export raised.
---
 enum_params.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 43cfc37..272c874 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, mp, nstr, inf
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -31,6 +31,10 @@ from utils import MathOperations, grouper
 # EVALUATOR2TYPE = { v: k for k, v in EVALUATOR_TYPES.items() }
 # ENUMERRATOR2TYPE = { v: k for k, v in ENUMERATOR_TYPES.items() }
 
+def dec2str(d):
+    """Returns all the digits of d, in positional notation."""
+    return nstr(d, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
+
 # do we still want to keep the default values here? (some of them require special imports that are not needed otherwise)
 class MITM:
     # TODO: right documentation. What does this class do?
@@ -475,7 +479,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    dec2str(postproc_res), dec2str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +509,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec2str(d1)[:accuracy+1] == dec2str(d2)[:accuracy+1]
 
-- 
2.43.0


From ef5688dfa984a3ef96db09661bb19ed5420a6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 08/35] fix: ContFrac.is_result_valid uses the imported
 isnormal

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..f8f33d6 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From 4f5bb4b04faac56df336c1ad09862923f2c25cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 09/35] fix: estimate the number of iterations with mpmath's
 logarithm

mpf has no ln, so every refinement with convergence information raised.
---
 basic_representation_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..20813f5 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+from mpmath import log
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(log(accuracy / power_base) / log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From ba1a49b387e5d98837df3e4fd71f76121a46405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 10/35] fix: ContFrac.get_p_q returns the latest convergent

The state rows are (current, previous); it returned the previous one.
---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f8f33d6..cf1d1c0 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From 24d61957f7fa42e1ea0fc1090ba4a4726c25cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 11/35] fix: select indexed constants by their index

The index was bound to the generators' precision parameter and the name was
built from an undefined variable, so feig, percolation and zeta all raised.
---
 main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.py b/main.py
index a73c2d2..37507ac 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, i=params.i)
+    gen_percolation_const = partial(gen_percolation_consts, i=params.i)
+    gen_zeta_const = partial(gen_zeta_consts, i=params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
@@ -70,9 +70,9 @@ def main(config_file='config.ini'):
 
     measure_runtime = MeasureRuntime()
     if params.const == 'feig':
-        params.const = 'feig, %d' % i
+        params.const = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+        params.const = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
-- 
2.43.0


From 4f6d07d29fea6d147cef0e4f0e464e7a9ba9acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 12/35] fix: read the clock once for the results directory

When the minute changed between the two readings, the results were written
to a directory that does not exist and the run's output was lost.
---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 37507ac..7ea018a 100644
--- a/main.py
+++ b/main.py
@@ -161,8 +161,9 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    results_dirname = os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M')
+    os.mkdir(results_dirname)
+    export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From e9875f567b3c9e615c1cadb146d409cdc82ab77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 13/35] fix: keep the defaults of the optional configuration
 parameters

They were replaced by an empty dictionary, so every omitted optional
parameter was None.
---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..d9f5329 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From 8ec502c6993185799c74b38bff2c9429941c5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 14/35] fix: order hashtable versions by number and match whole
 file names

v10 sorted before v9, so a new table was written over v10, and a file whose
name only starts with the configured one counted as a version of it.
---
 configfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/configfile.py b/configfile.py
index d9f5329..18e0438 100644
--- a/configfile.py
+++ b/configfile.py
@@ -85,22 +85,22 @@ class ConfigParser(configparser.ConfigParser):
             return
 
         # validate filename's extension .pkl is specified, or add it
-        if not re.match('(.*?)(\\.pkl)', filename):
+        if not re.match('(.*?)(\\.pkl)$', filename):
             filename += '.pkl'
 
         # if filename is given without a version indication, set a default version v1
-        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)', filename):
+        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)$', filename):
             filename = '%s_v1.pkl' % filename[:-len('.pkl')]
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9]+)?(\\.pkl)$' % re.escape(stripped_filename), fn) ]
+        old_versions.sort(key=lambda fn: int((re.findall('_v([0-9]+)\\.pkl$', fn) or [0])[0]))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
+            filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', old_versions[-1])[0]
             v = v.replace('_v', '')
             if not v:
                 v = 0
-- 
2.43.0


From 1514fbb73a20d6297e6af705217499381e9e2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 15/35] fix: keep the case of configured paths

---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 18e0438..f5c9266 100644
--- a/configfile.py
+++ b/configfile.py
@@ -145,7 +145,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From 5adbddd3385e27b44e7d6e3e99247fe9a7a1f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 16/35] fix: save an expanded hashtable as a new version

config.ini documents v_latest+1; the table that was expanded was overwritten.
---
 configfile.py | 8 +++++---
 main.py       | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/configfile.py b/configfile.py
index f5c9266..5a1f993 100644
--- a/configfile.py
+++ b/configfile.py
@@ -98,15 +98,17 @@ class ConfigParser(configparser.ConfigParser):
         old_versions.sort(key=lambda fn: int((re.findall('_v([0-9]+)\\.pkl$', fn) or [0])[0]))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
+            self._config['hashtable_output_file'] = self._config['hashtable_file']
             return
-        if hashtable_file_operation == 'generate':
+        if hashtable_file_operation in ['generate', 'expand']:
             filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', old_versions[-1])[0]
             v = v.replace('_v', '')
             if not v:
                 v = 0
             v = int(v) + 1
             filename = '%s_v%d.pkl' % (filename_base, v)
-        else:
+            self._config['hashtable_output_file'] = os.path.join(dir_path, filename)
+        if hashtable_file_operation != 'generate':
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
 
@@ -228,4 +230,4 @@ CONFIG_PARAMS_TYPES = {'const': ConfigParser.string_parameter_parser,
                        'is_test': ConfigParser.bool_parser}                                         # optional
 
 # Internal fields (generated based on other fields), that should be treated by other modules as legal fields
-CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual']
+CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual', 'hashtable_output_file']
diff --git a/main.py b/main.py
index 7ea018a..00ed410 100644
--- a/main.py
+++ b/main.py
@@ -110,9 +110,9 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
-        with open(params.hashtable_file, 'wb') as output_file:
+        with open(config['hashtable_output_file'], 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-        print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
+        print('Stored hashtable as %s. Runtime: %s' % (config['hashtable_output_file'],
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
         return
-- 
2.43.0


From fcedeb2855aa2b6ad3851c9ce584f52179047ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 17/35] fix: joining hashtables aborts when the output file
 exists

It announced that it aborts and then overwrote the file.
---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From 4be804d7d4bbb828a13f3e8f508472a0edbbda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 18/35] fix: distribute a config file of another directory

Its directory was repeated below the output directory, which does not exist.
---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..fd1aa46 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -43,7 +43,7 @@ def main(split_num=4, configfile='config.ini'):
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
                 results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From b6b4b93d220075205e2e189b3f5add16e3e35b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 19/35] fix: the integer roots filter keeps roots just above a
 half

Without abs, any root rounded upwards, such as 2.7, counted as an integer.
---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 272c874..ec61b4e 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -338,7 +338,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From da7e0af9c533dc472ada5f33965435a04bb1912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 20/35] fix: state the found equation for sqrt, exp and ln

A click means lhs = f(rhs). The sqrt templates could not be formatted, and
the exp and ln ones dropped a side or applied the function to the other one.
---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 8523d12..33fac03 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -143,8 +143,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{\sqrt{{ {0} }}}}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -153,9 +153,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From d39af256b401218bdeebbc1b2f374289dd8e3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 21/35] fix: brace the exponents in LHS equations

LaTeX raised only the first digit, so x^10 read as x to the 1, times 0.
---
 lhs_evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 753e622..fcdd30b 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -417,9 +417,9 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
             poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
-- 
2.43.0


From b4e334f4ce61b78ad081d7906c2dc85c31015b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 22/35] fix: export the index of the post-processing function

The CSV held the address of a function object, from which a result cannot be
read back; the comment above relies on the indices.
---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index ec61b4e..c2b8016 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -477,7 +477,7 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
                                     dec2str(postproc_res), dec2str(lhs_res_obj.get_val())])
             # Saves the results
-- 
2.43.0


From 35c94c15df822297527d9bbcc1ccf00c2c65f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 23/35] fix: write configurations that can be read back

The results' and the distributed configs held the repr of the LHS classes,
Python booleans inside JSON lists, and 'feig, 1' for the constant, all of
which the parser refuses.
---
 configfile.py     |  9 +++++++++
 distribute_run.py |  3 ++-
 main.py           | 14 ++++++++------
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/configfile.py b/configfile.py
index 5a1f993..96aa0e6 100644
--- a/configfile.py
+++ b/configfile.py
@@ -188,6 +188,15 @@ class ConfigParser(configparser.ConfigParser):
 
         return s
 
+    @staticmethod
+    def param_to_string(param_key, param_val):
+        """Returns the text from which _cast_param_val parses param_val."""
+        if param_val is not None and param_key == 'lhs_type':
+            return str(param_val['enum'])
+        if CONFIG_PARAMS_TYPES[param_key] is json.loads:
+            return json.dumps(param_val) if param_val is not None else 'none'
+        return str(param_val)
+
     def set(self, section, option, value=None):
         """This function is called when generating a config file.
         It wraps the parent class's set to convert the postproc_funcs from indices back to names."""
diff --git a/distribute_run.py b/distribute_run.py
index fd1aa46..675a78c 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -42,7 +42,8 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable,
+                                   ConfigParser.param_to_string(config_variable, getattr(params, config_variable)))
         results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index 00ed410..e6c8ce0 100644
--- a/main.py
+++ b/main.py
@@ -69,10 +69,11 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
+    target_name = params.const
     if params.const == 'feig':
-        params.const = 'feig, %d' % params.i
+        target_name = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % params.i
+        target_name = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +83,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +93,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +109,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(config['hashtable_output_file'], 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
@@ -177,7 +178,8 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable,
+                           ConfigParser.param_to_string(config_variable, getattr(params, config_variable)))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From 66021c3bf5b77039884aca9154fd665616f2dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 24/35] fix: search for the configured constant when a
 hashtable is reused

The table's own constant was searched for and named in the results instead.
---
 main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.py b/main.py
index e6c8ce0..c218947 100644
--- a/main.py
+++ b/main.py
@@ -82,6 +82,7 @@ def main(config_file='config.ini'):
             mitm = pickle.load(input_file)
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
+        mitm.target_generator, mitm.target_name = target_generator, target_name
         if params.hashtable_file_operation == 'expand':
             mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 0756ed8e74cbf7dc0b9cf33f7f97b5af6071cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 25/35] fix: expanding with another polynomials type replaces
 the enumerator

The special types inherit from the normal one, so a request for the normal
type kept enumerating indexed or sparse polynomials.
---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index c2b8016..2531249 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -102,7 +102,8 @@ class MITM:
                different one.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        self.prec = prec
+        if type(self.rhs_polys_enumer) is not ab_poly_class:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 7c3f3918b549dbc38f96f328fb1109c322ac512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 26/35] fix: skip the stored post-processing functions when
 expanding

Indices were subtracted from (index, function) pairs, which removes nothing,
so every stored continued fraction was evaluated again.
---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 2531249..ef545fe 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -160,7 +160,7 @@ class MITM:
         #         cont_frac, pa, pb = iter_element
         for pa, pb in progressbar.progressbar(itr, max_value=itr_len):
             if (pa, pb) in ab_blacklist:
-                postproc_funcs_to_eval = filtered_postproc_funcs - ab_blacklist[(pa, pb)]
+                postproc_funcs_to_eval = { (i, f) for i, f in filtered_postproc_funcs if i not in ab_blacklist[(pa, pb)] }
                 # if no new postproc functions to evaluate for this pa, pb, skip
                 if not postproc_funcs_to_eval:
                     continue
@@ -189,7 +189,7 @@ class MITM:
                 try:
                     k = post_f(cur_cont_frac_val)
                 except:
-                    print(k)
+                    print(cur_cont_frac_val)
                     raise
                 ## # if not k.is_normal():
                 if not isnormal(k):
-- 
2.43.0


From fd85dac75092b8ebeb65dec1c9691acd7df9c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 27/35] fix: announce the number of interlaced sparse
 polynomials

The masks of every interlace are chosen, so the count exceeded the announced
length and the progress bar raised in the middle of the enumeration.
---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..a04c6c2 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -241,8 +241,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
+                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From 3df981e9a5e1541ea28120d115b1e0343f7022bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 28/35] fix: find the integer roots of the b polynomials

The quadratic formula divided by the free coefficient, factoring stopped at
the first inner zero coefficient, and negative roots of linear polynomials
were not counted, against the documentation and the existing tests.
---
 enum_poly_params.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index a04c6c2..106ac99 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -153,7 +153,7 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
         elif len(poly) == 1:
             return False
         ## # elif len(poly) == 2 and (poly[0] / poly[1]).is_integer() and (poly[0] > 0) != (poly[1] > 0):
-        elif len(poly) == 2 and isint(poly[0] / poly[1]) and (poly[0] > 0) != (poly[1] > 0):
+        elif len(poly) == 2 and isint(poly[0] / poly[1]):
             return True
         elif len(poly) == 3:
             discrim = (poly[1]**2-4*poly[0]*poly[2])
@@ -161,9 +161,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
                 return False
             discrim **= 0.5
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
@@ -182,7 +182,8 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        return list(itertools.dropwhile(lambda x: x == 0, poly[::-1]))[::-1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 0c4041ddbd16026b839287acfe3ec123c62f8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 29/35] fix: add the nearest integer when a click is refined

The difference of two values that agree up to an integer is 2.99... as often
as 3.00..., and truncating it left the LHS off by one.
---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index ef545fe..8a3e8f5 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal, mp, nstr, inf
+from mpmath import mpf as dec, isnormal, mp, nint, nstr, inf
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -304,7 +304,7 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
-- 
2.43.0


From 5f0176356228654504a4c375e238ec665b9814b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 30/35] fix: compare the fractional parts of rational LHSs with
 their denominators

1/(x+1) and 1/(x+2) counted as equivalent, having the same remainder.
---
 lhs_evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index fcdd30b..280ab58 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -376,7 +376,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
+            if quotient1 == quotient2 and rem1 * denominator2_p == rem2 * denominator1_p:
                 return True
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
-- 
2.43.0


From 139730bef390bfe0d5992cd6bfda2ae7b4855010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 31/35] fix: evaluate continued fractions without an additive
 constant

For lists of the same length the documented value is b[0]/(a[0]+b[1]/...).
---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index cf1d1c0..6eef277 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,7 +386,7 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
+        return b[0] / eval_contfrac(a, b[1:])
     elif len(a) == len(b) + 1:
         res = a[-1]
         a = a[:-1]
-- 
2.43.0


From 4b5c0ae3376564a105648dfab377f6f4eb3fdb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 32/35] fix: logged continued fractions report the finalized
 result

---
 basic_representation_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 20813f5..bef0f33 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -69,6 +69,9 @@ class BasicRecursiveConstRepresenter:
                 #     break
         if hasattr(self, 'finalize_iterations') and exec_finalize:
             params, state_mat = self.finalize_iterations(params, state_mat, num_of_iters)
+            if self._logging:
+                for p in params:
+                    self._params_log[p][-1] = params[p]
         if print_calc:
             print('\n', end='')
 
-- 
2.43.0


From 8dcefdf9c0d55f4f949ffadc0523c2b56dff1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 33/35] fix: compare scaled ULCD parameters exactly instead of
 through a float ratio

---
 lhs_evaluators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 280ab58..2d8721e 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -153,11 +153,11 @@ class ULCDEvaluator(LHSEvaluator, metaclass=ULCDMetaClass):
             for s in [1, -1]:
                 if u1 == u2 * s and l1 == l2 * s and c1 == c2 * s and abs(d1) == abs(d2):
                     return True
-            ulcd_ratio = abs(d1 / d2)
-            if u1 == u2 * ulcd_ratio and l1 == l2 / ulcd_ratio and c1 == c2 * ulcd_ratio:
-                return True
-            if u1 == -u2 * ulcd_ratio and l1 == -l2 / ulcd_ratio and c1 == -c2 * ulcd_ratio:
-                return True
+            # compare (u1, l1, c1) to (u2, l2, c2) scaled by abs(d1 / d2); cross-multiplied to keep the comparison exact
+            abs_d1, abs_d2 = abs(d1), abs(d2)
+            for s in [1, -1]:
+                if u1 * abs_d2 == s * u2 * abs_d1 and l1 * abs_d1 == s * l2 * abs_d2 and c1 * abs_d2 == s * c2 * abs_d1:
+                    return True
             # if ulcd1 == ulcd2 and (pa1 == pa2 or list(pa1) == [ -x for x in pa2 ]):
             #     return True
 
-- 
2.43.0


From 157af1d3190b232d44eb18823c4128caa7a92a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 34/35] fix: approach estimation with small steps doesn't step
 back the iteration count

---
 cont_fracs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 6eef277..f86ce90 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -276,8 +276,12 @@ False if it's sub exponential (e.g. linear)."""
         delta_odd.append((initial_cutoff + 3, abs(res_5 - res_3)))
 
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
-            # -3 for the iterations of res_1, res_2, res_3 that were already executed
-            self.add_iterations(iters_step - 5)
+            # -5 for the iterations of res_1, ..., res_5 that were already executed
+            if iters_step >= 5:
+                self.add_iterations(iters_step - 5)
+            else:
+                # the iterations can't be stepped back, so start over
+                self.gen_iterations(i)
             res_0 = self.get_result()
             self.add_iterations(1)
             res_1 = self.get_result()
-- 
2.43.0


From 0559d50e913b2708acc7bf299e662c74867e4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 35/35] fix: too few usable ratios in the approach estimation
 give 'undefined'

---
 cont_fracs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f86ce90..6d3be5f 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -320,8 +320,8 @@ False if it's sub exponential (e.g. linear)."""
                       for i in range(0, len(delta_odd), 2) if delta_odd[i][1] != 0 and delta_odd[i+1][1] != 0 and
                       not isnan(delta_odd[i][1]) and not isnan(delta_odd[i+1][1]) ]
 
-        if len(pair_ratio) < 6:
-            return (approach_type, approach_parameter)
+        if len(pair_ratio) < 6 or len(odd_ratio) < 6:
+            return (approach_type or 'undefined', approach_parameter)
 
         mean_pair_ratio = sum([ p for i, p in pair_ratio] ) / len(pair_ratio)
         mean_pair_ratio_avg_square_error = sum([ (r-mean_pair_ratio)**2 for i, r in pair_ratio ]).sqrt() / len(pair_ratio)
-- 
2.43.0

