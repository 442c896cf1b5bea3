From 7f8ccd796653e422b487fbfe326093411933e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 01/11] fix: name the 6th order Hamiltonian/Z truncation flag
 (sextic) so H=6 and CC=6 code can be generated

---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From 6cc02ee9ab473b993937c55c1617ad72487d0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 02/11] fix: provide enough summation labels for every allowed
 (eT-)ZHZ LaTeX truncation

---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..70d49e9 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqrij'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From 0c761fbfd965e0ecd56d95132ad4aa58e5968b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:35 +0000
Subject: [PATCH 03/11] fix: give z the remaining creation labels in the dt*z
 products of mixed ZHZ equations

---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From b0fc47576b11b6117228d85d038ecc0757ba023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:57 +0000
Subject: [PATCH 04/11] fix: keep every full-CC einsum when several diagrams
 share rank and prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From d88cd734986185922c8c06037746a30b7891f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:43 +0000
Subject: [PATCH 05/11] fix: keep full-CC prefactor factors in a reproducible
 order instead of string-hash order

---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..2f7403d 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 41fd303822d0f9b2a77e4d558804d4f49d1b81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 06/11] fix: verify the truncation of a z-ansatz LaTeX request
 as every other generator does

---
 termfactory/latex_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 44362f0..da0d6dc 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1727,6 +1727,7 @@ def generate_z_t_symmetric_latex(truncations, **kwargs):
     path = kwargs['path']
 
     # unpack truncations
+    _verify_zhz_truncations(truncations)
     maximum_h_rank = truncations[tkeys.H]
     maximum_cc_rank = truncations[tkeys.CC]
     omega_max_order = truncations[tkeys.P]
-- 
2.43.0


From dd56f99e1a710e6cce99fd2a9f769a187431b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:32 +0000
Subject: [PATCH 07/11] fix: read '-rf False' as False instead of removing the
 f terms

---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..c4f75bd 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _string_to_bool(string):
+    """ Note that `type=bool` would read every non empty string (including 'False') as `True` """
+    if string.lower() in ('true', 'yes', '1'):
+        return True
+    if string.lower() in ('false', 'no', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f'expected True or False, not {string!r}')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_string_to_bool, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 40dfba270cdc3e633568ead901be84754ab10546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:28 +0000
Subject: [PATCH 08/11] fix: brace exponents of ten and more in the ground
 state W LaTeX

---
 termfactory/latex_w_equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..7552c56 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -108,7 +108,9 @@ def ground_state_w_equations_latex(max_w_order, path="./ground_state_w_equations
                 if item_dict[n] == 1:
                     line += rf"\bt^{{{n}}}"
                 else:
-                    line += rf"(\bt^{{{n}}})^{item_dict[n]}"
+                    # an exponent of more than one digit needs braces
+                    power = item_dict[n] if item_dict[n] < 10 else f"{{{item_dict[n]}}}"
+                    line += rf"(\bt^{{{n}}})^{power}"
 
             terms.append(line)
 
-- 
2.43.0


From 2902d5ad63a94f7c935a442937a3463bf015a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:21 +0000
Subject: [PATCH 09/11] fix: residual code of orders five and six lacked output
 labels

---
 termfactory/code_residual_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..8932988 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -343,7 +343,7 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p']  # 'm' and 'n' are taken by `k_list`
 k_list = ['m', 'n']
 
 
-- 
2.43.0


From 8ace8ebb6439cc4daf68812c086e378192d274a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:35 +0000
Subject: [PATCH 10/11] fix: residual prefactor of h^2 w_n read the 2 of
 (1/(2*n!)) instead of n

---
 termfactory/code_residual_equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index 8932988..5e919b6 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -234,7 +234,8 @@ def generate_p_term(str_fac):
     if str_fac == "(1/2) * ":  # pragma: no cover
         return "0.5"
 
-    arr = extract_numerator_denominator_from_string(str_fac)
+    # in `(1/(2*n!))` the denominator we want is the n, not the 2
+    arr = extract_numerator_denominator_from_string(str_fac.replace("/(2*", "/("))
     numerator, denominator = arr[0], arr[1]
 
     if "/(2*" in str_fac:
-- 
2.43.0


From 6ff85033f4ed82ee5827d6e52f452c6e698bd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:32 +0000
Subject: [PATCH 11/11] fix: loading a truncation file into a provided
 dictionary overwrites its values as documented

---
 termfactory/truncations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..5912ed2 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -229,11 +229,9 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite its contents (in place) with the stored values
+    stored_values = _load_from_JSON(path)
+    dictionary.clear()
+    dictionary.update(stored_values)
 
     return
-- 
2.43.0

