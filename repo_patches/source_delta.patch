From 0ddd93c0ffd1c1454e1b0c1fc5566f7308b9d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 01/16] fix: name the sextic Hamiltonian/Z order so truncations
 of rank 6 can be generated

---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From 45995653480e2fbe6b681032f64c0a53ad3de872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 02/16] fix: provide enough z summation labels for every
 allowed truncation

---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From 1846797b99205a077b8ddc24abbfc34e53f5c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 03/16] fix: label all the normal modes of 5th and 6th order
 residuals

---
 termfactory/code_residual_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..fd0875f 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -343,7 +343,7 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p']
 k_list = ['m', 'n']
 
 
-- 
2.43.0


From 990978c1e35b6e398bae48c9c90bdafbf70a3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 04/16] fix: keep the factorial of the w operator in the
 prefactor of h^2 residual terms

---
 termfactory/code_residual_equations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index fd0875f..f2d6256 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -72,6 +72,9 @@ def extract_numerator_denominator_from_string(s):
     from a string (s) of a fraction w factorial in denominator part.
     """
 
+    # the extra factor of 2 that `simplified_prefactor` places at the front of the denominator is not part of it
+    s = s.replace("(2*", "(")
+
     if "*" in s:  # we are only trying to get the first fraction
         s = s.split('*')[0]
 
-- 
2.43.0


From b0ddadc9dc7e6506c322599b1c26eed3a0795b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 05/16] fix: do not discard full CC einsums which share
 truncation ranks and prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From a8ecaad9a8b75d7750d7ffc4f3ce78cf3ca44394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:40 +0000
Subject: [PATCH 06/16] fix: count which t amplitudes contract with H and which
 with Z in the eT_z_t latex prefactor

---
 termfactory/latex_eT_zhz.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/termfactory/latex_eT_zhz.py b/termfactory/latex_eT_zhz.py
index 44a776d..7cf1858 100644
--- a/termfactory/latex_eT_zhz.py
+++ b/termfactory/latex_eT_zhz.py
@@ -1309,6 +1309,14 @@ def _build_eThz_latex_prefactor(t_list, h, z_left, z_right, overcounting_prefact
         denominator_value *= math.factorial(len(t_list))
         denominator_list.append(f'{len(t_list)}!')
 
+        # to account for the choices of which t's contract with H and which t's contract with Z
+        # (those permutations were removed as duplicates of this term)
+        count_t_h = sum(1 for m_t, n_t in zip(h.m_t, h.n_t) if m_t + n_t > 0)
+        t_perms = math.comb(len(t_list), count_t_h)
+        if t_perms > 1:
+            numerator_value *= t_perms
+            numerator_list.append(f'({t_perms})')
+
     for t in t_list:
 
         if t.m > 1:
-- 
2.43.0


From 5c062def4ec315ddd2971c248278f78d02ec8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:10 +0000
Subject: [PATCH 07/16] fix: apply the default ansatz when only some generator
 options are provided

---
 termfactory/_glue_.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/termfactory/_glue_.py b/termfactory/_glue_.py
index 59b1298..b4e811e 100644
--- a/termfactory/_glue_.py
+++ b/termfactory/_glue_.py
@@ -30,11 +30,9 @@ def _generate_python(trunc, **kwargs):
         'lhs_rhs': default_lhs_rhs,
     }
 
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # any argument the caller did not provide keeps its default value
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
@@ -107,11 +105,9 @@ def _generate_latex(trunc, **kwargs):
         'ansatz': 'full cc',
         'lhs_rhs': default_lhs_rhs,
     }
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # any argument the caller did not provide keeps its default value
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
-- 
2.43.0


From 6fcf15daefd60d92e8cecf0ed5fc6cce30858d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 08/16] fix: dt/dtau z products of mixed projections reused a
 label

For projections with both creation and annihilation labels the z factor was
labelled with the annihilation labels already carried by t, and the creation
labels were lost.
---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From 5092adf436fd2ba8e36df9b488c9a83dab0a985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:47 +0000
Subject: [PATCH 09/16] fix: labels of linked disconnected cubic terms skipped
 a letter

The labels of h were counted twice when labelling the remaining t amplitudes,
so the free labels of one equation differed from term to term (z y w, z y x).
---
 termfactory/latex_full_cc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..02ec268 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1194,6 +1194,9 @@ def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False,
         if linked_condense:
             linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
 
+            # `t_offset_dict` already accounts for the labels of `h`, and so does `_build_t_term_latex_group`
+            t_offset_dict['unlinked'] -= h.m_o + h.n_o
+
             # prepare the t-amplitude terms
             t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
 
-- 
2.43.0


From bb4cf1ad67a4c6ea3f3490c4bcd856f9f09da167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:03 +0000
Subject: [PATCH 10/16] fix: regenerating the thermal W equations duplicated
 old equations

The first 29 lines of an existing file were kept as its header even if they
were equations written by the previous run; keep the actual latex header.
---
 termfactory/latex_w_equations.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..c3b4980 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -245,23 +245,18 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
         latex_code = latex_code[:-3] + ")\\\\ \n\n"
     latex_code += "\\end{equation}\n"
 
-    # if file already exists then update it
+    # if the file already exists and has a latex header then keep only that header
+    header = ''
     if os.path.isfile(path): # pragma: no cover
-
-        # read the entire file contents
         with open(path, 'r') as fp:
-            file_contents = fp.readlines()
-
-        # keep only the header
-        header = ''.join(file_contents[0:29])
+            file_contents = fp.read()
 
-        # write the new header with latex code attached
-        with open(path, 'w') as fp:
-            fp.write(header + latex_code + r'\end{document}')
+        begin = '\\begin{document}\n'
+        if begin in file_contents:
+            header = file_contents[:file_contents.index(begin)] + begin
 
-    # otherwise write a new file
-    else: # pragma: no cover
-        with open(path, 'w') as fp:
-            fp.write(latex_code)
+    # write the header (if any) with latex code attached
+    with open(path, 'w') as fp:
+        fp.write(header + latex_code + (r'\end{document}' if header != '' else ''))
 
-    return
\ No newline at end of file
+    return
-- 
2.43.0


From 16c7ef6b7408b1ac810c772ab0146e9b878787a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:34 +0000
Subject: [PATCH 11/16] fix: powers of ten and more in the W equations printed
 as one digit

LaTeX raises only the next character, so (t)^10 was typeset as the first power
followed by a zero.
---
 termfactory/latex_w_equations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index c3b4980..740d037 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -107,6 +107,8 @@ def ground_state_w_equations_latex(max_w_order, path="./ground_state_w_equations
             for n in item_dict.keys():
                 if item_dict[n] == 1:
                     line += rf"\bt^{{{n}}}"
+                elif item_dict[n] > 9:  # LaTeX only raises a single digit unless it is grouped
+                    line += rf"(\bt^{{{n}}})^{{{item_dict[n]}}}"
                 else:
                     line += rf"(\bt^{{{n}}})^{item_dict[n]}"
 
-- 
2.43.0


From 857e4fa7a4b7215e6cd5a50f0460e3c4f5629f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 12/16] fix: refuse z_t truncations outside the supported range

---
 termfactory/latex_zhz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 44362f0..85f84f1 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1721,6 +1721,8 @@ def _generate_z_symmetric_latex_equations(LHS, H, Z, only_ground_state=True, rem
 def generate_z_t_symmetric_latex(truncations, **kwargs):
     """Generates and saves to a file the latex equations for full CC expansion."""
 
+    _verify_zhz_truncations(truncations)
+
     # unpack kwargs
     only_ground_state = kwargs['only_ground_state']
     remove_f_terms = kwargs['remove_f_terms']
-- 
2.43.0


From 58a04f719e21181d6a4ee0b9ed16256d834afec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 13/16] fix: -rf False removed the f terms

---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..118f991 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _boolean(string):
+    """ `bool('False')` is True, so the words have to be recognized """
+    if string.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if string.lower() in ('false', 'f', 'no', 'n', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f'{string!r} is not a boolean')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_boolean, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 2ecc98f46df0ca89a11fb10a641b2dd7e2492f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 14/16] fix: output order of cancelled factorials depended on
 PYTHONHASHSEED

The numerator and denominator counts were keyed by sets of strings, whose
iteration order changes from one process to the next.
---
 termfactory/code_eT_zhz.py   | 4 ++--
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_eT_zhz.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/termfactory/code_eT_zhz.py b/termfactory/code_eT_zhz.py
index 2e9cc59..b41281e 100644
--- a/termfactory/code_eT_zhz.py
+++ b/termfactory/code_eT_zhz.py
@@ -451,13 +451,13 @@ def _simplify_eT_zhz_python_prefactor(numerator_list, denominator_list):
         intersection = numerator_set & denominator_set
 
     # count number of appearances
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     log.debug('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_eT_zhz.py b/termfactory/latex_eT_zhz.py
index 7cf1858..e7fee1c 100644
--- a/termfactory/latex_eT_zhz.py
+++ b/termfactory/latex_eT_zhz.py
@@ -1094,13 +1094,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):  # pra
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     log.debug('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index 02ec268..4a3b4af 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 6c9f5df80d65db4287e7cf7d361a10a980a54337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 15/16] fix: load_trunc_from_JSON ignored the dictionary it is
 given instead of overwriting its values

---
 termfactory/truncations.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..fb7e72d 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -229,11 +229,7 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite its values (in place) with those stored in the file
+    dictionary.update(_load_from_JSON(path))
 
     return
-- 
2.43.0


From f68ca9f105bcbb72811ac7e71672a726fa855c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 16/16] fix: order 3 residual keeps the h^2 w_1 term when W
 operators of order 5 are available

The term stood in the else branch of the test for the higher order W operator,
so it was dropped whenever that one was available.
---
 termfactory/code_residual_equations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index f2d6256..ad33728 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -468,8 +468,8 @@ def write_residual_function_string(residual_terms_list, order):
             # find all the other terms whose h operator is quadratic (2nd or higher order)
             for quad_term in quadratic_terms:
                 already_printed_list.append(quad_term)
-                # if the next quadratic term has a W operator which is 2nd or higher order
-                if bool(quad_term.w.order >= 2):
+                # if the next quadratic term has a W operator, which may not be available
+                if bool(quad_term.w.order >= 1):
                     string += (
                         f"{tab}{tab}if {w_dict[quad_term.w.order]} is not None:\n"
                         f"{tab}{tab}{tab}" + _residual_terms_einsum(quad_term)
-- 
2.43.0

