From 726ff8435da6110d1aef3d5cc806d56696594b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 01/23] fix: change kernels compute with their linked
 sub-kernels instead of the unlinked originals

---
 GPy_ABCD/Kernels/changeOperators.py          | 3 +--
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..b3799a2 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, whose parameters are the ones in the tree
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..1517e5f 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, whose parameters are the ones in the tree
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..c7257cf 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # I.e. the linked copies, whose parameters are the ones in the tree
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From 5f41ae7b3592fa8f76e6e529313a762e3f61886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 02/23] fix: keep the parameters of LIN in products with WN,
 like simplify_base_terms keeps the term

---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..3392821 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,7 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From bdc68a98b6b2ecb39e458ba497258ddab5387adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 03/23] fix: lengthscale of a product of SEs

---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 3392821..e70de0b 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: acc * l / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From e68eae1bec8394cb19d4a7516fa4b1b40ea78e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 04/23] fix: sum-of-products form of nodes with no base terms
 (which have no parameters of their own)

---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index e70de0b..3cbde08 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not sum(self.base_terms.values()), 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not sum(self.base_terms.values()), 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From 4b69caf13d02f438e14219cbf418622fac7bc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 05/23] fix: slope keys of hole intervals when intersecting
 reversed sigmoidal indicators

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..d820330 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -156,16 +156,16 @@ def intersect_segment_semiline(segment, semiline, res = None):
 def intersect_segment_hole(segment, hole, res = []):
     if segment['start'] < hole['end']:
         if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
+        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['end_slope']})
     if segment['end'] > hole['start']:
         if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
+        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['start_slope'], 'end_slope': segment['end_slope']})
     return res
 
 def intersect_semiline_hole(semiline, hole, res = []):
     if 'start' not in semiline:
         if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
+            res.append({'end': hole['end'], 'end_slope': hole['end_slope']})
             if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
         else: res.append(semiline)
     else: # elif 'end' not in semiline:
-- 
2.43.0


From 89d2346b70aa986147c6089eb637bcd3addfb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 06/23] fix: intersections of sigmoidal intervals which are
 empty or made of several parts

---
 .../KernelExpansion/kernelInterpretation.py   | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index d820330..56d52d6 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -85,7 +85,7 @@ def postmodifier_interpretation(bps):
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-        res = ', '.join(interval_ress)
+        res = ', '.join(interval_ress) if interval_ress else 'nowhere'
     elif b not in base_sigmoids: raise ValueError(f'An unexpected type of postmodifier term in a pure product has arisen: {b}')
     return res
 
@@ -104,7 +104,7 @@ def sigmoids_to_intervals(bpss):
         # if b in sigmoidals: del bpss[b]
     if len(sigmoidals) > 0:
         res = simplify_sigmoidal_intervals(sigmoidals)
-        bpss['sigmoidal_intervals'] = res if isinstance(res, list) else [res]
+        bpss['sigmoidal_intervals'] = as_interval_list(res)
     return bpss
 
 def S_interval(S_p): return {'start': S_p['location'], 'start_slope': S_p['slope']}
@@ -186,24 +186,23 @@ def simplify_sigmoidal_intervals_step(acc, new):
     step_res = simplify_sigmoidal_interval_pair(acc, new)
     return None if step_res is None else identify_interval_type(step_res)
 
-# Intersect two DIFFERENT TYPES of sigmoid parameters (apply after reducing same type ones)
+# Intersect two sets of sigmoid intervals (each a single interval or a list of disjoint ones; apply after reducing same type sigmoids)
 def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of (sigmoid_str, parameters)
-    pair = {b_ips1[0]: [b_ips1[1], b_ips2[1]]} if b_ips1[0] == b_ips2[0] else dict([b_ips1, b_ips2])
-    res = []
-    if len(pair) == 2: # Always when called directly
-        if 'SIr' in pair:
-            for interval in pair['SIr']:
-                new_interval = simplify_sigmoidal_interval_pair([(x, pair[x]) for x in pair if x != 'SIr'][0], identify_interval_type(interval))
-                if new_interval != []: res.append(new_interval)
-        elif 'SI' in pair:
-            new_interval = intersect_segment_semiline(pair['SI'], pair['S' if 'S' in pair else 'Sr'])
-            if new_interval is not None: res.append(new_interval)
-        elif pair['S']['start'] < pair['Sr']['end']: res.append({**pair['S'], **pair['Sr']})
-    else: # Only happens when called by itself for SIr case
-        if 'SI' in pair: res = SI_overlap(pair['SI'])
-        elif 'S' in pair: res = S_overlap(pair['S'])
-        else: res = (Sr_overlap(pair['Sr']))
-    return res[0] if isinstance(res, list) and len(res) == 1 else res
+    intersections = [intersect_interval_pair(ip1, ip2) for ip1 in as_interval_list(b_ips1[1]) for ip2 in as_interval_list(b_ips2[1])]
+    res = [interval for interval in intersections if interval is not None]
+    return res[0] if len(res) == 1 else res
+
+def intersect_interval_pair(ip1, ip2): # None if the intersection is empty
+    pair = {}
+    for interval_type, ip in map(identify_interval_type, (ip1, ip2)): pair.setdefault(interval_type, []).append(ip)
+    if len(pair) == 1:
+        if 'SI' in pair: return SI_overlap(pair['SI'])
+        elif 'S' in pair: return S_overlap(pair['S'])
+        else: return Sr_overlap(pair['Sr'])
+    elif 'SI' in pair: return intersect_segment_semiline(pair['SI'][0], pair['S' if 'S' in pair else 'Sr'][0])
+    else: return {**pair['S'][0], **pair['Sr'][0]} if pair['S'][0]['start'] < pair['Sr'][0]['end'] else None
+
+def as_interval_list(intervals): return intervals if isinstance(intervals, list) else [] if intervals is None else [intervals]
 
 
 def identify_interval_type(interval):
-- 
2.43.0


From 1ba90ddb0fe719273ad1318a5a6bfdafc1635e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 07/23] fix: report the slopes of bounded intervals when they
 are fit rather than when they are fixed

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 56d52d6..c1e7575 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -81,7 +81,7 @@ def postmodifier_interpretation(bps):
                 else: interval_ress.append('from {:.2f} (with change slope {:.2f})'.format(interval['start'], interval['start_slope']))
             else:
                 interval_ress.append('between {:.2f} and {:.2f}'.format(interval['start'], interval['end']))
-                if __FIX_SIGMOIDAL_KERNELS_SLOPE:
+                if not __FIX_SIGMOIDAL_KERNELS_SLOPE:
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-- 
2.43.0


From 792ab3abd5d0a6c6f63cddc2d127c95e312406ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 08/23] fix: replacing the left raw-string leaf of a ChangeKE
 no longer replaces its right branch

---
 GPy_ABCD/KernelExpressions/change.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..bd568f4 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -35,11 +35,16 @@ class ChangeKE(KernelExpression):
     def extract_if_singleton(self):
         return self
 
+    def _leaf_node(self, branch): # A SumKE singleton standing for a raw string leaf; it is not in the tree, hence it has to remember its branch (for reassign_child)
+        leaf_node = SumKE([getattr(self, branch)]).set_root(self.root).set_parent(self)
+        leaf_node.change_branch = branch
+        return leaf_node
+
     def traverse(self):
         res = [self]
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
-        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
-        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [self._leaf_node('left')]#[]
+        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [self._leaf_node('right')]#[]
         return res
 
     def reduce(self, func, acc):
@@ -69,7 +74,7 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        if self.left is old_child or getattr(old_child, 'change_branch', None) == 'left': self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From a9ccc9bf16465bfada193f23fdb8a2620966b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 09/23] fix: swap_base no longer adds a term when a base kernel
 is swapped with itself

---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..ea62486 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B]
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From ce1bd1395ca815d183e12372ccfe2de28eb3f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 10/23] fix: refitting a GPModel discards the interpretation
 and utility of the previous fit

---
 GPy_ABCD/Models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..fc39a24 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -25,6 +25,7 @@ class GPModel():
         if restarts is None:
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
+        self._sum_of_prods_kex = self.cached_utility_function = self.cached_utility_function_type = None # They are about the previous fit (if any)
         self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-- 
2.43.0


From 6e58a35edad918eb64263cc5e8a56fe3331ba2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 11/23] fix: offset and sigmoidal parameter gradients for X2
 different from X

---
 GPy_ABCD/Kernels/linearOffsetKernel.py |  2 +-
 GPy_ABCD/Kernels/sigmoidalKernels.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GPy_ABCD/Kernels/linearOffsetKernel.py b/GPy_ABCD/Kernels/linearOffsetKernel.py
index 7eece4e..311ddbc 100644
--- a/GPy_ABCD/Kernels/linearOffsetKernel.py
+++ b/GPy_ABCD/Kernels/linearOffsetKernel.py
@@ -67,7 +67,7 @@ class LinearWithOffset(Kern):
     def update_gradients_full(self, dL_dK, X, X2=None):
         if X2 is None: X2 = X
         dK_dV = (X - self.offset) * (X2 - self.offset).T
-        dK_do = self.variance * (2 * self.offset - X - X2)
+        dK_do = self.variance * (2 * self.offset - X - X2.T)
 
         self.variance.gradient = np.sum(dL_dK * dK_dV)
         self.offset.gradient   = np.sum(dL_dK * dK_do)
diff --git a/GPy_ABCD/Kernels/sigmoidalKernels.py b/GPy_ABCD/Kernels/sigmoidalKernels.py
index feb5ae0..7fca4ec 100644
--- a/GPy_ABCD/Kernels/sigmoidalKernels.py
+++ b/GPy_ABCD/Kernels/sigmoidalKernels.py
@@ -126,13 +126,13 @@ def _update_gradients_full_S_2(variance, location, slope, _fixed_slope, phi1, ph
     sig_d, sig_d2 = _sigmoid_function_d(arg), _sigmoid_function_d(arg2)
 
     dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = sig_d * (-arg / slope)
         dphi2_ds = sig_d2 * (-arg2 / slope)
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
@@ -207,19 +207,19 @@ def _update_gradients_full_SI(variance, location, slope, width, reverse, _fixed_
 
     dphi1_dl = ((- sig_d + sig_dW) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
     dphi2_dl = ((- sig_d2 + sig_dW2) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = ((sig_d * arg + sig_dW * argW) / (-slope)) * inv_height + numerator1 * dinvheight_ds
         dphi2_ds = ((sig_d2 * arg2 + sig_dW2 * argW2) / (-slope)) * inv_height + numerator2 * dinvheight_ds
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
     dphi1_dw = (sig_dW / slope) * inv_height + numerator1 * dinvheight_dw # d(asc)_dw = 0
     dphi2_dw = (sig_dW2 / slope) * inv_height + numerator2 * dinvheight_dw # d(asc)_dw = 0
-    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + phi2.dot(dphi1_dw.T))).sum()
+    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + dphi1_dw.dot(phi2.T))).sum()
     if np.isnan(width_gradient): width_gradient = 0.0
 
     if reverse: # Works this simply (a single sign flip per product above)
-- 
2.43.0


From f942a7a472a9209935809a013c112e60431e8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 12/23] fix: diff no longer stops at the first absent element

---
 GPy_ABCD/Util/genericUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Util/genericUtil.py b/GPy_ABCD/Util/genericUtil.py
index ac999f0..1d31ede 100644
--- a/GPy_ABCD/Util/genericUtil.py
+++ b/GPy_ABCD/Util/genericUtil.py
@@ -108,9 +108,9 @@ def eq_elems_h(xs: Iterable[_a], ys: Iterable[_a]) -> bool: return set(xs) == se
 
 def diff(xs: Iterable[_a], ys: Iterable[_a]) -> List[_a]:
     cxs = list(xs) # make a mutable copy
-    try:
-        for y in ys: cxs.remove(y)
-    except ValueError: pass
+    for y in ys:
+        try: cxs.remove(y)
+        except ValueError: pass
     return cxs
 def diff_h(xs: Iterable[_a], ys: Iterable[_a]) -> Set[_a]: return set(xs) - set(ys)
 
-- 
2.43.0


From c976393288507166617f3ce99b9c8639aa8c6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 13/23] fix: generated data is no longer truncated to integers
 if the first value is one

---
 GPy_ABCD/Util/dataAndPlottingUtil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Util/dataAndPlottingUtil.py b/GPy_ABCD/Util/dataAndPlottingUtil.py
index fcd0c0b..7db4fad 100644
--- a/GPy_ABCD/Util/dataAndPlottingUtil.py
+++ b/GPy_ABCD/Util/dataAndPlottingUtil.py
@@ -12,7 +12,7 @@ def gg_plot(X, Y, colour = 'blue'):
 
 def gg_f_plot(f, X, colour = 'blue'):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X)
+    Y = np.vectorize(f, otypes = [float])(X)
     df = pd.DataFrame({'X': X[:, 0], 'Y': Y[:, 0]})
     return ggplot(df) + geom_line(aes('X', 'Y'), color = colour)
 # print(gg_f_plot(lambda x: x**2, range(20)))
@@ -25,7 +25,7 @@ def cp_f_maker(f1, f2, cp, line_up = False):
     def cp_f_lined_up(x):
         if x < cp: return f1(x)
         else: return (f1(cp) - f2(cp)) + f2(x)
-    return np.vectorize(cp_f_lined_up if line_up else cp_f)
+    return np.vectorize(cp_f_lined_up if line_up else cp_f, otypes = [float])
 
 def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
     def cw_f(x):
@@ -35,12 +35,12 @@ def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
         if x < cw_start: return f1(x)
         elif x > cw_end: return (cw_f_lined_up(cw_end) - f1(cw_end)) + f1(x)
         else: return (f1(cw_start) - f2(cw_start)) + f2(x)
-    return np.vectorize(cw_f_lined_up if line_up else cw_f)
+    return np.vectorize(cw_f_lined_up if line_up else cw_f, otypes = [float])
 
 
 def generate_data(f, X, Y_weight = 1, noise_weight = 1):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
+    Y = np.vectorize(f, otypes = [float])(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
     return X, Y
 # X, Y = generate_data(lambda x: x**2, range(20))
 # print(gg_plot(X, Y))
-- 
2.43.0


From 71eade6858c3caebe9e9e9f91fb3aabf2fa535fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 14/23] fix: printing of empty model lists in verbose searches

---
 GPy_ABCD/Models/modelSearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..15d2014 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
-- 
2.43.0


From b5bfc134d874dc533059758ca731595d0e7682ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 15/23] fix: searches of 0 rounds and, when continuing a
 search, integer or short beams

---
 GPy_ABCD/Models/modelSearch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 15d2014..da51a75 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -23,6 +23,14 @@ def print_k_list(k_or_model_list):
     return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
+def full_beam(beam, rounds):
+    '''Handle beam argument: ensure it is a list of integers of length rounds (or at least 1)'''
+    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
+        return beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:max(rounds, 1)]
+    elif isinstance(beam, int): return [beam] * max(rounds, 1)
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
     retry = 0
     while True:
@@ -90,11 +98,7 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+    beam = full_beam(beam, rounds)
 
     if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
 
@@ -116,6 +120,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
     def score(m): return m.compute_utility(utility_function)
+    beam = full_beam(beam, rounds)
 
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
-- 
2.43.0


From 368cbe1860f9c43a47b41cac891164cf23054229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 16/23] fix: continuing a search does not alter the previous
 search's results and reports the right rounds

---
 GPy_ABCD/Models/modelSearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index da51a75..2b5ed77 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -122,7 +122,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     def score(m): return m.compute_utility(utility_function)
     beam = full_beam(beam, rounds)
 
-    for r, b in zip(range(1, rounds + 1), beam):
+    tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded) # The previous search's results are not to be modified
+
+    for r, b in zip(range(len(tested_models), len(tested_models) + rounds), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
         tested_models.append(sorted(model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries), key = score))  # tested_models[d]
 
-- 
2.43.0


From b1d1d16a979b7597ed7a5e17f5ff166b10f75160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 17/23] fix: simplification completes in one pass when
 singletons contain terms to absorb (and a lone nested C factor does not
 vanish)

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..bea04f0 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms() # In this order since singletons can contain homogeneous composites
 
     @abstractmethod
     def simplify_base_terms(self):
-- 
2.43.0


From dff6dc43fc70603a45df908d7491dc2473c60625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 18/23] fix: a term given more than once to a sum or product
 becomes as many nodes, not one shared node

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index bea04f0..c4bed11 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -12,7 +12,7 @@ class SumOrProductKE(KernelExpression): # Abstract
     def __init__(self, base_terms, composite_terms = [], root: KernelExpression = None, parent: KernelExpression = None, symbol = None, GPy_name = None):
         super().__init__(root, parent, GPy_name)
         self.base_terms = deepcopy(base_terms) if isinstance(base_terms, Counter) else Counter(base_terms)
-        self.composite_terms = deepcopy(composite_terms)
+        self.composite_terms = [deepcopy(ct) for ct in composite_terms] # Separately, so that a term given more than once is as many nodes
         self.symbol = symbol
         # self.simplify_base_terms() # Activate only this instead of full simplify for some testing
         self.simplify()
-- 
2.43.0


From 6ffd97c40988795579efff3b85806e0e2b78b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 19/23] fix: one set of parameters for the one WN left of those
 meeting in an expanded product

---
 GPy_ABCD/KernelExpressions/commutatives.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 3cbde08..b72209a 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -93,6 +93,7 @@ class ProductKE(SumOrProductKE):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
                 if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+            if len(self.parameters['WN']) > 1: self.parameters['WN'] = [dict()]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From fec8a4804be434b1d88d2ae9ea5ec2968ad5df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 20/23] fix: continuing a search accepts one-dimensional data
 like starting one does

---
 GPy_ABCD/Models/modelSearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 2b5ed77..51f27f9 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -119,6 +119,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
 
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
+    if len(np.shape(X)) == 1: X = np.array(X)[:, None]
+    if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
+
     def score(m): return m.compute_utility(utility_function)
     beam = full_beam(beam, rounds)
 
-- 
2.43.0


From 40ca44e29d14fcc0b44ccc9754319b7466ea2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 21/23] fix: plot all sample curves, not all but one

---
 GPy_ABCD/Util/kernelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index be7f07b..ce2a1c8 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -18,7 +18,7 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
-    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(Z.shape[1]))[1:])) +\
+    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(df.columns)[1:])) +\
             geom_line(aes('X', 'value', color = 'variable'), show_legend = False)
 
 
-- 
2.43.0


From 79f68aa9eaf699dd5a584fbb93181d484962788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 22/23] fix: sample curves from the covariance of the points
 themselves, which includes white noise

---
 GPy_ABCD/Util/kernelUtil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index ce2a1c8..637d153 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -14,8 +14,8 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     mu = np.zeros(500) # vector of the means
     if same_kernel:
         k.randomize()
-        Z = np.random.multivariate_normal(mu, k.K(X, X), n_curves).T # sample paths with means mu and covariance C
-    else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
+        Z = np.random.multivariate_normal(mu, k.K(X), n_curves).T # sample paths with means mu and covariance C
+    else: Z = np.array([np.random.multivariate_normal(mu, k.K(X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
     return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(df.columns)[1:])) +\
-- 
2.43.0


From 06e84724f59381ab34d9c024489fe4e4e8955655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 23/23] fix: save kernel samples with the method plots have, in
 the given folder

---
 GPy_ABCD/Util/kernelUtil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index 637d153..8b2c18f 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -1,3 +1,5 @@
+from os.path import join
+
 import numpy as np
 import pandas as pd
 from plotnine import ggplot, geom_line, aes
@@ -23,6 +25,6 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
 
 
 def saveKernelSamples(ks, names, path, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
-    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).savefig(f'{n}.png')
+    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).save(join(path, f'{n}.png'), verbose = False)
 
 
-- 
2.43.0

