From 99fdffd4761d655990698bcfce967819d5b1af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:02 +0000
Subject: [PATCH 001/102] fix: marginalise() renumbers dimensions by the axes
 summed, not by key order

---
 probayes/pd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..070f039 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,7 +145,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     sum_axes = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -153,11 +152,14 @@ class PD (Distribution):
             "Cannot marginalise along scalar for key {}".format(key)
         sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
       else:
-        if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
         vals.update({key:self[key]})
+
+    # Remaining dimensions fall by the number of summed axes that precede them
+    for i, key in enumerate(self._keylist):
+      if key not in keys and not self._aresingleton[i]:
+        dim_delta = len([axis for axis in sum_axes if axis < self._dims[key]])
+        dims.update({key: self._dims[key] - dim_delta})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
     sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
-- 
2.43.0


From 281898916874a7dba38ea7cac1f5996388a75828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 002/102] fix: conditionalise() keeps probabilities aligned
 with values for any axis order

---
 probayes/pd.py | 58 +++++++++++++-------------------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 070f039..140cd1d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -226,46 +226,24 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
+    key_dims = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key: marg.pop(key)})
-      if self._aresingleton[i]:
-        dims.update({key: None})
-        if key in keys:
-          normalise = True
-      elif key in self._marg.keys():
         if self._aresingleton[i]:
-          marg_scalars.add(key)
-        if key in keys:
-          delta += 1 # Don't add to dim just yet
+          normalise = True
         else:
-          dim = self._dims[key]
-          dims.update({key: dim})
-      else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
-      dim = self._dims[key]
-      if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+          key_dims.add(self._dims[key])
+
+    # Reduce remaining dimensions to lowest followed by conditioned dimensions
+    old_dims = [dim for dim in range(self._ndim) if dim not in key_dims] + \
+               sorted(key_dims)
+    for conditioned in [False, True]:
+      for i, key in enumerate(self._keylist):
+        if (key in keys) == conditioned:
+          dims.update({key: None if self._aresingleton[i] else \
+                            old_dims.index(self._dims[key])})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
@@ -274,17 +252,11 @@ class PD (Distribution):
     # Setup vals dimensions and evaluate probabilities
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(super().redim(dims))
-    old_dims = []
-    new_dims = []
     sum_axes = set()
     for key in self._keylist:
-      old_dim = self._dims[key]
-      if old_dim is not None and old_dim not in old_dims:
-        old_dims.append(old_dim)
-        new_dims.append(dims[key])
-        if key not in keys and key in self._marg.keys():
-          sum_axes.add(dims[key])
-    prob = np.moveaxis(self._prob, old_dims, new_dims)
+      if dims[key] is not None and key in marg:
+        sum_axes.add(dims[key])
+    prob = np.transpose(self._prob, old_dims)
     if normalise and iscomplex(self._pscale): 
       prob = prob - prob.max()
     prob = rescale(prob, self._pscale, 1.)
-- 
2.43.0


From 7c7f5cbe844010a6ddaec98869a37209bd8405bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 003/102] fix: product() lists a conditional shared by its
 operands once

---
 probayes/pd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..c724b4c 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -198,7 +198,8 @@ def product(*args, **kwds):
                           for name in dist_cond_names]
   cond2marg = [cond_name for cond_name in flat_cond_names \
                          if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
+  prod_cond = [cond_name for cond_name in \
+                         collections.OrderedDict.fromkeys(flat_cond_names) \
                          if cond_name not in cond2marg]
   cond2marg_set = set(cond2marg)
 
-- 
2.43.0


From c78d3b83713e18db63f8103d0cce2f76db4ff512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 004/102] fix: prod_pscale() sums log-probability offsets
 without logging them again

---
 probayes/pscales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..4c4987f 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -151,9 +151,9 @@ def prod_pscale(pscales, use_logp=None):
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
     elif rtype > 0:
-      return complex(np.log(rtype), 0.)
+      return complex(rtype, 0.)
     else:
-      return complex(np.log(-rtype), np.pi)
+      return complex(-rtype, np.pi)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 548c8571b9f46d1074cd5d755837a70905184c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:48 +0000
Subject: [PATCH 005/102] fix: product() and prod_rule() honour the requested
 pscale

---
 probayes/pd_utils.py | 5 +++--
 probayes/pscales.py  | 7 ++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index c724b4c..f4ad3ee 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
diff --git a/probayes/pscales.py b/probayes/pscales.py
index 4c4987f..d5f318a 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -194,7 +194,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      set([iscomplex(_pscale) for _pscale in pscales]) == {use_logp}:
     prob = _apply_prod(list(args))
     return prob, pscale
 
@@ -210,10 +210,7 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
-
-  return prob, pscale
+  return rescale(prob, ppscale, pscale), pscale
 
 #-------------------------------------------------------------------------------
 def div_prob(dividend, divisor, *args, pscale=None):
-- 
2.43.0


From e59b5f127d5d05ceca4460bea66c5e1f79898705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:28 +0000
Subject: [PATCH 006/102] fix: PD division aligns the divisor's axes with the
 dividend's

---
 probayes/pd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 140cd1d..44d2d34 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -568,14 +568,14 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
+    div_axes = {}
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
+      if not divs and not self._aresingleton[i] and key in other.keys():
+        div_axes.update({self._dims[key]: other.dims[key]})
 
     # Append the marginalised variables and end of vals
     for i, key in enumerate(self._keylist):
@@ -584,7 +584,11 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs: # align divisor axes with those of the dividend
+      divp = np.transpose(divp, [div_axes[axis] for axis in sorted(div_axes)])
+      divp = np.expand_dims(divp, tuple([axis for axis in range(self._ndim) \
+                                         if axis not in div_axes]))
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From aa9624c683d3e824f261471a6fcf491712e769dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 007/102] fix: eval_pscale() keeps complex(1, 0) as a
 log-probability offset

---
 probayes/pscales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index d5f318a..a620e37 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,6 +26,8 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
+  if iscomplex(pscale):
+    return pscale
   if pscale == 1:
     return 1.
   if pscale in ['log', 'ln', 0]:
@@ -36,8 +38,6 @@ def eval_pscale(pscale=None):
     if pscale == 0.:
       return COMPLEX_ZERO
     return pscale
-  if iscomplex(pscale):
-    return pscale
   raise ValueError("Cannot evaluate pscale={}".format(pscale))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9aeecfa472f39fb1a7281a1df0227157a511d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 008/102] fix: div_prob() honours a requested log pscale

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a620e37..7804568 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -226,7 +226,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 461db46991c67c11b80b4922058a72b594b3dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 009/102] fix: div_prob() divides log probabilities without
 underflow

---
 probayes/pscales.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 7804568..4ead5e7 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -227,6 +227,20 @@ def div_prob(dividend, divisor, *args, pscale=None):
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
     pscale = pscales[0] if pscale is None else pscale
+
+  # Divide log probabilities in log-space since either may underflow
+  if iscomplex(pscales[0]) and iscomplex(pscales[1]):
+    dividend = rescale(dividend, pscales[0], COMPLEX_ZERO)
+    divisor = rescale(divisor, pscales[1], COMPLEX_ZERO)
+    quotient = dividend - divisor
+    if np.isscalar(quotient):
+      if dividend <= NEARLY_NEGATIVE_INF:
+        quotient = dividend
+    else:
+      impossible = np.broadcast_to(dividend <= NEARLY_NEGATIVE_INF, quotient.shape)
+      quotient[impossible] = NEARLY_NEGATIVE_INF
+    return rescale(quotient, COMPLEX_ZERO, pscale)
+
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 01f0a844af975bb8e4696d412cc1c370ee4ad01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:31 +0000
Subject: [PATCH 010/102] fix: PD sums log probabilities relative to their
 maximum so that they cannot underflow

---
 probayes/pd.py      | 27 +++++++++++----------------
 probayes/pscales.py | 22 ++++++++++++++++++++++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 44d2d34..3e6b135 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -8,7 +8,7 @@ from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
 from probayes.pscales import eval_pscale, rescale, iscomplex
-from probayes.pscales import div_prob
+from probayes.pscales import div_prob, sum_prob, rel_prob
 from probayes.distribution import Distribution
 
 #-------------------------------------------------------------------------------
@@ -161,9 +161,7 @@ class PD (Distribution):
         dim_delta = len([axis for axis in sum_axes if axis < self._dims[key]])
         dims.update({key: self._dims[key] - dim_delta})
     name = margcond_str(marg, cond)
-    prob = rescale(self._prob, self._pscale, 1.)
-    sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
-    prob = rescale(sum_prob, 1., self._pscale)
+    prob = sum_prob(self._prob, self._pscale, axis=tuple(sum_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
@@ -257,15 +255,12 @@ class PD (Distribution):
       if dims[key] is not None and key in marg:
         sum_axes.add(dims[key])
     prob = np.transpose(self._prob, old_dims)
-    if normalise and iscomplex(self._pscale): 
-      prob = prob - prob.max()
-    prob = rescale(prob, self._pscale, 1.)
+    pscale = self._pscale
     if normalise:
-      prob = div_prob(prob, np.sum(prob))
+      prob = div_prob(prob, sum_prob(prob, pscale), pscale, pscale)
     if len(sum_axes):
-      prob = div_prob(prob, \
-                         np.sum(prob, axis=tuple(sum_axes), keepdims=True))
-    prob = rescale(prob, 1., self._pscale)
+      prob = div_prob(prob, sum_prob(prob, pscale, axis=tuple(sum_axes), \
+                                     keepdims=True), pscale, pscale)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
@@ -359,11 +354,11 @@ class PD (Distribution):
         if self._dims[key] is not None:
           sum_axes.append(self._dims[key])
         dims[key] = None
-    prob = rescale(self._prob, self._pscale, 1.)
+    prob = rel_prob(self._prob, self._pscale, tuple(set(sum_axes)) or None)
     if sum_axes:
-      sum_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
+      norm_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
     else:
-      sum_prob = np.sum(prob)
+      norm_prob = np.sum(prob)
     vals = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -373,7 +368,7 @@ class PD (Distribution):
         else:
           expt_numerator = np.sum(prob*np.array(val, dtype=float), 
                                   axis=tuple(set(sum_axes)), keepdims=False)
-          vals.update({key: div_prob(expt_numerator, sum_prob)})
+          vals.update({key: div_prob(expt_numerator, norm_prob)})
       elif key in self._cond.keys():
         vals.update({key: self[key]})
     return vals
@@ -398,7 +393,7 @@ class PD (Distribution):
           unsorted.add(key)
 
     # Evaluate quantiles from cumulative probability
-    ravprob = rescale(np.ravel(self.prob), self._pscale, 1.)
+    ravprob = rel_prob(np.ravel(self.prob), self._pscale)
     cumprob = np.cumsum(ravprob)
     cumprob = div_prob(cumprob, cumprob[-1])
     cum_idx = np.maximum(0, np.digitize(np.array(quants), cumprob)-1).tolist()
diff --git a/probayes/pscales.py b/probayes/pscales.py
index 4ead5e7..33351f6 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -212,6 +212,28 @@ def prod_rule(*args, **kwds):
   prob = _apply_prod(probs)
   return rescale(prob, ppscale, pscale), pscale
 
+#-------------------------------------------------------------------------------
+def sum_prob(prob, pscale=None, axis=None, keepdims=False):
+  """ Sums probabilities along axis, returning the result with the same pscale.
+  Log probabilities are summed relative to their maximum to avoid underflow.
+  """
+  if not iscomplex(eval_pscale(pscale)):
+    return np.sum(prob, axis=axis, keepdims=keepdims)
+  max_logp = np.max(prob, axis=axis, keepdims=True)
+  sum_exp = np.sum(np.exp(prob - max_logp), axis=axis, keepdims=True)
+  logp = max_logp + np.log(sum_exp)
+  return logp if keepdims else np.squeeze(logp, axis=axis)[()]
+
+#-------------------------------------------------------------------------------
+def rel_prob(prob, pscale=None, axis=None):
+  """ Returns probabilities with a pscale of 1., except that log probabilities
+  are evaluated relative to their maximum along axis to avoid underflow.
+  """
+  if not iscomplex(eval_pscale(pscale)):
+    return rescale(prob, pscale, 1.)
+  max_logp = np.max(prob, axis=axis, keepdims=True)
+  return np.exp(prob - np.maximum(0.5 * NEARLY_NEGATIVE_INF, max_logp))
+
 #-------------------------------------------------------------------------------
 def div_prob(dividend, divisor, *args, pscale=None):
   """ Safely divides two probability arrays.
-- 
2.43.0


From 4a09ca9fc4534a29680d3fdee4b70870ad564f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:04 +0000
Subject: [PATCH 011/102] fix: quantile() interpolates with normalised
 probabilities

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 3e6b135..74484dc 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -394,8 +394,8 @@ class PD (Distribution):
 
     # Evaluate quantiles from cumulative probability
     ravprob = rel_prob(np.ravel(self.prob), self._pscale)
+    ravprob = div_prob(ravprob, np.sum(ravprob))
     cumprob = np.cumsum(ravprob)
-    cumprob = div_prob(cumprob, cumprob[-1])
     cum_idx = np.maximum(0, np.digitize(np.array(quants), cumprob)-1).tolist()
 
     # Interpolate in last axis
-- 
2.43.0


From 2ca21463d5b6401568969c27766325e8c0e90c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 012/102] fix: slicing a PD keeps values, dimensions and
 probabilities aligned

---
 probayes/pd.py | 80 ++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 74484dc..29e8134 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -481,52 +481,54 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+
+    # Match values along each dimension
+    matches = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
+      if not self._aresingleton[i] and key in keyset:
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        dim = self._dims[key]
+        match = np.ravel(self[key]) == values[key]
+        if dim in matches:
+          match = np.logical_and(match, matches[dim])
+        matches.update({dim: match})
+
+    # Slice probabilities one dimension at a time, dropping any scalar ones last
+    prob = self._prob
+    indices = {dim: np.nonzero(match)[0] for dim, match in matches.items()}
+    for dim, index in indices.items():
+      prob = np.take(prob, index, axis=dim)
+    scalar_dims = [dim for dim, index in indices.items() \
+                   if len(index) == 1 and not keepdims]
+    for dim in sorted(scalar_dims, reverse=True):
+      prob = np.take(prob, 0, axis=dim)
+
+    # Slice values and shift dimensions by the number of dropped preceding ones
+    for i, key in enumerate(self._keylist):
+      dim = self._dims[key]
+      if dim in indices:
+        index = indices[dim]
+        vals[key] = np.ravel(self[key])[index]
+        post_eq = '[]'
+        if dim in scalar_dims:
+          vals[key] = values[key] if key in keyset else vals[key][0]
+          dims[key] = None
+        if key in keyset and (dim in scalar_dims or not len(index)):
           post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
-            dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+        if key in marg.keys():
+          marg[key] = "{}={}".format(key, post_eq)
+        elif key in cond.keys():
+          cond[key] = "{}={}".format(key, post_eq)
+      if dims[key] is not None:
+        dims[key] -= len([_dim for _dim in scalar_dims if _dim < dim])
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 327e16f69fa1a701625d38fa35935a5540371fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 013/102] fix: PD.redim() realigns probabilities, including
 shared dimensions

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 29e8134..d1bfe18 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -278,7 +278,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From 97e7d70b069257952f10dded1ad67fd6d32af7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 014/102] fix: Distribution.singleton() looks up keys and their
 singleton flags

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From 845aa6f6d6f6bbdf780dd2f6a40ab1c22fcd1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 015/102] fix: Distribution allows dimensions left unoccupied
 by a lookup of fewer variables

---
 probayes/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..22cebca 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -146,7 +146,7 @@ class Distribution (NamedDict):
 
     # Corroborate vals and dims
     ones_ndim = np.ones(self._ndim, dtype=int)
-    self._shape = [None] * self.ndim
+    self._shape = [1] * self.ndim # unoccupied dimensions have unit length
     nonsingleton_count = -1
     for i, key in enumerate(self._keylist):
       values = self[key]
-- 
2.43.0


From 7f966e5ddc43d7b13959e911f28afef0cfa54636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 016/102] fix: summate() joins distributions along their one
 differing dimension

---
 probayes/pd_utils.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index f4ad3ee..aea6cf7 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -385,31 +385,25 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
   sum_vals = collections.OrderedDict(args[0])
-  sum_dims = [None] * (len(args) - 1)
-  for i, arg in enumerate(args):
-    if i == 0:
-      continue
-    for key in marg_keys:
-      if sum_dims[i-1] is not None:
-        continue
-      elif not arg.singleton(key):
-        key_vals = arg[key]
-        if key_vals.size == sum_vals[key].size:
-          if np.allclose(key_vals, sum_vals[key]):
-            continue
-        sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
-  sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
-  sum_prob = np.copy(probs[0])
-  for i, val in enumerate(vals):
-    if i == 0:
-      continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
-    sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
+  diff_dims = set()
+  for arg in args[1:]:
+    assert dict(sum_dims) == dict(arg.dims), \
+        "Dimensions not identical across distributions"
+    for key in sum_keys:
+      if arg.singleton(key):
+        assert arg[key] == sum_vals[key], \
+            "Cannot concatenate across singleton values for {}".format(key)
+      elif arg[key].size != sum_vals[key].size or \
+           not np.allclose(arg[key], sum_vals[key]):
+        diff_dims.add(sum_dims[key])
+  assert len(diff_dims) == 1, "Cannot find unique concatenation axis"
+  sum_dim = list(diff_dims)[0]
+  for key in sum_keys:
+    if sum_dims[key] == sum_dim:
+      sum_vals[key] = np.concatenate([val[key] for val in vals], axis=sum_dim)
+  sum_prob = np.concatenate(probs, axis=sum_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 8f63d56a0ac9e026369115fc4628fd48787afbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:53 +0000
Subject: [PATCH 017/102] fix: remarginalise() keeps conditional variables and
 does not underflow

---
 probayes/pd.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d1bfe18..e2e799c 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -632,12 +632,21 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Dimensions of conditional variables are kept after the new ones
+    cond_dims = sorted(set([self._dims[key] for key in self._cond.keys() \
+                            if self._dims[key] is not None]))
+    shape = list(shape) + [self._shape[dim] for dim in cond_dims]
+    cond_indices = np.unravel_index(np.arange(self.size), self._shape)
+    indices.extend([cond_indices[dim] for dim in cond_dims])
+
     # Iterate through every self.prob value
-    rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rav_prob = np.ravel(self._prob)
+    rem_prob = np.tile(rescale(0., 1., self._pscale), shape)
+    matches = collections.defaultdict(list)
     for i in range(self.size):
-      rem_idx = tuple([idx[i] for idx in indices])
-      rem_prob[rem_idx] += rav_prob[i]
+      matches[tuple([idx[i] for idx in indices])].append(i)
+    for rem_idx, match in matches.items():
+      rem_prob[rem_idx] = sum_prob(rav_prob[match], self._pscale)
 
     # Replace marginal keys and keep conditional keys
     rem_vals = collections.OrderedDict(distribution)
@@ -652,15 +661,16 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
+      rem_name += '|' + self._name.split('|')[1]
     cond_keys = list(self._cond.keys())
     if cond_keys:
       for key in cond_keys:
         rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+        dim = self._dims[key]
+        rem_dims.update({key: None if dim is None else \
+                              distribution.ndim + cond_dims.index(dim)})
 
-    return PD(rem_name, rem_vals, dims=rem_dims,
-              prob=rescale(rem_prob, 1., self._pscale),
+    return PD(rem_name, rem_vals, dims=rem_dims, prob=rem_prob,
               pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 5611922ef09ced9e2839a27f9d32f9707b544d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 018/102] fix: PD.prod() raises pscale to the power of the
 number of samples and renumbers dimensions

---
 probayes/pd.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index e2e799c..5627666 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -7,7 +7,7 @@ from probayes.named_dict import NamedDict
 from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
-from probayes.pscales import eval_pscale, rescale, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, rescale, iscomplex
 from probayes.pscales import div_prob, sum_prob, rel_prob
 from probayes.distribution import Distribution
 
@@ -310,7 +310,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     prod_axes = []
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -318,22 +317,20 @@ class PD (Distribution):
             "Cannot apply product along scalar for key {}".format(key)
         if self._dims[key] not in prod_axes:
           prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
-        if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
         vals.update({key:self[key]})
+
+    # Remaining dimensions fall by the number of product axes that precede them
+    for i, key in enumerate(self._keylist):
+      if key not in keys and not self._aresingleton[i]:
+        dim_delta = len([axis for axis in prod_axes if axis < self._dims[key]])
+        dims.update({key: self._dims[key] - dim_delta})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-    pscale_product = pscale
-    if pscale_product not in [0., 1.]:
-      pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
-      if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
-      else:
-        pscale_product *= pscale**pscale_scaling 
+    pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
+    pscale_product = prod_pscale([pscale] * int(pscale_scaling))
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 7c0602daa71f151395e75e9aad4494872ecc331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:52 +0000
Subject: [PATCH 019/102] fix: product() refuses iid sets conditioned on
 different values

---
 probayes/pd_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index aea6cf7..3201765 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -185,6 +185,14 @@ def product(*args, **kwds):
                 prod_vals.update({key: {list(prod_vals[key])[0] + \
                                         list(val[key])[0]}})
       if marg_sets is not None:
+        for arg in args[1:]:
+          assert dict(arg.dims) == dict(args[0].dims), \
+              "Mismatch in dimensions {} vs {}".format(args[0].dims, arg.dims)
+          for key, val in args[0].items():
+            if not isunitsetint(val):
+              assert np.size(val) == np.size(arg[key]) and \
+                     np.allclose(val, arg[key]), \
+                  "Mismatch in values for variable {}".format(key)
         prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
         return PD(prod_name, prod_vals, dims=args[0].dims, prob=prob, pscale=pscale)
       else:
-- 
2.43.0


From b21312c5fa3adfc83aec9b77ad8ace549d5815a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 020/102] fix: Distribution refuses values of different sizes
 that share a dimension

---
 probayes/distribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 22cebca..b9c667e 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -181,6 +181,11 @@ class Distribution (NamedDict):
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
+        shared_keys = [_key for _key in self._keylist[:i] \
+                       if self._dims[_key] == self._dims[key]]
+        assert all([self[_key].size == val_size for _key in shared_keys]), \
+            "Values for {} and {} share a dimension but differ in size".\
+            format(key, shared_keys)
         self._sizes.append(val_size)
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
-- 
2.43.0


From a57aa76144da4df9c52d05a4ba1480dd3cbe5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 021/102] fix: str_margcond() reads names within parentheses

---
 probayes/pd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 3201765..bd0f2f4 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -31,10 +31,10 @@ def str_margcond(name=None):
   if lt_paren >= 0 or rt_paren >= 0:
     assert lt_paren >= 0 and rt_paren > lt_paren, \
       "Unmatched parenthesis in name"
-    marg_str = marg_str[lt_paren:1:rt_paren]
+    marg_str = marg_str[lt_paren+1:rt_paren]
   cond_str = ''
   if '|' in marg_str:
-    split_str = name.split('|')
+    split_str = marg_str.split('|')
     assert len(split_str) == 2, "Ambiguous name: {}".format(name)
     marg_str, cond_str = split_str
   marg_strs = []
-- 
2.43.0


From 97b3c23af192ff65d648c8b87cae968aa6284483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 022/102] fix: PD refuses values for variables absent from its
 name

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5627666..3b0a716 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -120,8 +120,8 @@ class PD (Distribution):
 
     # Override name entries for scalar values
     for i, key in enumerate(self._keylist):
-      assert key in self._keyset, \
-          "Value key {} not found among name keys {}".format(key, self._keyset)
+      assert key in self.marg or key in self.cond, \
+          "Value key {} not found among name keys of {}".format(key, self.name)
       if self._aresingleton[i]:
         if key in self.marg.keys():
           self.marg[key] = "{}={}".format(key, self[key])
-- 
2.43.0


From 3f8d629cf6ef90417d16a3d88efeb422f00e0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:35 +0000
Subject: [PATCH 023/102] fix: Distribution aligns all values when dimensions
 are left to default

---
 probayes/distribution.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index b9c667e..df9a95d 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -139,7 +139,8 @@ class Distribution (NamedDict):
     # Count number of non-singleton dimensions
     self._aresingleton = [issingleton(val) for val in self.values()]
     self._issingleton = np.all(self._aresingleton)
-    self._ndim = 0 
+    self._ndim = 0 if not eval_dims else \
+                 self._aresingleton.count(False)
     for dim in self._dims.values():
       if dim is not None:
         self._ndim = max(self._ndim, dim+1)
@@ -174,10 +175,6 @@ class Distribution (NamedDict):
             "shape {} for key {}".format(values.shape, key)
         if eval_dims:
           self._dims.update({key: nonsingleton_count})
-          if len(self._shape) == nonsingleton_count:
-            self._shape.append(None)
-            self._ndim = len(self._shape)
-            ones_ndim = np.ones(self._ndim, dtype=int)
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
-- 
2.43.0


From 64b51686ca101bb89120510e32d546e52db99541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 024/102] fix: write_serialised() leaves the dimensions of a
 written distribution alone

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index bd0f2f4..4dc39d3 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -482,7 +482,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = dist_dict['attrs'].copy()
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From f99a9368564f3ce23e60ad7df2c344f1ece8c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 025/102] fix: product() refuses operands with different values
 of a shared variable

---
 probayes/pd_utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 4dc39d3..e1c6618 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -212,24 +212,24 @@ def product(*args, **kwds):
                          if cond_name not in cond2marg]
   cond2marg_set = set(cond2marg)
 
-  # Check conditionals compatible
+  # Check conditionals and shared values compatible
   prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  shared_vals = {}
   for i, arg in enumerate(args):
     cond_set = set(cond_names[i]) - cond2marg_set
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
-        if not isscalar(values):
-          values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+    for key, values in arg.items():
+      if isunitsetint(values):
+        continue
+      values = np.ravel(values)
+      if key not in shared_vals:
+        shared_vals.update({key: values})
+      elif not (values.size == shared_vals[key].size and \
+                np.allclose(shared_vals[key], values)):
+        raise ValueError("Mismatch in values for variable {}".format(key))
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From cf45ef972b3b92a5b6cc1b0ae8d073c6d7d3f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:04 +0000
Subject: [PATCH 026/102] fix: PD division refuses a divisor with different
 values of a shared variable

---
 probayes/pd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 3b0a716..26ff736 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -568,6 +568,10 @@ class PD (Distribution):
         cond.update({key:marg.pop(key)})
       else:
         vals.update({key:self[key]})
+      if key in other.keys() and not isinstance(self[key], set):
+        assert np.size(self[key]) == np.size(other[key]) and \
+               np.allclose(np.ravel(self[key]), np.ravel(other[key])), \
+          "Values for {} must match".format(key)
       if not divs and not self._aresingleton[i] and key in other.keys():
         div_axes.update({self._dims[key]: other.dims[key]})
 
-- 
2.43.0


From 43434a6a8a94e25cfd7841e5b14d9f9058d93e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:07 +0000
Subject: [PATCH 027/102] fix: product() does not mistake a log offset of one
 for a unit pscale

---
 probayes/pd_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index e1c6618..2154880 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -98,9 +98,11 @@ def product(*args, **kwds):
   pscale = kwds.get('pscale', None)
   pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
+  use_logp = iscomplex(pscale) # note that 1. == complex(1., 0.)
   maybe_fasttrack = all(aresingleton) and \
+                    all([iscomplex(_pscale) == use_logp for _pscale in pscales]) and \
                     np.all(pscale == np.array(pscales)) and \
-                    pscale in [0, 1.]
+                    pscale == (0. if use_logp else 1.)
 
 
   # Collate vals, probs, marg_names, and cond_names as lists
-- 
2.43.0


From 163098cccf7926d5886c40377f7e243a70e40a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:48 +0000
Subject: [PATCH 028/102] fix: membership of repeated values in sparse variable
 sets

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..5a694af 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -325,7 +325,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 00805a2653e1a49bfef6224afeb5b2c64a250ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:48 +0000
Subject: [PATCH 029/102] fix: NumPy arrays as variable sets

---
 probayes/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5a694af..7c85c06 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,11 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    has_vset = vset is not None and len(vset) > 0
+    if vtype or has_vset:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if has_vset:
         self.vset = vset
     else:
       self.vtype = vtype
-- 
2.43.0


From c44e64a4cd944a538f1445d2a71d02ea23938eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:48 +0000
Subject: [PATCH 030/102] fix: variable type given without a variable set

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 7c85c06..d1bad9f 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vtype, (list, tuple, set, range, np.ndarray)) or \
+        isinstance(vset, (type, np.dtype)):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From c6107ac44cae46ef5591852aa682a3a9d52070cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 031/102] fix: callable deltas

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index d1bad9f..cbc8dd6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -612,7 +612,7 @@ class Variable (Icon):
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -664,7 +664,7 @@ class Variable (Icon):
     # Call eval_delta() if values is a list and return values if delta is None
     delta = delta or self._delta
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-- 
2.43.0


From c3d235f49312daf59eb766d49be4e3ae51e6ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 032/102] fix: explicit zero deltas replaced by the default

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index cbc8dd6..34c7f3c 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -608,7 +608,7 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -662,7 +662,7 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.callable:
         return delta(values)
-- 
2.43.0


From aa77da4624ad995f1e76ae07f26a055d3973c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 033/102] fix: bounded scalar deltas landing on an exclusive
 limit

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 34c7f3c..120fbc3 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -717,12 +717,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 18aa1f80f1fb2ac3e2dea464253341f5322a6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 034/102] fix: scaling of default deltas

---
 probayes/variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 120fbc3..4b6e1c8 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -608,7 +608,8 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = self._delta if delta is None else delta
+    default = delta is None
+    delta = self._delta if default else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -634,7 +635,7 @@ class Variable (Icon):
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
+    if default and self._delta_kwds['scale']:
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
     return self._Delta(delta)
@@ -662,13 +663,16 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = self._delta if delta is None else delta
+    default = delta is None
+    delta = self._delta if default else delta
     if isinstance(delta, Expression):
       if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-      if isinstance(delta, (list, tuple)):
+      if default:
+        delta = self.eval_delta()
+      elif isinstance(delta, (list, tuple)):
         delta = self.eval_delta(delta)
     if isinstance(delta, self._Delta):
       delta = delta[0]
-- 
2.43.0


From 320bc8847e62e47752c3962dbc41e33becdfbe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 035/102] fix: integer list deltas include the upper limit

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 4b6e1c8..5228460 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -631,7 +631,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta+1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From b3da19db3ed747d266632c002321cf5fe272ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 036/102] fix: zero log offset as the scale of a probability

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..1f3f980 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From ba2b3ede1ee7eeb89436d58701322114c4815b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:32 +0000
Subject: [PATCH 037/102] fix: Bernoulli probabilities on non-unit scales

---
 probayes/rv.py         |  9 +++++----
 probayes/sympy_prob.py | 11 +++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..18396f7 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -144,10 +144,11 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = rescale(float(self._prob), self._pscale, 1.)
+      if not np.isclose(bias, 0.5):
+        super().set_prob(bernoulli_prob(self.icon, bias=bias, 
+                                        pscale=self._pscale))
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..ce17fc9 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -9,6 +9,7 @@ import sympy
 import sympy.stats
 import scipy.stats
 from probayes.expr import Expr
+from probayes.pscales import rescale
 
 
 #-------------------------------------------------------------------------------
@@ -68,16 +69,18 @@ def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy.stats.sample):
   return samples
 
 #-------------------------------------------------------------------------------
-def bernoulli_prob(var, bias=0.5):
+def bernoulli_prob(var, bias=0.5, pscale=1.):
   """ Returns Sympy-expression of a Bernoulli PMF for var at specified bias.
 
   :param var: boolean symbol to express pmf
   :param bias: bias probability (float ranging from 0 to 1).
+  :param pscale: scale on which to express the probability.
 
-  :return bias*var + (1-bias)*(1-var)
+  :return p_true*var + p_false*(1-var)
   """
-  # bv + (1-b)(1-v) = bv + 1 - v - b + bv = 2bv - v - b + 1 = v(2b-1) + (1-b)
-  return var * (2*bias - 1) + (1 - bias)
+  p_true = rescale(bias, 1., pscale)
+  p_false = rescale(1. - bias, 1., pscale)
+  return var * p_true + sympy.Mul(p_false, 1 - var, evaluate=False)
 
 #-------------------------------------------------------------------------------
 def bernoulli_sfun(size=None, bias=0.5):
-- 
2.43.0


From 1b7310b7d6b053295781e314b1326bde3d96a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:32 +0000
Subject: [PATCH 038/102] fix: uniform probabilities over an explicit set

---
 probayes/rv_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..ca5e889 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -21,10 +21,11 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
 
   # Set inside function by vtype if not specified
   if not callable(inside):
+    vset = inside
     if vtype in VTYPES[float]:
-      inside = lambda x: np.logical_and(x >= min(inside), x <= max(inside))
+      inside = lambda x: np.logical_and(x >= min(vset), x <= max(vset))
     else:
-      inside = lambda x: np.isin(x, inside)
+      inside = lambda x: np.isin(x, vset)
 
   # If scalar, check within variable set
   p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.
-- 
2.43.0


From 6cce6523432c36e9add2144e2b9eac4cc1009488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 039/102] fix: sampling several successors from a transition
 matrix

---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index ca5e889..b09c94b 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -72,7 +72,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  succ_vals = np.array(vset)[succ_idx]
+  return succ_vals, pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 353ef3d11a0b08d0ca6743637ecdad55c5f17473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 040/102] fix: inverse CDF sampling of uniform transitions

---
 probayes/rv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 18396f7..e2484cb 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -392,10 +392,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
         if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 147f6a5f30ad2f544feee54124e2c9086c04581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 041/102] fix: inverse CDF sampling of transition functions

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index e2484cb..298c1aa 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -424,7 +424,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From 83d2e38d8ffad69fe1b847f7d4147725a3a6872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 042/102] fix: constant transitions on log scales

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 298c1aa..e074166 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -467,7 +467,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
+                          inside=self._inside,
+                          pscale=self._pscale) 
                   
 
     # Handle discrete non-callables
-- 
2.43.0


From 2205361c2a18fc568b2e394454c24c5cc19db46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:16 +0000
Subject: [PATCH 043/102] fix: evaluating probabilities on a requested scale

---
 probayes/prob.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 1f3f980..046e525 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -375,8 +375,8 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
-      return self.rescale(prob, kwds['pscale'])
+    if pscale is not None:
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 2a06706113b47d17e048071d7a46234ff15e8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 044/102] fix: methods of multivariate SciPy distributions

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 046e525..75dd6a4 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From abb1963daa0d2f22a36473ef648d02ee727efb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 045/102] fix: order of variables in multivariate SciPy
 densities

---
 probayes/prob.py | 5 +----
 probayes/rf.py   | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 75dd6a4..ea9df43 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -351,10 +351,7 @@ class Prob (Expression, SympyProb):
           if len(vals) == 1:
             vals = np.array(vals)
           else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
+            vals = np.stack(np.meshgrid(*tuple(vals), indexing='ij'), axis=-1)
           prob = prob(vals)
         else:
           prob = prob(*args)
diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..cf7c416 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -331,6 +331,13 @@ class RF (Field, Prob):
              self._partials['prob'](values)
       return prob
 
+    # Multivariate densities require values ordered by variable along last axis
+    if self.issmvar and self._nvars > 1:
+      vals = np.stack(np.broadcast_arrays(*[values[key] for key in self._keylist]),
+                      axis=-1)
+      prob = self._partials['logp'] if self._logp else self._partials['prob']
+      return np.reshape(prob(vals), vals.shape[:-1])[()]
+
     # Pass-dims is to replaced when passing Distributions()
     if self._passdims:
       return super().eval_prob(values, dims=dims)
-- 
2.43.0


From ee0dbbb423d725a0da08a23e2ead9cd12b311102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 046/102] fix: joint probabilities on a zero log offset scale

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From c4ba3823f38a7c091b02a1289e1b91c777c1e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 047/102] fix: probability scale of fields of one variable

---
 probayes/rf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cf7c416..5c001b3 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -10,7 +10,7 @@ from probayes.prob import Prob
 from probayes.pd import PD
 from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
-from probayes.pscales import iscomplex, prod_pscale
+from probayes.pscales import iscomplex, prod_pscale, rescale
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
 from probayes.expr import Expr
 from probayes.expression import Expression
@@ -318,7 +318,8 @@ class RF (Field, Prob):
     if self._prob is None or self.__def_prob:
       rvs = self._varlist
       if len(rvs) == 1 and rvs[0]._prob is not None:
-        prob = rvs[0].eval_prob(values[rvs[0].name])
+        prob = rescale(rvs[0].eval_prob(values[rvs[0].name]), 
+                       rvs[0].pscale, self._pscale)
       else:
         prob, _ = rv_prod_rule(values, rvs=rvs, pscale=self._pscale)
       return prob
-- 
2.43.0


From 5e345475734b621ec0176225857de5783f9b4d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:37 +0000
Subject: [PATCH 048/102] fix: acceptance scores according to the scale of each
 distribution

---
 probayes/sp.py       |  2 +-
 probayes/sp_utils.py | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..a12a4b5 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -61,7 +61,7 @@ class SP (SD):
     if self._scores in MCMC_SAMPLERS:
       assert not args and not kwds, \
           "Neither args nor kwds permitted with spec '{}'".format(self._scores)
-      self.set_scores(MCMC_SAMPLERS[self._scores][0], pscale=self._pscale)
+      self.set_scores(MCMC_SAMPLERS[self._scores][0])
       self.set_thresh(scores)
       return
     self._scores = Expression(self._scores, *args, **kwds)
diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..a667551 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -15,6 +15,13 @@ def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
     else:
       sp.reset(sampler_id)
 
+#-------------------------------------------------------------------------------
+def prob_ratio(succ, pred, pscale=None):
+  """ Returns succ.prob / pred.prob on a linear scale, in accordance with the
+  scale of each distribution unless pscale is specified. """
+  pscales = [dist.pscale if pscale is None else pscale for dist in (succ, pred)]
+  return div_prob(succ.prob, pred.prob, *tuple(pscales), pscale=1.)
+
 #-------------------------------------------------------------------------------
 def metropolis_scores(opqr, pscale=None):
   pred, succ = opqr.o, opqr.p
@@ -24,7 +31,7 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return min(1., prob_ratio(succ, pred, pscale))
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,19 +56,18 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
+    ratio = prob_ratio(succ, pred, pscale)
+    prop = rescale(prop.prob, prop.pscale if pscale is None else pscale, 1.)
     if prop <= 0.:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return min(1., ratio)
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
+      revp = rescale(revp.prob, revp.pscale if pscale is None else pscale, 1.)
       if revp <= 0.:
         return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      return min(1., ratio * prop / revp)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 19d494bfb9725ff017fb42a5c18d207445a60bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:37 +0000
Subject: [PATCH 049/102] fix: Hastings correction for asymmetric proposals

---
 probayes/sp_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index a667551..f4eb50e 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -65,9 +65,7 @@ def hastings_scores(opqr, pscale=None):
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
       revp = rescale(revp.prob, revp.pscale if pscale is None else pscale, 1.)
-      if revp <= 0.:
-        return 1.
-      return min(1., ratio * prop / revp)
+      return min(1., ratio * revp / prop)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From f930dc8e95a1a159e20636ef2475b893de3e7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 050/102] fix: reverse transition probabilities

---
 examples/mcmc/mcmc_prob6.py | 2 +-
 probayes/rf.py              | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/examples/mcmc/mcmc_prob6.py b/examples/mcmc/mcmc_prob6.py
index 72392d0..a977e7e 100644
--- a/examples/mcmc/mcmc_prob6.py
+++ b/examples/mcmc/mcmc_prob6.py
@@ -56,7 +56,7 @@ process = pb.SP(x & y)
 process.set_prob(scipy.stats.multivariate_normal, [0., 0.],
                  [[2.0, 1.2], [1.2, 2.0]])
 process.set_tran((q, r))
-lambda_delta = lambda : process.Delta(x=scipy.stats.norm.rvs(loc=-2, scale=prop_stdv),
+lambda_delta = lambda : process.Delta(x=scipy.stats.norm.rvs(loc=2, scale=prop_stdv),
                                       y=scipy.stats.norm.rvs(loc=0., scale=prop_stdv))
 process.set_delta(lambda_delta)
 process.set_scores('hastings')
diff --git a/probayes/rf.py b/probayes/rf.py
index 5c001b3..323e58f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -536,12 +536,10 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
-    prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
     prob = dist.prob
+    if self._tran is not None and self._tran.callable and self._tran.ismulti \
+        and not self._tran.isscipy:
+      prob = self._tran[1](vals)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
-- 
2.43.0


From cbd98e245b7a78303c8d8de47c57e7fb986d5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 051/102] fix: walks of limited steps

---
 probayes/sp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index a12a4b5..d95931e 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -288,10 +288,11 @@ class SP (SD):
     if stop is None: 
       return collections.deque([sample for sample in sampler])
     steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
+    while len(steps) < stop:
+      try:
+        steps.append(next(sampler))
+      except StopIteration:
         break
-      steps.append(sample)
     return steps
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 8798b75654bf95c4b607c4ed5b99dc4873b5514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 052/102] fix: conjunction of variables with dependences

---
 probayes/ops.py | 6 +++---
 probayes/rv.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..aa683f7 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,12 +54,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
diff --git a/probayes/rv.py b/probayes/rv.py
index e074166..b29cef5 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -549,12 +549,12 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return SD(*args)
+        args += [roots]
+      return SD(*tuple(args))
 
     if isinstance(other, RF):
       rvs = [self] + list(other.vars.values())
-- 
2.43.0


From a496ac4e99dce91ae80ae0131d30d662c9cfb33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 053/102] fix: dependences declared from more than two fields

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..69905fc 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 805c76cc86251f624367a3353bcae9307194e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 054/102] fix: scales and scalar values of combined dependences

---
 probayes/sd.py       |  7 ++++++-
 probayes/sd_utils.py | 17 +++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..6415e18 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -7,6 +7,7 @@ from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
+from probayes.pscales import prod_pscale
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -82,7 +83,11 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscales = [subarch.pscale for subarch in self._arch]
+    pscale = pscales[-1] if isinstance(self._arch, list) else \
+             prod_pscale(pscales)
+    return super().set_prob(arch_prob, arch=self._arch, arch_pscale=pscale, 
+                            passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..3e230a6 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -1,7 +1,7 @@
 # Utility module for SD objects
 
 import collections
-from probayes.pscales import prod_rule
+from probayes.pscales import prod_rule, rescale
 
 #-------------------------------------------------------------------------------
 def desuffix(values, suffix="'"):
@@ -30,23 +30,24 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
-  """ Returns the combined probability of for arch given values """
+def arch_prob(arch, dims, arch_pscale=None, **kwds):
+  """ Returns the combined probability of for arch given values, scaled
+  according to arch_pscale """
  
   values = dict(kwds)
-  dimkeys = list(dims.keys())
   assert isinstance(arch, (tuple, list)), "Archictecture must be tuple or list"
   serial = isinstance(arch, list)
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
-    subdims = {key: dims[key] for key in dimkeys if key in keyset}
+    vals = {key: values[key] for key in values if key in keyset}
+    subdims = {key: dims[key] for key in dims if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
-    return probs[-1]
+    return rescale(probs[-1], arch[-1].pscale, arch_pscale)
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  prob, pscale = prod_rule(*tuple(probs), pscales=pscales, 
+                           pscale=arch_pscale)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 35041d21b4d976c87ead1a8b101f9692c0f537ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:17 +0000
Subject: [PATCH 055/102] fix: field deltas given as a dictionary

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..9278203 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -266,7 +266,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From 3a6066fa65c29b370d81fcd4b5256373e410d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:17 +0000
Subject: [PATCH 056/102] fix: explicit deltas of fields

---
 probayes/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 9278203..9c1dc19 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -489,7 +489,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
@@ -541,7 +541,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if 'bound' not in self._delta_kwds \
+    bound = False if not self._delta_kwds or 'bound' not in self._delta_kwds \
            else self._delta_kwds['bound']
     vals = collections.OrderedDict(values)
     keys = delta._fields
-- 
2.43.0


From 5e14ac39362de8433249be71f1966001e34ad967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:17 +0000
Subject: [PATCH 057/102] fix: subfields of fields and random fields

---
 probayes/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 9c1dc19..a079ac4 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -614,7 +614,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += list(vertex.varlist)
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
@@ -622,7 +622,8 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         raise TypeError("Unrecognised vertex specification type: {}".format(
             type(vertex)))
-    return Field(*tuple(variables))
+    field_cls = self._leafs.__class__ if self._leafs is not None else Field
+    return field_cls(*tuple(variables))
 
 #-------------------------------------------------------------------------------
   def __call__(self, *args, **kwds):
-- 
2.43.0


From 16f9c2b555c4f95391170241f2fadd58e6af2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:18 +0000
Subject: [PATCH 058/102] fix: deltas of the variable of one-variable fields

---
 probayes/field.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index a079ac4..d1f78d9 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -473,7 +473,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return variables[0].eval_delta()
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
@@ -537,8 +537,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       return values
     if not isinstance(delta, self._delta_type):
       variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
-        return variables[0].apply_delta(values, delta)
+      if len(variables) == 1 and isinstance(delta, variables[0].Delta):
+        vals = collections.OrderedDict(values)
+        vals.update({variables[0].name: variables[0].apply_delta(values, delta)})
+        return vals
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
     bound = False if not self._delta_kwds or 'bound' not in self._delta_kwds \
-- 
2.43.0


From 13b8648275bbf14e23abfababb065a89cd4a0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 059/102] Restore example mcmc_prob6

---
 examples/mcmc/mcmc_prob6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/mcmc/mcmc_prob6.py b/examples/mcmc/mcmc_prob6.py
index a977e7e..72392d0 100644
--- a/examples/mcmc/mcmc_prob6.py
+++ b/examples/mcmc/mcmc_prob6.py
@@ -56,7 +56,7 @@ process = pb.SP(x & y)
 process.set_prob(scipy.stats.multivariate_normal, [0., 0.],
                  [[2.0, 1.2], [1.2, 2.0]])
 process.set_tran((q, r))
-lambda_delta = lambda : process.Delta(x=scipy.stats.norm.rvs(loc=2, scale=prop_stdv),
+lambda_delta = lambda : process.Delta(x=scipy.stats.norm.rvs(loc=-2, scale=prop_stdv),
                                       y=scipy.stats.norm.rvs(loc=0., scale=prop_stdv))
 process.set_delta(lambda_delta)
 process.set_scores('hastings')
-- 
2.43.0


From 26227d63f3dfd5e5f3d1fbb7a96c5cca10c6d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 060/102] fix: limits of conditional normal samples

---
 probayes/cond_cov.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..98e37b2 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,7 +16,6 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,11 +51,12 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
+    delta = float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + delta
+    stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=delta, scale=stdv)
     number = list(args[idx])[0]
     cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
-    stdv = self._stdv[idx]
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
-- 
2.43.0


From 0d4a6dcbbb275101f1cff42b56bb4c146db6b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 061/102] fix: order of variables in conditional sampling

---
 probayes/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 323e58f..24b56bd 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -443,7 +443,8 @@ class RF (Field, Prob):
         return self._tfun(values, *args, **kwds)
 
     # Support variable sampling one-or-more at-a-time
-    succ_vals = collections.OrderedDict(values)
+    succ_vals = collections.OrderedDict((key, values[key]) \
+                                        for key in self._keylist)
 
     # For conditional functions, iterate through keys
     assert isinstance(self._tfun, CF), "Callable conditionals must be CF type"
-- 
2.43.0


From 3c3b6ed75a4c528c0026094d69bd186bf95a27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 062/102] fix: error messages of expressions

---
 probayes/expression.py | 4 ++--
 probayes/func.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..ff9b9e2 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -290,7 +290,7 @@ class Expression:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
@@ -461,7 +461,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           list(self._keys))
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/func.py b/probayes/func.py
index b299ede..2fd103c 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -179,7 +179,7 @@ class Func:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From f45f3f4cfe52eb9425193bfa300eab45301ec157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 063/102] fix: last of several iconic expressions

---
 probayes/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index ff9b9e2..b7ce01b 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -334,8 +334,8 @@ class Expression:
           self._partials.update({1: call})
           self._partials.update({-1: call})
       else:
-        if isinstance(self._exprs, tuple):
-          for i, expr in enumerate(self._exprs):
+        if isinstance(self._expr, tuple):
+          for i, expr in self._exprs.items():
             call = functools.partial(Expr.__call__, expr)
             self._partials.update({i: call})
           self._partials.update({-1: call})
-- 
2.43.0


From 137e0a0a2cc43fb0f7264fb50457d59ef9e12d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 064/102] fix: lambdas with only variable or keyword arguments

---
 probayes/expression.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index b7ce01b..624247b 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -7,6 +7,7 @@ not all expressions are functions.
 import types
 import collections
 import functools
+import inspect
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -19,6 +20,14 @@ def islambda(func):
   if type(func) is types.LambdaType:
     return func.__name__ == '<lambda>'
 
+#-------------------------------------------------------------------------------
+def isargfree(func):
+  if not hasattr(func, '__code__'):
+    return False
+  code = func.__code__
+  return not code.co_argcount and not code.co_kwonlyargcount and \
+         not code.co_flags & (inspect.CO_VARARGS | inspect.CO_VARKEYWORDS)
+
 #-------------------------------------------------------------------------------
 class Expression:
   """ A expression wrapper to enable object representations as an uncallable
@@ -398,8 +407,7 @@ class Expression:
 
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
-      if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+      if self._islambda and isargfree(expr): # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From 6fc3c3b8d84eb2627f5f960c0b63891cc4f35fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 065/102] fix: order mappings that exchange names

---
 probayes/expression.py | 7 ++++---
 probayes/func.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 624247b..21dfd24 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -428,13 +428,14 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
+      values = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = values[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: values[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
diff --git a/probayes/func.py b/probayes/func.py
index 2fd103c..d316fe1 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -292,13 +292,14 @@ class Func:
 
     # Callables with order wrapper
     if self.__order:
+      values = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = values[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: values[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
-- 
2.43.0


From c0dbb66473f22d3e873fcdd5c60900c4fbc138cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 066/102] fix: values given as a dictionary with default
 arguments

---
 probayes/expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 21dfd24..36356be 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -401,8 +401,9 @@ class Expression:
       return expr
 
     # Allow first argument to denote kwds
-    if len(args) == 1 and isinstance(args[0], dict):
-      args, kwds = (), {**kwds, **dict(args[0])}
+    if args and isinstance(args[-1], dict) and \
+        len(args) in (1, len(self._args) + 1):
+      args, kwds = args[:-1], {**kwds, **dict(args[-1])}
     #argsmid = args; kwdsmid = kwds; import pdb; pdb.set_trace() # debugging
 
     # Callables with neither order nor delta are straightforwards
-- 
2.43.0


From 4783f2fbc463fdc2a8068617b9878878980176d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 067/102] fix: order of the symbols of expressions

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..f2940bb 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -19,7 +19,7 @@ def collate_symbols(expr):
   assert isinstance(expr, sympy.Expr), \
     "Input type not Expr type but: {}".format(expr)
   symbols = collections.OrderedDict()
-  for putative_symbol in expr.free_symbols:
+  for putative_symbol in sorted(expr.free_symbols, key=str):
     symbol = putative_symbol
     while hasattr(symbol, 'symbol') and \
         hasattr(symbol, 'name'):
-- 
2.43.0


From 6a89648037a1a24a16baa2d3e63a5474790b10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 068/102] fix: values of symbols with assumptions

---
 probayes/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index f2940bb..61db748 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -207,7 +207,7 @@ class Expr:
     # If supported efun found or not array, then use it
     if not(any(isarray)) or np.ndarray in self._efun:
       efun = self._efun[etype]
-      vals = efun(*evalues) if etype else efun(values)
+      vals = efun(*evalues) if etype else efun(dict(zip(ekeys, evalues)))
       if isinstance(vals, np.ndarray):
         return vals
       elif isinstance(vals, sympy.Integer):
@@ -248,7 +248,7 @@ class Expr:
         for i, key in enumerate(keys):
           if isarray[i]:
             vals.update({key: revalues[key][k]})
-        val = efun(vals)
+        val = efun({self._symbols[key]: vals[key] for key in keys})
         if isinstance(val, sympy.Integer):
           reval[k] = int(val)
         else:
-- 
2.43.0


From cd0d8acdbd7121a0827c87f221f97a4e6fd6fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:33 +0000
Subject: [PATCH 069/102] fix: iconic flag of functionals

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From f83a5b97c839f99b591dbb490ce6e155112ffc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:33 +0000
Subject: [PATCH 070/102] fix: deterministic expression of variables

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5228460..28e7910 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -764,7 +764,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From 3a6ad878cb0157ec6dae8a370f8761705f0b566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:33 +0000
Subject: [PATCH 071/102] fix: inputs functions do not depend on need not be
 given

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 36356be..504d443 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -429,7 +429,8 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
-      values = {key: kwds.pop(key) for key in self.__order.keys()}
+      values = {key: kwds.pop(key) if val is not None else kwds.pop(key, None) \
+                for key, val in self.__order.items()}
       for key, val in self.__order.items():
         if type(val) is int:
           args[val] = values[key]
-- 
2.43.0


From e37d247deb862f5ea677ed206d779384a0419388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:33 +0000
Subject: [PATCH 072/102] fix: dependence of outputs on several inputs

---
 probayes/functional_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/functional_utils.py b/probayes/functional_utils.py
index 9a0359e..abf660a 100644
--- a/probayes/functional_utils.py
+++ b/probayes/functional_utils.py
@@ -33,7 +33,12 @@ def parse_identifiers(identifiers):
     return frozenset(identifiers.split(','))
   if not isinstance(identifiers, (list, tuple, set)):
     identifiers = identifiers,
-  keys = list(identifiers)
+  keys = []
+  for identifier in identifiers:
+    if isinstance(identifier, (str, list, tuple, set)):
+      keys += list(parse_identifiers(identifier))
+    else:
+      keys += [identifier]
   for i, key in enumerate(keys):
     if not isinstance(key, str):
       assert hasattr(key, 'name'), \
-- 
2.43.0


From 44572e4169acc2d52b40dc28b5e979208dc7c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 073/102] fix: default dimensions in slice_by_keyvals()

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..059de3a 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
+        assert val.size == max(val.shape), \
             "Multiple non-singleton dimensions: {}".format(val.size)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From eaa41f18671f0a2ef53c515c4115846b6686caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 074/102] fix: slice_by_keyvals() accepts scalar values of
 probabilities

---
 probayes/rf_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 059de3a..f188e17 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -144,10 +144,10 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
         assert np.all(spec[key] == vals[key]), \
           "Cannot slice by multiple values"
       elif spec[key] != vals[key]:
-        return np.empty(np.zeros(len(dims), dtype=int), dtype=float)
-      else:
-        pass
-    if spec_dims[key] is None: # If target is scalar
+        return np.empty(np.zeros(max(1, len(dims)), dtype=int), dtype=float)
+      if spec_dims[key] is not None:
+        reshape[spec_dims[key]] = np.size(spec[key])
+    elif spec_dims[key] is None: # If target is scalar
       dim = vals_dims[key]
       match = np.ravel(vals[key]) == spec[key]
       n_matches = match.sum()
-- 
2.43.0


From fc120cff0a68171af171a5bb72466ddfb2d2bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 075/102] fix: slice_by_keyvals() returns nothing for absent
 values

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index f188e17..5daadd7 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -152,7 +152,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       match = np.ravel(vals[key]) == spec[key]
       n_matches = match.sum()
       if n_matches == 0:
-        slices[dim] = slice(0, 0)
+        return np.empty(np.zeros(max(1, len(dims)), dtype=int), dtype=float)
       elif n_matches == 1:
         slices[dim] = np.nonzero(match)[0]
       else:
-- 
2.43.0


From d581f703eceebc3ee5bfc8124e47fccdf5b49ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 076/102] fix: bool_perm_freq() adds base_freq to the counts

---
 probayes/likelihoods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..bcf0f41 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -82,8 +82,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
   if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+    counts = counts + base_freq
+  rel_freq = counts / np.sum(counts)
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From 84c369293e8ef306afffb68801872e55b006a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 077/102] fix: RF.passdims

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 24b56bd..c054e29 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -82,7 +82,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
-- 
2.43.0


From 8c65d3eb76d4cd02563605a3c28bd93b6986dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 078/102] fix: slice_by_keyvals() orders the axes as specified

---
 probayes/rf_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 5daadd7..dadaf5b 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -154,7 +154,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if n_matches == 0:
         return np.empty(np.zeros(max(1, len(dims)), dtype=int), dtype=float)
       elif n_matches == 1:
-        slices[dim] = np.nonzero(match)[0]
+        index = np.nonzero(match)[0][0]
+        slices[dim] = slice(index, index+1)
       else:
         raise ValueError("Non-unique matches found")
     else:
@@ -162,6 +163,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
           "Ambiguous specification with values mismatch"
       dim = spec_dims[key]
       reshape[dim] = vals[key].size
-  return prob[tuple(slices)].reshape(reshape)
+
+  # Order the axes of the slices as those of spec
+  axes = {vals_dims[key]: spec_dims[key] for key in keys \
+          if vals_dims[key] is not None and spec_dims[key] is not None}
+  prob = prob[tuple(slices)]
+  order = sorted(axes, key=axes.get)
+  order += [dim for dim in range(prob.ndim) if dim not in axes]
+  return np.transpose(prob, order).reshape(reshape)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 7b9ab20f5a0fe43cf635e9e419702f32c4f674e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:13 +0000
Subject: [PATCH 079/102] fix: pass dimensions of scalar values to probability
 functions

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index d1f78d9..47f19b0 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -397,7 +397,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     Keep args and kwds since could be called externally. This ignores self._prob.
     """
     values = self.parse_args(*args, **kwds) if not _skip_parsing else args[0]
-    dims = collections.OrderedDict()
+    dims = collections.OrderedDict({key: None for key in values})
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
-- 
2.43.0


From 071be8358473a26dccf4b92360029fec76e6f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:04 +0000
Subject: [PATCH 080/102] fix: sample() proposals without suffix

---
 probayes/sd.py       | 1 +
 probayes/sd_utils.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 6415e18..f4b6bb8 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -242,6 +242,7 @@ class SD (Dependence, RF):
           "An input opqr argument must contain a non-None value for opqr.q"
       vals = desuffix(args[0].q)
       prop = self.propose(vals, **kwds)
+    kwds.pop('suffix', None)
 
     # Evaluation of probability
     vals = desuffix(prop)
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 3e230a6..009eaa2 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 1caf2bbee920a8ad2029dc24b12fe2baf3c6e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 081/102] fix: Variable.lhv

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 28e7910..ddaf778 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -301,7 +301,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
-- 
2.43.0


From 950824429682be8232fb5160c42d7d40a977af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 082/102] fix: RF.set_prop() deps keyword

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index c054e29..35ad4a0 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -151,7 +151,7 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From 8fbc6f8271a0a6ae209734656273ef8e306127c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:53 +0000
Subject: [PATCH 083/102] fix: functions indexed from Func and CF can be kept

---
 probayes/cf.py   | 8 ++++++--
 probayes/func.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..de39a83 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -205,8 +205,12 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
+
+   def call(*args, **kwds):
+     self.__unknown = spec
+     return self._call(*args, **kwds)
+
+   return call
 
 #-------------------------------------------------------------------------------
   def _call(self, *args, **kwds):
diff --git a/probayes/func.py b/probayes/func.py
index d316fe1..de97745 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -362,8 +362,12 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+
+   def call(*args, **kwds):
+     self.__index = spec
+     return self._call(*args, **kwds)
+
+   return call
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 927ee8cf1d567d2211277e33e65035213f30b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:57 +0000
Subject: [PATCH 084/102] fix: conditionalise normalises each conditioning
 event alone

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 26ff736..24e388f 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -256,11 +256,11 @@ class PD (Distribution):
         sum_axes.add(dims[key])
     prob = np.transpose(self._prob, old_dims)
     pscale = self._pscale
-    if normalise:
-      prob = div_prob(prob, sum_prob(prob, pscale), pscale, pscale)
     if len(sum_axes):
       prob = div_prob(prob, sum_prob(prob, pscale, axis=tuple(sum_axes), \
                                      keepdims=True), pscale, pscale)
+    elif normalise:
+      prob = div_prob(prob, prob, pscale, pscale)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f9c9c9c7b3a828f125080413747ddf6be7f3cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 085/102] fix: SciPy distributions given positional parameters

---
 probayes/prob.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index ea9df43..6e3d846 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -172,10 +172,11 @@ class Prob (Expression, SympyProb):
       self._ismulti = True
       self._prob = self._partials['logp'] if self._logp \
                    else self._partials['prob']
+      dist, dist_kwds = self._scipy_dist()
       if 'cdf' in self._keys and 'ppf' in self._keys:
-        self.set_pfun((self._expr.cdf, self._expr.ppf), *self._args, **self._kwds)
-      if 'rvs' in self._keys and hasattr(self._expr, 'rvs'):
-        self.set_sfun(self._expr.rvs, *self._args, **self._kwds)
+        self.set_pfun((dist.cdf, dist.ppf), **dist_kwds)
+      if 'rvs' in self._keys and hasattr(dist, 'rvs'):
+        self.set_sfun(dist.rvs, **dist_kwds)
 
     # Sympy dist - set pfun and sfun calls - self._prob is updated but not used
     elif self.__issympy:
@@ -188,6 +189,14 @@ class Prob (Expression, SympyProb):
                                functools.partial(sympy_sfun, self._distr, dtype=float)})
       self.set_sfun(sympy_sfun, self._expr)
 
+#-------------------------------------------------------------------------------
+  def _scipy_dist(self):
+    """ Returns the SciPy distribution with the keywords to pass to its methods.
+    Positional parameters must follow the values so freeze the distribution. """
+    if not self._args:
+      return self._expr, self._kwds
+    return self._expr(*self._args, **self._kwds), {}
+
 #-------------------------------------------------------------------------------
   def _set_partials(self):
     """ Overload Expression._set_partials() for Scipy and Sympy expressions """
@@ -209,11 +218,11 @@ class Prob (Expression, SympyProb):
         self._args, self._kwds = (), {} # No longer used
 
       # Iterate available methods
+      dist, kwds = self._scipy_dist()
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._expr, method):
+        if hasattr(dist, method):
           call = functools.partial(Expression._partial_call, self, 
-                                   getattr(self._expr, method),
-                                   *self._args, **self._kwds)
+                                   getattr(dist, method), **kwds)
           self._partials.update({method: call})
 
       # Provide a common interface for PDF/PMF and LOGPDF/LOGPMF
-- 
2.43.0


From b40a3407eb2ef6c550c23e2973dae96118ac4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 086/102] fix: RV.evaluate() keeps to the distribution when
 nothing is requested

---
 probayes/rv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index b29cef5..de12d16 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -277,7 +277,10 @@ class RV (Variable, Prob):
 
     :return: a NumPy array of the values (see Variable.evaluate()):
     """
-    use_pfun = use_pfun and self._pfun is not None and isunitsetint(values)
+    if self._vtype in VTYPES[float] and values is None:
+      values = {0}
+    use_pfun = use_pfun and self._pfun is not None and \
+               isunitsetint(values) and self._vtype in VTYPES[float]
 
     # If not using pfun while random sampling, we use sfun for booleans
     if not use_pfun:
-- 
2.43.0


From 10f1fa1d1c26d73f8391f5ab1e564b8969556fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:55 +0000
Subject: [PATCH 087/102] fix: SymPy distributions whose CDF is inverted in
 pieces or not at all

---
 probayes/sympy_prob.py | 50 +++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index ce17fc9..c0f3750 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -47,6 +47,36 @@ def sympy_obj_from_dist(dist, _recursive=False):
     raise ValueError('Unsupported distribution: {}'.format(dist))
   return None
 
+#-------------------------------------------------------------------------------
+def is_inverse(invexpr, cdfexpr, cterm, icdf):
+  """ Returns if expression invexpr of icdf undoes cdfexpr of cterm at quartiles
+  (or cannot be assessed for having symbols for parameters). """
+  for quarter in (1, 3):
+    quartile = sympy.Rational(quarter, 4)
+    try:
+      value = invexpr.subs(icdf, quartile).evalf()
+      if value is sympy.nan:
+        return False
+      error = (cdfexpr.subs(cterm, value) - quartile).evalf()
+      if not error.free_symbols and not abs(error) < 1e-6:
+        return False
+    except TypeError: # in case Sympy fails to compare
+      return False
+  return True
+
+#-------------------------------------------------------------------------------
+def join_pieces(invexprs):
+  """ Returns inverses of separate pieces of a CDF as one piecewise inverse """
+  pairs = []
+  for expr in invexprs:
+    if not isinstance(expr, sympy.Piecewise):
+      return expr
+    pairs.extend([pair for pair in expr.args if pair[0] is not sympy.nan])
+  if not pairs:
+    return sympy.nan
+  pairs[-1] = (pairs[-1][0], True)
+  return sympy.Piecewise(*tuple(pairs))
+
 #-------------------------------------------------------------------------------
 def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy.stats.sample):
   """ Sampling function for Sympy distributions where:
@@ -167,16 +197,16 @@ class SympyProb:
       self.__icdf = sympy.Symbol(icdf_name)
       try:
         invexprs = sympy.solve(self._exprs['cdf'].expr - self.__icdf,  self._cterm)
-      except TypeError: # in case Sympy fails to solve the inverse
-        invexprs = []
-      n_exprs = len(invexprs)
-      if n_exprs:
-        invexpr = invexprs[0]
-        if n_exprs > 1:
-          for expr in invexprs[1:]:
-            if len(expr.__repr__()) < len(invexpr.__repr__()):
-              invexpr = expr
-        self._exprs.update({'icdf': Expr(invexpr, remap={self._cterm.name: icdf_name})})
+      except (TypeError, AttributeError, NotImplementedError):
+        invexprs = [] # in case Sympy fails to solve the inverse
+      # Prefer the shortest
+      invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
+      if len(invexprs) > 1:
+        invexprs.append(join_pieces(invexprs))
+      for invexpr in invexprs:
+        if is_inverse(invexpr, self._exprs['cdf'].expr, self._cterm, self.__icdf):
+          self._exprs.update({'icdf': Expr(invexpr, remap={self._cterm.name: icdf_name})})
+          break
 
     # Set sampling function
     self._exprs.update({'sfun': functools.partial(sympy_sfun, self._distr)})
-- 
2.43.0


From b70a42baed858abf4db16f3c136b6dd29b3bc165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 088/102] fix: fields of fields or dictionaries and adding
 several variables to a field

---
 probayes/field.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 47f19b0..e9691df 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -102,7 +102,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     """
     self._leafs, self._stems, self._roots = self, None, None
-    if len(args) == 1 and isinstance(args[0], (Variable, set, tuple, list)):
+    if len(args) == 1 and isinstance(args[0], (Variable, Field, dict, set, tuple, list)):
       args = args[0]
     else:
       args = tuple(args)
@@ -121,14 +121,12 @@ class Field (NX_UNDIRECTED_GRAPH):
         variables = variables.varlist
       elif isinstance(variables, dict):
         variables = list(variables.values())
-    for var in variables:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
+    elif isinstance(var, Variable):
+      variables = [var]
     else:
+      raise TypeError("Input not a variable instance but of type: {}".\
+                      format(type(var)))
+    for var in variables:
       assert isinstance(var, Variable), \
           "Input not a variable instance but of type: {}".format(type(var))
       if self._nvars:
-- 
2.43.0


From a69c2657256395d460a03bebf1c91ffa197661e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 089/102] fix: combining a dependence with a further variable
 or field

---
 probayes/ops.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index aa683f7..9821697 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -21,7 +21,20 @@ def and_op(self, other):
 
   # Dependence as pre-operand
   if isinstance(self, Dependence):
-    return dep(other, self)
+    if isinstance(other, Dependence):
+      return dep(other, self)
+    if not isinstance(other, (Field, Variable)):
+      raise TypeError("Unrecognised post-operand type {}".format(type(other)))
+    leafs = list(self.leafs.varlist)
+    leafs += list(other.varlist) if isinstance(other, Field) else [other]
+    stems = self.stems
+    roots = self.roots
+    args = [fld(*tuple(leafs))]
+    if stems:
+      args += list(stems.values())
+    if roots:
+      args += [roots]
+    return dep(*tuple(args))
 
   # Field as pre-operand
   if isinstance(self, Field):
-- 
2.43.0


From 38491d90b8c977731c4b19298a68e0c8efe7036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 090/102] fix: products over observations left to the
 probability function

---
 probayes/rf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 35ad4a0..0e825dd 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -562,9 +562,15 @@ class RF (Field, Prob):
 
     # Otherwise it is left to the user function to perform the iid product
     for key in iid:
-      vals[key] = {len(vals[key])}
+      vals[key] = {np.size(vals[key])}
       dims[key] = None
 
+    # The dimensions remaining are those of the probability
+    rem_dims = sorted({dim for dim in dims.values() if dim is not None})
+    for key, dim in dims.items():
+      if dim is not None:
+        dims[key] = rem_dims.index(dim)
+
     # Tidy up probability
     return PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From ed56c44a4adb90b33ba61fe0885917106ded7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 091/102] fix: sampling discrete transitions on other
 probability scales and at the end of the cumulative masses

---
 probayes/rv.py       | 3 ++-
 probayes/rv_utils.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index de12d16..9715b41 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -412,7 +412,8 @@ class RV (Variable, Prob):
       if isunitset(succ_vals):
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
-                                                           prob=prob, 
+                                                           prob=rescale(prob,
+                                                               self._pscale, 1.),
                                                            vset=self._vset) 
         kwargs.update({'pred_idx': pred_idx, 'succ_idx': succ_idx})
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b09c94b..7b323ad 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -71,7 +71,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
     succ_cmf = uniform(0., 1., succ_cmf)
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
-  succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
+  last_idx = np.max(np.nonzero(prob[:, pred_idx])[0], initial=0)
+  succ_idx = np.maximum(0, np.minimum(last_idx, np.digitize(succ_cmf, cmf)))
   succ_vals = np.array(vset)[succ_idx]
   return succ_vals, pred_idx, succ_idx
 
-- 
2.43.0


From 060a9ba0b24a53557679a4c9bcc84c9ac4afdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 092/102] fix: keep declared transitions when sets or
 transforms are declared later

---
 probayes/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 9715b41..01b0e27 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -50,6 +50,7 @@ class RV (Variable, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  __def_tran = None   # Flag to denote tran is defaulted
   __sym_tran = None   # Flag to denote symmetric transitional
   __prime_key = None  # Modified-string to denote prime key for variable
 
@@ -163,7 +164,9 @@ class RV (Variable, Prob):
       prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
              prob * self._ufun.derinv.expr
     super().set_prob(prob)
-    self.set_tran(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
     self.__def_prob = True
 
 #-------------------------------------------------------------------------------
@@ -231,6 +234,7 @@ class RV (Variable, Prob):
     """
     self._tran = tran
     self.__sym_tran = None
+    self.__def_tran = False
     if self._tran is None:
       return
     self._tran = Expression(self._tran, *args, **kwds)
-- 
2.43.0


From ea7dc52644c58e0fafc92f9bbc42601e9a8cfb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 093/102] fix: refuse variables of the same name in a field

---
 probayes/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/field.py b/probayes/field.py
index e9691df..fa153c5 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -132,6 +132,8 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._nvars:
         assert var not in list(self.nodes), \
             "Existing variable {} already present in collection".format(var)
+      assert var.name not in [node.name for node in self.nodes if node is not var], \
+          "Another variable named {} already present in collection".format(var)
       super().add_node(var)
     self._refresh()
 
-- 
2.43.0


From 80f5ea6603ccbe8fd2f6613830283324b91b7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 094/102] fix: values given jointly with a scalar first shared
 the axis of the next variable

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index fa153c5..80608ed 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -428,7 +428,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         for subkey in subkeys:
           dims[subkey] = ndim
           seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
+        if not all(isdimensionless(val) for val in values[val_ref[0]]):
           new_dim = True
       if new_dim:
         ndim += 1
-- 
2.43.0


From 4daa894573818964944bfb076708adc65e2aa83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 095/102] fix: products of distributions with variables sharing
 a dimension

The product counted dimensions by position, so variables sharing a dimension
that were neither first nor adjacent (or another operand's variables standing
before them) lost their axis and the product failed.
---
 probayes/pd_utils.py | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 2154880..9798da6 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -262,31 +262,24 @@ def product(*args, **kwds):
             assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
             prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
-  prod_newdims = np.array(np.logical_not(prod_aresingleton))
-  dims_shared = False
+  # Variables sharing a dimension in any distribution share a product dimension
+  prod_refs = {key: key for key in prod_keys}
   for arg in args:
-    argdims = [dim for dim in arg.dims.values() if dim is not None]
-    if len(argdims) != len(set(argdims)):
-      dims_shared = True
-
-  # Shared dimensions limit product dimensionality
-  if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
-
-  prod_cdims = np.cumsum(prod_newdims)
-  prod_ndims = prod_cdims[-1]
+    dim_refs = {}
+    for key in prod_keys:
+      if key in arg.keys() and arg.dims[key] is not None:
+        ref, new_ref = prod_refs[key], dim_refs.setdefault(arg.dims[key], prod_refs[key])
+        prod_refs.update({_key: new_ref for _key in prod_keys if prod_refs[_key] == ref})
+        dim_refs.update({dim: new_ref for dim in dim_refs if dim_refs[dim] == ref})
+  ref_dims = collections.OrderedDict()
+  for i, key in enumerate(prod_keys):
+    if not prod_aresingleton[i]:
+      ref_dims.setdefault(prod_refs[key], len(ref_dims))
+  prod_ndims = len(ref_dims)
+  for arg in args:
+    dim_refs = {dim: prod_refs[key] for key, dim in arg.dims.items() if dim is not None}
+    assert len(dim_refs) == len(set(dim_refs.values())), \
+        "Mismatch in shared dimensions across distributions"
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
@@ -304,7 +297,7 @@ def product(*args, **kwds):
     else:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
+      dim = ref_dims[prod_refs[key]]
       prod_dims.update({key: dim})
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
-- 
2.43.0


From 626a562e7b6d64879ad1386e07394696f0f6a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 096/102] fix: expectation of the zeroth power

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 24e388f..decb64e 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -359,7 +359,7 @@ class PD (Distribution):
     vals = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
       if key in keys:
-        val = self[key] if not exponent else self[key]**exponent
+        val = self[key] if exponent is None else self[key]**exponent
         if self._aresingleton[i]:
           vals.update({key: val})
         else:
-- 
2.43.0


From d62a0829af58accdebb2a096306a699569ce6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 097/102] fix: reverse proposals of processes with the
 transitions of their only variable

An asymmetric transition declared for the variable of a one-variable process was
treated as symmetric, so that Hastings sampling converged to a wrong distribution.
---
 probayes/rf.py | 9 +++++++++
 probayes/rv.py | 6 ++++++
 probayes/sd.py | 3 ++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 0e825dd..ddf5c31 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -541,6 +541,15 @@ class RF (Field, Prob):
     if self._tran is not None and self._tran.callable and self._tran.ismulti \
         and not self._tran.isscipy:
       prob = self._tran[1](vals)
+    elif self._tran is None and self._tfun is None and self._nvars == 1:
+      rv = self._varlist[0]
+      if rv.tran is not None and not rv.sym_tran:
+        reverse = rv.tran.ismulti
+        if not reverse: # without a reverse transition, swap values
+          vals = {key[:-1] if key[-1] == "'" else key + "'": val
+                  for key, val in vals.items()}
+        prob = rv.eval_tran(vals, reverse=reverse)
+        vals = collections.OrderedDict(dist)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
diff --git a/probayes/rv.py b/probayes/rv.py
index 01b0e27..dd744de 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -251,6 +251,12 @@ class RV (Variable, Prob):
     assert np.all(np.array(tran.shape) == len(self._vset)), message
     self.__sym_tran = np.allclose(tran, tran.T)
 
+#-------------------------------------------------------------------------------
+  @property
+  def sym_tran(self):
+    """ Flag for symmetric transitional conditional probabilities """
+    return self.__sym_tran
+
 #-------------------------------------------------------------------------------
   @property
   def tfun(self):
diff --git a/probayes/sd.py b/probayes/sd.py
index f4b6bb8..f0d6fc1 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -279,7 +279,8 @@ class SD (Dependence, RF):
       prop = self.step(vals, **kwds)
 
     # Evaluate reverse proposal if transition function not symmetric
-    if not self._sym_tran and not self._unit_tran:
+    sym_tran = self._varlist[0].sym_tran if self._unit_tran else self._sym_tran
+    if not sym_tran:
       revp = self.reval_tran(prop)
 
     # Extract values evaluating probability
-- 
2.43.0


From 3112ebe0d47824699e56506888a1a196119e65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 098/102] fix: refuse summing or multiplying along dimensions
 shared with other variables

marginalise() and prod() along a dimension that another variable shares gave that
variable the dimension of a third one, and silently so if their sizes agreed.
---
 probayes/pd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index decb64e..c7ae2f1 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -158,6 +158,9 @@ class PD (Distribution):
     # Remaining dimensions fall by the number of summed axes that precede them
     for i, key in enumerate(self._keylist):
       if key not in keys and not self._aresingleton[i]:
+        assert self._dims[key] not in sum_axes, \
+            "Dimensionality precludes marginalising {} without: {}".\
+            format(keys, key)
         dim_delta = len([axis for axis in sum_axes if axis < self._dims[key]])
         dims.update({key: self._dims[key] - dim_delta})
     name = margcond_str(marg, cond)
@@ -325,6 +328,9 @@ class PD (Distribution):
     # Remaining dimensions fall by the number of product axes that precede them
     for i, key in enumerate(self._keylist):
       if key not in keys and not self._aresingleton[i]:
+        assert self._dims[key] not in prod_axes, \
+            "Dimensionality precludes product along {} without: {}".\
+            format(keys, key)
         dim_delta = len([axis for axis in prod_axes if axis < self._dims[key]])
         dims.update({key: self._dims[key] - dim_delta})
     name = margcond_str(marg, cond)
-- 
2.43.0


From 481d179ebb913bb69fb6c5722bdaade56ab235e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 099/102] fix: keep the singletons that redim is given no
 dimension for

---
 probayes/distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index df9a95d..0202236 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -261,6 +261,7 @@ class Distribution (NamedDict):
             "Dimension {} requested for singleton with key {}".\
             format(dims[key], key)
     vals = {key: self[key] for key in dims.keys()}
+    vals.update({key: self[key] for key in self._keylist if key not in dims})
     return Distribution(self._name, vals, dims=dims)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 66f6ad7262660dc13056d1164569c07cd29f104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 100/102] fix: refuse to rename a variable onto a later one

---
 probayes/distribution.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 0202236..5b66bfd 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -274,15 +274,11 @@ class Distribution (NamedDict):
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
     for key in self._keylist:
-      if key not in keymap.keys():
-        vals.update({key: self[key]})
-        dims.update({key: self.dims[key]})
-      else:
-        map_key = keymap[key]
-        assert map_key not in vals, \
-            "Key map results in duplicate for key: {}".format(map_key)
-        vals.update({map_key: self[key]})
-        dims.update({map_key: self.dims[key]})
+      map_key = keymap[key] if key in keymap.keys() else key
+      assert map_key not in vals, \
+          "Key map results in duplicate for key: {}".format(map_key)
+      vals.update({map_key: self[key]})
+      dims.update({map_key: self.dims[key]})
     return Distribution(self._name, vals, dims=dims)
     
 #-------------------------------------------------------------------------------
-- 
2.43.0


From b7972695cdf3ff859db83e09d9a65e22ccadada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 101/102] fix: compare proposal probabilities on their own
 scale

---
 probayes/sp_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f4eb50e..6a5fd2c 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -57,15 +57,13 @@ def hastings_scores(opqr, pscale=None):
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
     ratio = prob_ratio(succ, pred, pscale)
-    prop = rescale(prop.prob, prop.pscale if pscale is None else pscale, 1.)
-    if prop <= 0.:
+    if prop.prob <= rescale(0., 1., prop.pscale if pscale is None else pscale):
       return None
     if revp is None:
       return min(1., ratio)
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, revp.pscale if pscale is None else pscale, 1.)
-      return min(1., ratio * revp / prop)
+      return min(1., ratio * prob_ratio(revp, prop, pscale))
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From ceb9235c2a399c630222c42815d78a1ff756e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 102/102] fix: count each expression of a tuple once

---
 probayes/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/expression.py b/probayes/expression.py
index 504d443..bed7f15 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -497,6 +497,8 @@ class Expression:
     """ Returns the number of expressions in the tuple set by set_expr() """
     if not self._ismulti:
       return None
+    if isinstance(self._expr, (dict, tuple)): # excludes aliases, e.g. -1
+      return len(self._expr)
     return len(self._partials)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0

