From 2d219a5d95dd1f8b2413c3c69c43c4b8ecdebcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 01/41] fix: count an input held under several names once in
 the chain rule

---
 chumpy/ch.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..2f5ea65 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -644,6 +644,17 @@ class Ch(object):
             else:
                 raise
             
+    def _distinct_inputs(self):
+        # One object may be held under several names: its local derivative
+        # covers all of its uses, so it must contribute only once
+        propnames = set(_props_for(self.__class__))
+        result = {}
+        for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
+            p = getattr(self, k)
+            if hasattr(p, 'dterms'):
+                result[id(p)] = p
+        return list(result.values())
+
     def lmult_wrt(self, lhs, wrt):
         if lhs is None:
             return None
@@ -657,10 +668,9 @@ class Ch(object):
         if direct_dr != None:
             drs.append(self._superdot(lhs, direct_dr))
 
-        for k in set(self.dterms):
-            p = self.__dict__[k]
+        for p in self._distinct_inputs():
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if p is not wrt and p.is_dr_wrt(wrt):
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
@@ -695,9 +705,8 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
-        for k in set(self.dterms):
-            p = getattr(self, k) # self.__dict__[k]
-            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
+        for p in self._distinct_inputs():
+            if p is not wrt: # and p.is_dr_wrt(wrt):
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
                     indirect_dr = p.lop(wrt, lhs_for_child)
@@ -749,12 +758,9 @@ class Ch(object):
         if DEBUG:
             self._status = 'pending'
         
-        propnames = set(_props_for(self.__class__))
-        for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
-
-            p = getattr(self, k)
+        for p in self._distinct_inputs():
 
-            if hasattr(p, 'dterms') and p is not wrt:
+            if p is not wrt:
 
                 indirect_dr = None
 
-- 
2.43.0


From 66ba8584244a9395227ba04af97f1fe57089593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 02/41] fix: set() must not leave its iteration mark behind
 when the last name is not a term

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2f5ea65..ec7e444 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -477,9 +477,9 @@ class Ch(object):
         # The complexity here comes because we wish to
         # avoid clearing cache redundantly
         if len(kwall) > 0:
-            for k in kwall[:-1]:
+            for k in kwall:
                 self.__setattr__(k, kwargs[k], 9999)
-            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
+            self.clear_cache() # also takes the iteration mark off again
             
 
     def is_dr_wrt(self, wrt):
-- 
2.43.0


From d90c521aeec2ba9778fef99d852a8f0335da6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 03/41] fix: do not evaluate selections between the assignments
 of one dogleg step

---
 chumpy/optimization_internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..f4c544e 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -75,8 +75,9 @@ class ChInputsStacked(ch.Ch):
         _giter += 1
         if 'x' in which:
             pos = 0
-            for idx, freevar in enumerate(self.free_variables):
-                sz = freevar.r.size
+            # Nothing may be evaluated between the assignments below, as they share _giter
+            sizes = [freevar.r.size for freevar in self.free_variables]
+            for idx, sz in enumerate(sizes):
                 rng = np.arange(pos, pos+sz)
                 if isinstance(self.free_variables[idx], ch.Select):
                     # Deal with nested selects
-- 
2.43.0


From 119c6f0d24749dbe9a428203f20d7a33257f27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 04/41] fix: shrink the trust region, and stop, when the
 objective is nan

---
 chumpy/optimization_internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index f4c544e..b5c2e6d 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -352,7 +352,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # also if rho is nan
             self.delta *= .25
 
 
@@ -445,7 +445,7 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     obj.on_changed('x') # copies from flat vector to free variables
                 # update our trust region
                 state.updateRadius(trial.rho)
-                if state.delta <= e_2*np.linalg.norm(state.p):
+                if not state.delta > e_2*np.linalg.norm(state.p): # also if delta is nan
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-- 
2.43.0


From 01bd18522511348e7f9119448fe17966de76c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 05/41] fix: respect iteration and evaluation limits that are
 reached before the first step

---
 chumpy/optimization_internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index b5c2e6d..11271cd 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -416,6 +416,8 @@ def minimize_dogleg(obj, free_variables, on_step=None,
 
     if np.linalg.norm(state.g, np.inf) < e_1:
         stop('stopping because norm(g, np.inf) < %.2e' % e_1)
+    if state.iteration >= maxiter or obj.fevals >= max_fevals:
+        stop('stopping because no iterations or func evals are left to the user-specified limits')
     while not state.done:
         state.start_iteration()
         while True:
-- 
2.43.0


From bc181697411d69d779ce5a647285a7ecf6d8b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 06/41] fix: Concatenate must follow changes of its parts,
 their shapes and its axis

---
 chumpy/reordering.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..506abd3 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -355,16 +355,19 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis',
 
     def on_changed(self, which):
         if not hasattr(self, 'dr_cached'):
             self.dr_cached = weakref.WeakKeyDictionary()
+        layout = (self.axis, [(id(t), t.shape) for t in self.our_terms])
+        if layout != getattr(self, '_layout', None):
+            self.dr_cached.clear()
+            self._layout = layout
             
     @property
     def our_terms(self):
-        if not hasattr(self, '_our_terms'):
-            self._our_terms = [getattr(self, s) for s in self.dterms]
-        return self._our_terms
+        return [getattr(self, s) for s in self.dterms]
     
     def __getstate__(self):
         # Have to get rid of WeakKeyDictionaries for serialization
@@ -377,10 +380,8 @@ class Concatenate(Ch):
                     
     @property
     def everything(self):
-        if not hasattr(self, '_everything'):
-            self._everything = np.arange(self.r.size).reshape(self.r.shape)
-            self._everything = np.swapaxes(self._everything, self.axis, 0)
-        return self._everything
+        result = np.arange(self.r.size).reshape(self.r.shape)
+        return np.swapaxes(result, self.axis, 0)
     
     def compute_dr_wrt(self, wrt):
         if not hasattr(self, 'dr_cached'):
-- 
2.43.0


From eb1be97594d7601502c4160ad5db3d5e14a7f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 07/41] fix: derivatives of repeat and roll depend on the input
 shape; keys must be hashable

---
 chumpy/reordering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 506abd3..37956ec 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -70,7 +70,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.ravel(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
@@ -102,7 +102,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.ravel(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -147,7 +147,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.ravel(self.shift)), None if self.axis is None else tuple(np.ravel(self.axis)))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From 6e7a2d6ae524f777f329c04520decfa70c8611f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 08/41] fix: remove_redundancy must register with the inputs it
 substitutes

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ec7e444..d28fc7c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -234,7 +234,7 @@ class Ch(object):
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From 4ca955d3e42b2aabea866096df64b5a71c907fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 09/41] fix: remove_redundancy must not merge distinct
 variables

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d28fc7c..cf63989 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -228,7 +228,8 @@ class Ch(object):
         for propname in list(self.dterms):
             prop = self.__dict__[propname]
 
-            if not hasattr(prop, 'dterms'):
+            # (two variables are never redundant, even if they hold the same array now)
+            if not hasattr(prop, 'dterms') or prop.is_ch_baseclass():
                 continue
             sid = prop.sid
             if sid not in cache:
-- 
2.43.0


From 302be1db1d53571d2264eefc42a201a29ca9c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 10/41] fix: derivatives of mean, clip and unary functions for
 multi-dimensional input

---
 chumpy/ch_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..3a25a60 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 class sum(Ch):
     dterms = 'x',
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.size)))/self.x.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From 371ed362b7997f1b317bd75e3ae024f4d4da4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 11/41] fix: derivatives of atleast_nd, ChHandle and ChLambda
 must have one row and column per element

---
 chumpy/ch.py         | 4 ++--
 chumpy/reordering.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cf63989..8437207 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1237,7 +1237,7 @@ class ChHandle(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
     
 
 class ChLambda(Ch):
@@ -1277,7 +1277,7 @@ class ChLambda(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self._result:
-            return 1
+            return sp.eye(self._result.size, self._result.size)
 
 # ChGroup is similar to ChLambda in that it's designed to expose the "internal"
 # inputs of result but, unlike ChLambda, result is kept internal and called when
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 37956ec..3b6f054 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -321,7 +321,7 @@ class AtleastNd(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(self.x.size, self.x.size)
 
 def atleast_nd(ndims, *arys):
     arys = [AtleastNd(x=ary, ndims=ndims) for ary in arys]
-- 
2.43.0


From 99568bf17a06d900fb59fe711b4b3ed1e1c79e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 12/41] fix: derivative of a variable that was assigned a plain
 number

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8437207..56caa0d 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -276,7 +276,7 @@ class Ch(object):
     def compute_dr_wrt(self,wrt):
         """Default method for objects that just contain a number or ndarray"""
         if wrt is self: # special base case  
-            return sp.eye(self.x.size, self.x.size)
+            return sp.eye(self.size, self.size)
             #return np.array([[1]])
         return None
         
-- 
2.43.0


From 5a0a18cb4b080da07bfb6d6daf5b8b54f559bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 13/41] fix: derivatives of diag and diagflat must be zero off
 the diagonal

---
 chumpy/reordering.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 3b6f054..a757002 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -35,6 +35,9 @@ class Reorder(Permute):
     def compute_r(self):
         return self.reorder(self.a.r)
         
+    def reorder_indices(self, idxs):
+        return self.reorder(idxs)
+
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             if False:
@@ -46,11 +49,11 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    # Number the elements from one: a zero did not come from any of them
+                    JS = self.reorder_indices(np.arange(1, asz+1).reshape(ashape)).ravel()
+                    IS = np.flatnonzero(JS)
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS[IS]-1)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From 45a81fb195e9ec2683b9ee5ae23e5a74a0be2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 14/41] fix: derivative of sort must follow the order of the
 sorted values

---
 chumpy/reordering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index a757002..6b1849a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -61,6 +61,9 @@ class Sort(Reorder):
     terms = 'axis', 'kind', 'order'
     
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
+    def reorder_indices(self, idxs):
+        order = np.argsort(self.a.r, self.axis, self.kind, self.order)
+        return np.take_along_axis(idxs, order, self.axis)
     def unique_reorder_id(self): return None
 
 def sort(a, axis=-1, kind='quicksort', order=None):
-- 
2.43.0


From bf2915b6f16cb4dea27d08bae5b7d2e6ccdc1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 15/41] fix: division of a plain number or array by a Ch object

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 56caa0d..8594f3b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1152,6 +1152,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From 72beea6e1f76203aebbc5d2f2aa83c126eb439a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 16/41] fix: no reflected "and" without an "and" to refer to

---
 chumpy/ch.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8594f3b..6412a4c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1157,8 +1157,6 @@ class Ch(object):
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
         
-    def __rand__(self, other): return self.__and__(other)
-
     def __abs__ (self): return abs(self)
     
     def __gt__(self, other): return greater(self, other)
-- 
2.43.0


From 2dce27eaf439775c89de808c672e6c6ef9da141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 17/41] fix: transpose() method must accept its axes as
 separate arguments

---
 chumpy/ch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 6412a4c..657ccc3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -567,7 +567,10 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
-        return transpose(self, *axes)
+        # as in numpy: none, all of them separately, or one sequence
+        if len(axes) == 1 and (axes[0] is None or hasattr(axes[0], '__len__')):
+            axes = axes[0]
+        return transpose(self, axes if axes else None)
         
     def squeeze(self, axis=None):
         return squeeze(self, axis)
-- 
2.43.0


From d661eeb67cb0e1fe4ffdfdfda4313a3a26ccb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 18/41] fix: hstack joins one-dimensional arrays along their
 only axis

---
 chumpy/reordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 6b1849a..eb2973f 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -452,7 +452,8 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    return concatenate(mtxs, axis=1 if np.ndim(mtxs[0]) > 1 else 0, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From 5a1102f650b16cf685f9a7042c0734ff6887c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 19/41] fix: mgrid and ogrid are indexed, not called

---
 chumpy/ch_ops.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 3a25a60..012bf81 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -31,7 +31,7 @@ __all__ += ['SumOfSquares',
 numpy_array_creation_routines = [
     'empty','empty_like','eye','identity','ones','ones_like','zeros','zeros_like',
     'array',
-    'arange','linspace','logspace','meshgrid','mgrid','ogrid',
+    'arange','linspace','logspace','meshgrid',
     'fromfunction', 'fromiter', 'meshgrid', 'tri'
 ]
 
@@ -42,6 +42,7 @@ not_yet_implemented = ['tril', 'triu', 'vander']
 __all__ += not_yet_implemented
 __all__ += wont_implement
 __all__ += numpy_array_creation_routines
+__all__ += ['mgrid', 'ogrid']
     
     
 from .ch import Ch
@@ -71,6 +72,16 @@ for rtn in numpy_array_creation_routines:
     exec('def %s(*args, **kwargs) : return Ch(np.%s(*args, **kwargs))' % (rtn, rtn))
 
 
+class GridCreation(object):
+    def __init__(self, grid):
+        self.grid = grid
+    def __getitem__(self, key):
+        result = self.grid[key]
+        return [Ch(g) for g in result] if isinstance(result, (list, tuple)) else Ch(result)
+
+mgrid = GridCreation(np.mgrid)
+ogrid = GridCreation(np.ogrid)
+
 class WontImplement(Exception):
     pass
 
-- 
2.43.0


From 4d544cd0a3381c7f528671b58a47f245606120aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 20/41] fix: missing import of hstack for methods that use a
 hessian

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From c67e0f5092d8885a7ad9dc51c6cb8c77ac4a32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 21/41] fix: undefined names on error paths

---
 chumpy/ch.py     | 2 +-
 chumpy/ch_ops.py | 6 +++---
 chumpy/utils.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 657ccc3..f666412 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -52,7 +52,7 @@ def _check_kw_conflict(cls):
     if cls not in _kw_conflict_dict:
         _kw_conflict_dict[cls] = Ch._reserved_kw.intersection(set(cls.terms).union(set(cls.dterms)))
     if _kw_conflict_dict[cls]:
-        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
+        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(_kw_conflict_dict[cls]),))
 
 
 class Term(object):
diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 012bf81..0365327 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -385,12 +385,12 @@ class mean(Ch):
 
 def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
     if (dtype != None or out != None or ddof != 0 or keepdims != False):
-        raise NotImplementedException('Unimplemented for non-default dtype, out, ddof, and keepdims.')
+        raise NotImplementedError('Unimplemented for non-default dtype, out, ddof, and keepdims.')
     return mean(a**2., axis=axis)
     
 def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
     if (dtype != None or out != None or ddof != 0 or keepdims != False):
-        raise NotImplementedException('Unimplemented for non-default dtype, out, ddof, and keepdims.')
+        raise NotImplementedError('Unimplemented for non-default dtype, out, ddof, and keepdims.')
     return sqrt(var(a, axis=axis))
     
 
@@ -758,7 +758,7 @@ class dot(Ch):
         br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
 
         if br.ndim <= 1:
-            return self.ar
+            return ar
         elif br.ndim <= 2:
             return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
         else:
diff --git a/chumpy/utils.py b/chumpy/utils.py
index 19287d3..0a52feb 100644
--- a/chumpy/utils.py
+++ b/chumpy/utils.py
@@ -75,7 +75,7 @@ def sparse_is_desireable(lhs, rhs):
     num_zeros = lhs_zero_rows * rhs_cols + rhs_zero_cols * lhs_rows - lhs_zero_rows * rhs_zero_cols
 
     # A sparse matrix uses roughly 16 bytes per nonzero element (8 + 2 4-byte inds), while a dense matrix uses 8 bytes per element. So the break even point for sparsity is 50% nonzero. But in practice, it seems to be that the compression in a csc or csr matrix gets us break even at ~65% nonzero, which lets us say 50% is a conservative, worst cases cutoff.
-    return (float(num_zeros) / float(size)) >= 0.5
+    return (float(num_zeros) / float(result_size)) >= 0.5
 
 
 def convert_inputs_to_sparse_if_necessary(lhs, rhs):
-- 
2.43.0


From 281bf1f77221c261f5d1491eec2c5e34882dff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 22/41] fix: compare derivatives with None by identity (reverse
 mode failed on dense ones)

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f666412..75fc229 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -669,7 +669,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         for p in self._distinct_inputs():
@@ -774,7 +774,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 2103465c6441ef73ee6ed43bdd329b7af09af610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 23/41] fix: derivatives with respect to a selection of a
 selection

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 75fc229..d4f3e85 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -308,7 +308,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From 94349f51064ce6f816b6eee3cd1a5d60736f8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 24/41] fix: sum of more than two derivatives given as linear
 operators

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d4f3e85..da82ea4 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -797,7 +797,7 @@ class Ch(object):
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
                 result = reduce(lambda x, y: x+y, drs)
             else:
-                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
+                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a+b, [a.dot(x) for a in drs]))
 
         # TODO: figure out how/whether to do this.
         if result is not None and not sp.issparse(result):
-- 
2.43.0


From ec5623fd519e8573f6f19a73c5e6af7a3ce7a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 25/41] fix: make_dense and make_sparse must also hold for
 cached derivatives

---
 chumpy/ch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index da82ea4..babfcc5 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -815,6 +815,11 @@ class Ch(object):
         if (result is not None) and (not sp.issparse(result)) and (not isinstance(result, LinearOperator)):
             result = np.atleast_2d(result)
         
+        if getattr(self, '_make_dense', False) and sp.issparse(result):
+            result = result.todense()
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
+            result = sp.csc_matrix(result)
+        
         # When the number of parents is one, it indicates that
         # caching this is probably not useful because not 
         # more than one parent will likely ask for this same
@@ -833,11 +838,6 @@ class Ch(object):
         if DEBUG:
             self._status = 'done'
         
-        if getattr(self, '_make_dense', False) and sp.issparse(result):
-            result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
-            result = sp.csc_matrix(result)
-        
         if tm_dr_wrt() > 0.1:
             pif('dx of {} wrt {} in {}sec, sparse: {}'.format(self.short_name, wrt.short_name, tm_dr_wrt(), sp.issparse(result)))
 
-- 
2.43.0


From e53fe1ac381e1dfeef88c533e511b0e0082848c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 26/41] fix: ChLambda and ChGroup must not add names to the
 terms of their class

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index babfcc5..a3e9e66 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1262,7 +1262,7 @@ class ChLambda(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
@@ -1305,7 +1305,7 @@ class ChGroup(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self._result = result
         
-- 
2.43.0


From 76e642cd8294543ef128ad057f5d359983e6d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 27/41] fix: key what is known about a class by the class, not
 by its name or address

---
 chumpy/ch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a3e9e66..322d71d 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -72,8 +72,8 @@ class Ch(object):
     terms = []
     dterms = ['x']
     __array_priority__ = 2.0
-    _cached_parms = {}
-    _setup_terms = {}
+    _cached_parms = weakref.WeakKeyDictionary()
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -132,18 +132,18 @@ class Ch(object):
 
     @classmethod
     def parm_declarations(cls):
-        if cls.__name__ not in cls._cached_parms:
+        if cls not in cls._cached_parms:
             parameter_declarations = collections.OrderedDict()
             parameters = inspect.getmembers(cls, lambda x: isinstance(x, Term))
             for name, decl in sorted(parameters, key=lambda x: x[1].creation_counter):
                 decl.name = name
                 parameter_declarations[name] = decl
-            cls._cached_parms[cls.__name__] = parameter_declarations
-        return cls._cached_parms[cls.__name__]
+            cls._cached_parms[cls] = parameter_declarations
+        return cls._cached_parms[cls]
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -171,7 +171,7 @@ class Ch(object):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From 8b7fefe13e489942815926423a1e2bd730d209bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 28/41] fix: inputs declared as Term, and positional order of
 inputs in derived classes

---
 chumpy/ch.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 322d71d..01679a5 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -124,7 +124,7 @@ class Ch(object):
         elif len(args)>0:
             kwargs['x'] = np.asarray(args[0], np.float64)
 
-        defs = {p.name : deepcopy(p.default) for p in cls.parm_declarations() if p.default is not None}
+        defs = {p.name : deepcopy(p.default) for p in cls.parm_declarations().values() if p.default is not None}
         defs.update(kwargs)
         result.set(**defs)
         
@@ -159,16 +159,17 @@ class Ch(object):
         elif isinstance(cls.terms, str):
             cls.terms = (cls.terms,)
 
-        # Must be either new or old style
-        len_oldstyle_parms = len(cls.dterms)+len(cls.terms)
+        # Must be either new or old style (a base class that is set up has its new style names in both)
+        oldstyle_parms = list(cls.terms) + list(cls.dterms)
         if len(parm_declarations) > 0:
-            assert(len_oldstyle_parms==0)
-            cls.term_order = [t.name for t in parm_declarations]
-            cls.dterms = [t.name for t in parm_declarations if t.dr]
-            cls.terms = [t.name for t in parm_declarations if not t.dr]
+            assert(all([name in parm_declarations for name in oldstyle_parms]))
+            cls.term_order = [t.name for t in parm_declarations.values()]
+            cls.dterms = [t.name for t in parm_declarations.values() if t.dr]
+            cls.terms = [t.name for t in parm_declarations.values() if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
-                cls.term_order = list(cls.terms) + list(cls.dterms)
+            # an order inherited from a base class applies only to the same names
+            if 'term_order' not in cls.__dict__ and set(getattr(cls, 'term_order', [])) != set(oldstyle_parms):
+                cls.term_order = oldstyle_parms
 
         _check_kw_conflict(cls)
         cls._setup_terms[cls] = True
@@ -384,8 +385,8 @@ class Ch(object):
                 value = Ch(value)                
         
             # Make ourselves not the parent of the old value
-            if hasattr(self, name):
-                term = getattr(self, name)
+            if name in self.__dict__:
+                term = self.__dict__[name]
                 if self in term._parents:
                     term._parents[self]['varnames'].remove(name)
                     if len(term._parents[self]['varnames']) == 0:
-- 
2.43.0


From 44ea458c0f9a7bb76eac3e0945a5f43193629f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 29/41] fix: classes derived from ChLambda, and classes with a
 function as first input

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 01679a5..4bc5351 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -85,7 +85,7 @@ class Ch(object):
 
     def __new__(cls, *args, **kwargs):
 
-        if len(args) > 0 and type(args[0]) == type(lambda : 0):
+        if cls == Ch and len(args) > 0 and type(args[0]) == type(lambda : 0):
             cls = ChLambda
         
         # Create empty instance
-- 
2.43.0


From ce21d660daab617819d06606dea58b3b398a9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 30/41] fix: endless recursion in derived classes; pickling
 must not alter the original

---
 chumpy/ch.py         |  7 ++++---
 chumpy/ch_ops.py     |  4 ++--
 chumpy/reordering.py | 10 +++++-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4bc5351..7551f66 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1270,9 +1270,10 @@ class ChLambda(Ch):
         
     def __getstate__(self):
         # Have to get rid of lambda for serialization
-        if hasattr(self, 'lmb'):
-            self.lmb = None
-        return super(self.__class__, self).__getstate__()
+        result = super(ChLambda, self).__getstate__()
+        if 'lmb' in result:
+            result['lmb'] = None
+        return result
         
         
     def compute_r(self):
diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 0365327..c915131 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -435,7 +435,7 @@ class NanDivide(divide):
     def compute_r(self):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            result = super(self.__class__, self).compute_r()
+            result = super(NanDivide, self).compute_r()
         shape = result.shape
         result = result.ravel()
         result[np.isinf(result)] = 0
@@ -445,7 +445,7 @@ class NanDivide(divide):
     def compute_dr_wrt(self, wrt):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            result = super(self.__class__, self).compute_dr_wrt(wrt)        
+            result = super(NanDivide, self).compute_dr_wrt(wrt)        
         if result is not None:
             result = result.copy()
             if sp.issparse(result):
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index eb2973f..79cc19b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -123,7 +123,7 @@ class transpose(Reorder):
     def on_changed(self, which):
         if not hasattr(self, 'axes'):
             self.axes = None
-        super(self.__class__, self).on_changed(which)
+        super(transpose, self).on_changed(which)
     
 class rollaxis(Reorder):        
     dterms = 'a'
@@ -135,7 +135,7 @@ class rollaxis(Reorder):
     def on_changed(self, which):
         if not hasattr(self, 'start'):
             self.start = 0
-        super(self.__class__, self).on_changed(which)
+        super(rollaxis, self).on_changed(which)
 
 class swapaxes(Reorder):        
     dterms = 'a'
@@ -377,9 +377,9 @@ class Concatenate(Ch):
     
     def __getstate__(self):
         # Have to get rid of WeakKeyDictionaries for serialization
-        if hasattr(self, 'dr_cached'):
-            del self.dr_cached
-        return super(self.__class__, self).__getstate__()
+        result = super(Concatenate, self).__getstate__()
+        result.pop('dr_cached', None)
+        return result
     
     def compute_r(self):
         return np.concatenate([t.r for t in self.our_terms], axis=self.axis)
-- 
2.43.0


From 4197e4c4a2b571a823f4fedd0c4d874b3ae587d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 31/41] fix: copies must not share the state of dependent
 properties with the original

---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 7551f66..3b1990a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -348,6 +348,9 @@ class Ch(object):
         result = external_copy.copy(self.__dict__)
         del result['_parents']
         del result['_cache']
+        # What changes in place must not be shared with a copy
+        result['_dirty_vars'] = set(self._dirty_vars)
+        result['_depends_on_deps'] = {k: dict(v) for k, v in list(self._depends_on_deps.items())}
         return result
 
     def __setstate__(self, d):
-- 
2.43.0


From c3c49f724460858938372ebfc359160b95bfbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 32/41] fix: derivative of a cross product of an array with
 itself

---
 chumpy/ch_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index c915131..24e8033 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -162,9 +162,10 @@ class Cross(Ch):
         
         #import time
         #tm = time.time()
+        result = 0.
         if wrt is self.a:
             rp = np.repeat(-self.b.r, w, axis=0) 
-            result = np.cross(
+            result = result + np.cross(
                 tiled_identity, 
                 rp,
                 self.axisa,
@@ -172,8 +173,8 @@ class Cross(Ch):
                 self.axisc, 
                 self.axis)
 
-        elif wrt is self.b:
-            result = np.cross(
+        if wrt is self.b:
+            result = result + np.cross(
                 np.repeat(-self.a.r, w, axis=0),
                 tiled_identity,
                 self.axisa,
-- 
2.43.0


From bea622ec97bff59bed7b8f8445c864e01d490d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 33/41] fix: ChGroup must report derivatives only with respect
 to its own inputs

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 3b1990a..74a8a8a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1318,7 +1318,8 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        if any([wrt is getattr(self, k) for k in self.dterms]):
+            return self._result.dr_wrt(wrt)
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From 68d26ae96092cd62b415e7fcd4361f129fe6897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 34/41] fix: scipy methods: also set variables to values that
 are not finite

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..58b27f3 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -86,7 +86,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         for idx, freevar in enumerate(free_variables):
             sz = freevar.r.size
             newvals = vs[cur:cur+sz].copy().reshape(free_variables[idx].shape)
-            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 0:
+            if not np.array_equal(newvals, free_variables[idx].r):
                 free_variables[idx][:] = newvals
                 changed = True
 
-- 
2.43.0


From d3f0b2ef29c4980c07d965abf8642e911234b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 35/41] fix: scipy methods: remember the point a curvature was
 computed at, not an array that may change

---
 chumpy/optimization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 58b27f3..f3287c6 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -61,12 +61,12 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             changevars(vs,obj,obj_scalar,free_variables)
             if not hasattr(hessp, 'vs'):
                 hessp.vs = vs*0+1e16
-            if np.max(np.abs(vs-hessp.vs)) > 0:
+            if not np.array_equal(vs, hessp.vs):
 
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = vs.copy()
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -75,9 +75,10 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 changevars(vs,obj,obj_scalar,free_variables)
                 if not hasattr(hessp, 'vs'):
                     hessp.vs = vs*0+1e16
-                if np.max(np.abs(vs-hessp.vs)) > 0:
+                if not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs.copy()
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
@@ -121,7 +122,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = vs.copy()
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -135,7 +136,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = vs.copy()
         return result
 
         
-- 
2.43.0


From e0d3ad0fde57c2fde029f67a8a3fa9dc19fa4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 36/41] fix: item assignment must not change arrays shared with
 other variables

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 74a8a8a..74806bb 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -513,7 +513,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.array(self.x, dtype=np.float64, ndmin=1) # a copy: others may hold the old array
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From f63698f27524a4a8e80205beb5b350bf0767def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:23 +0000
Subject: [PATCH 37/41] fix: derivatives of dot for a second operand of more
 than two dimensions

---
 chumpy/ch_ops.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 24e8033..7133838 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -745,7 +745,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -756,12 +756,17 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if br.ndim <= 1:
             return ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if self.b.ndim > 2:
+                # columns are in the order of br: put them into that of b
+                cols = np.rollaxis(np.arange(self.b.size).reshape(self.b.shape), -2).ravel()
+                result = result.tocsc()[:, np.argsort(cols)]
+            return result
         else:
             raise NotImplementedError
             
-- 
2.43.0


From b2d0cc5cf899e5a9029ed41687bb5cddf9fdde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 38/41] fix: derivatives of det and slogdet for stacks of
 matrices

---
 chumpy/linalg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/chumpy/linalg.py b/chumpy/linalg.py
index 9838ebd..f88f19d 100755
--- a/chumpy/linalg.py
+++ b/chumpy/linalg.py
@@ -116,6 +116,10 @@ class Pinv(Ch):
 
 
 
+def _block_rows(mtxs):
+    # One row per matrix of a stack, each holding the transposed matrix
+    return sp.block_diag([row(mtx.T) for mtx in mtxs.reshape((-1,) + mtxs.shape[-2:])], format='csc')
+
 class LogAbsDet(Ch):
     dterms = 'x'
     
@@ -127,6 +131,8 @@ class LogAbsDet(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:         
+            if self.x.ndim > 2:
+                return _block_rows(np.linalg.inv(self.x.r))
             return row(np.linalg.inv(self.x.r).T)
 
 class SignLogAbsDet(Ch):
@@ -148,6 +154,8 @@ class Det(Ch):
 
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
+            if self.x.ndim > 2:
+                return _block_rows(self.r[..., np.newaxis, np.newaxis] * np.linalg.inv(self.x.r))
             return row(self.r * np.linalg.inv(self.x.r).T)
 
 
-- 
2.43.0


From d8bcb3eacdcd7b6e6e6dcf43fb97a5b186933686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:54 +0000
Subject: [PATCH 39/41] fix: show_tree_cache refers to Concatenate, which was
 not imported

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 74806bb..0208d8b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1326,7 +1326,7 @@ from .ch_ops import __all__ as all_ch_ops
 __all__ += all_ch_ops
 
 from .reordering import *
-from .reordering import Permute
+from .reordering import Permute, Concatenate
 from .reordering import __all__ as all_reordering
 __all__ += all_reordering
 
-- 
2.43.0


From 8a798bf035d8a55d9ab88cdfd74f7467e510560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:32 +0000
Subject: [PATCH 40/41] fix: derivative of extrema over an axis for arrays with
 an inserted axis of length one

---
 chumpy/ch_ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 7133838..834ca2c 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -659,9 +659,8 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            # in elements (not from mtx.strides, which mean nothing along axes of length one)
+            stride = np.prod(mtx.shape[axis:][1:])
         return mn, stride
 
 
-- 
2.43.0


From 9a69253cdffa263cebffe68610dd9384b763b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:39 +0000
Subject: [PATCH 41/41] fix: left-product and reverse mode dropped
 contributions for slices of a variable

---
 chumpy/ch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0208d8b..89b23a0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -494,6 +494,14 @@ class Ch(object):
         return wrt in dterms_we_have or any([d.is_dr_wrt(wrt) for d in dterms_we_have])
     
 
+    def _is_dr_wrt_sliced(self, wrt):
+        # A derivative wrt a slice comes from the one wrt what is sliced
+        while not self.is_dr_wrt(wrt):
+            if not issubclass(wrt.__class__, Permute):
+                return False
+            wrt = wrt.a
+        return True
+
     def is_ch_baseclass(self):
         return self.__class__ is Ch
         
@@ -678,7 +686,7 @@ class Ch(object):
 
         for p in self._distinct_inputs():
 
-            if p is not wrt and p.is_dr_wrt(wrt):
+            if p is not wrt and p._is_dr_wrt_sliced(wrt):
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
-- 
2.43.0

