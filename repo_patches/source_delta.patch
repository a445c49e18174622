From 9bf52181d94340e46d5732a810efc0e2590c8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 01/71] fix: linking below a nested node lost the values of the
 node's parameters

The arrays of nested nodes were connected top down, so that a node, whose
array was just allocated (its size changed), passed uninitialised memory on
to its parents.
---
 paramz/core/parameter_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..0091910 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -284,13 +284,16 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # children first, so that pi carries the values of its children
+            # (its own array might just have been allocated)
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From 41668772107991575fba9b97ead5fb2b510fc21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/71] fix: a node shared its memory with the last parameter
 unlinked from it

Linking another parameter of the same size reused that memory, so that the
two unconnected parameters overwrote each other.
---
 paramz/parameterized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..71ff347 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -234,7 +234,10 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._model_initialized_ = True
         
         if not hasattr(self, "parameters") or len(self.parameters) < 1:
-            # no parameters for this class
+            # no parameters for this class, so do not hold on to
+            # the memory of the parameters, which were unlinked
+            self._param_array_ = None
+            self._gradient_array_ = None
             return
 
         old_size = 0
-- 
2.43.0


From 0a816b4a08d54f39f080d0939f103000da25f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 03/71] fix: setting the gradient of a node without (current)
 gradient array failed

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0091910..f6d91ac 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -438,7 +438,7 @@ class Parameterizable(OptimizationHandlable):
 
     @gradient.setter
     def gradient(self, val):
-        self._gradient_array_[:] = val
+        self.gradient[:] = val
 
     @property
     def num_params(self):
-- 
2.43.0


From 176cbc97a828ba8ef9869707adcbb61238604329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 04/71] fix: an exception while traversing left the hierarchy
 unusable

E.g. a refused link_parameter left nodes marked as visited, so that later
traversals (regular expression lookup, update_model, ...) skipped them.
---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index f6d91ac..6601517 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -387,8 +387,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -408,9 +410,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From e2141e9d444045cce5fc17a8fcffcd3b4d3857da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 05/71] fix: optimizer_array was stale after changes which do
 not notify

Unconstraining, in memory changes of param_array and changes while updates
were off, as well as any change of a leaf, left the previously computed
optimizer_array in place.
---
 paramz/core/parameter_core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 6601517..5356bcf 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,12 +80,13 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # always start from the current values, as not every change of the
+        # values or constraints passes by here
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
-- 
2.43.0


From e3929f96de27477a25d2f5d80c611e70ed4ee13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 06/71] fix: optimizer_array of a constrained multi-dimensional
 parameter failed

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 5356bcf..b98e005 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -85,7 +85,7 @@ class OptimizationHandlable(Constrainable):
         self._optimizer_copy_.flat = self.param_array.flat
         #py3 fix
         #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
         self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
@@ -148,7 +148,7 @@ class OptimizationHandlable(Constrainable):
         """
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
-        [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
+        [np.put(g, i, c.gradfactor(self.param_array.flat[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
         if self._has_fixes(): return g[self._fixes_]
         return g
 
-- 
2.43.0


From 261b34ac384f126937a71985b3962a79409ea2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 07/71] fix: the fixed elements known to a node or leaf were
 out of date

The mask of free elements was only maintained at the highest parent, so that
after fixing through another handle (slice, sibling, parent) optimizer_array
and the flat names of nodes and leaves contained fixed elements.
---
 paramz/core/constrainable.py  |  8 ++++----
 paramz/core/indexable.py      |  1 +
 paramz/core/parameter_core.py | 11 ++++++-----
 paramz/param.py               |  4 +++-
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..85fb26d 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -83,12 +83,12 @@ class Constrainable(Indexable):
     unfix = unconstrain_fixed
 
     def _ensure_fixes(self):
-        # Ensure that the fixes array is set:
+        # Ensure that the fixes array is set and reflects the constraints
+        # (fixing through another handle of the hierarchy only changes those):
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
-            self._fixes_ = np.ones(self.size, dtype=bool)
-            self._fixes_[self.constraints[__fixed__]] = FIXED
+        self._fixes_ = np.ones(self.size, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
 
     def _set_fixed(self, param, index):
diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..3122849 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -176,6 +176,7 @@ class Indexable(Nameable, Updateable):
         """
         ravi = self._raveled_index_for(param)
         if self._has_fixes():
+            self._ensure_fixes()
             fixes = self._fixes_
             ### Transformed indices, handling the offsets of previous fixes
             transformed = (np.r_[:self.size] - (~fixes).cumsum())
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index b98e005..8eab6eb 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -102,10 +102,8 @@ class OptimizationHandlable(Constrainable):
         Also we want to update param_array in here.
         """
         f = None
-        if self.has_parent() and self.constraints[__fixed__].size != 0:
-            f = np.ones(self.size).astype(bool)
-            f[self.constraints[__fixed__]] = FIXED
-        elif self._has_fixes():
+        if self._has_fixes():
+            self._ensure_fixes()
             f = self._fixes_
         if f is None:
             self.param_array.flat = p
@@ -149,7 +147,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array.flat[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
@@ -220,6 +220,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..1bbf969 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -32,6 +32,7 @@ import numpy as np
 from .core.parameter_core import Parameterizable, adjust_name_for_printing
 from .core.observable_array import ObsAr
 from .core.pickleable import Pickleable
+from .transformations import __fixed__, FIXED
 from functools import reduce
 from collections import OrderedDict
 
@@ -182,7 +183,8 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From 3ef5e1689f092811657f55373cfc33d417c88891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 08/71] fix: constraining through an index array did not change
 the values

The values selected by an index array or mask are a copy, so that values
outside of the domain (or the value given to fix) were not set in the
parameter itself.
---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 85fb26d..9648d7c 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._write_to_original()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -131,6 +132,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _write_to_original(self):
+        # nothing to do, only slices of Param can be copies of the original
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -146,6 +151,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._write_to_original()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index 1bbf969..d3b3e17 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,12 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _write_to_original(self):
+        # advanced indexing gives a copy of the original, so its values have to
+        # be written to the original
+        if not np.may_share_memory(self, self._original_):
+            self._original_.flat[self._raveled_index()] = self.values.flat
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From c6f2aebe8e0d052f1fcdf722a0756c7de9682081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 09/71] fix: loading a pickled Logistic created a second one
 for the same bounds

So that unconstrain_bounded had no effect on loaded models.
---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..3fb14f0 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -197,6 +197,9 @@ class Logistic(Transformation):
             o = newfunc(cls, lower, upper, *args, **kwargs)
         cls._instances.append(weakref.ref(o))
         return cls._instances[-1]()
+    def __getnewargs__(self):
+        # needed for pickling and copying, to get hold of the same instance
+        return self.lower, self.upper
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From b09e28d84297853bb147293632ac4cfdcc3c356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 10/71] fix: unconstrain() on loaded models did not free fixed
 parameters

The key of fixed parameters is an equal, but not the identical string after
unpickling.
---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 3122849..6970753 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -265,7 +265,7 @@ class Indexable(Nameable, Updateable):
         for t in list(transforms):
             unconstrained = which.remove(t, self._raveled_index())
             removed = np.union1d(removed, unconstrained)
-            if t is __fixed__:
+            if t == __fixed__:
                 self._highest_parent_._set_unfixed(self, unconstrained)
 
         return removed
\ No newline at end of file
-- 
2.43.0


From 374f2bd88ed604d4fd0dedc1f328b43f836cacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 11/71] fix: link_parameter failed half way for an index past
 the end

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 71ff347..1de997d 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -156,12 +156,14 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 param._parent_index_ = len(self.parameters)
                 self.parameters.append(param)
             else:
+                # list.insert allows for negative indices and indices past the end
+                index = len(self.parameters[:index])
                 start = sum(p.size for p in self.parameters[:index])
                 for name, iop in self._index_operations.items():
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = index
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From 75629113acc988e51f35d8428f5265f3da58f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 12/71] fix: linking a node below itself created a cycle and
 never returned

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 1de997d..08b3f20 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add a parameter below itself into the hierarchy")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 2d73e033b77c1d26f116bbff52d032f9a40f23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 13/71] fix: refusing an unusable name left the hierarchy half
 changed

The parameter was linked (or renamed and its attribute removed) before the
name was found to be unusable.
---
 paramz/core/nameable.py | 2 ++
 paramz/parameterized.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..760af2b 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -69,6 +69,8 @@ class Nameable(Gradcheckable):
         """
         from_name = self.name
         assert isinstance(name, str)
+        if self.has_parent():
+            adjust_name_for_printing(name) # raises, if the name cannot be used
         self._name = name
         if self.has_parent():
             self._parent_._name_changed(self, from_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 08b3f20..d58d124 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -145,6 +145,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 if ancestor is param:
                     raise HierarchyError("You cannot add a parameter below itself into the hierarchy")
                 ancestor = ancestor._parent_
+            adjust_name_for_printing(param.name) # raises, if the name cannot be used
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 46bc47e4ebb263109ff07d2deebf0b51c2196f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 14/71] fix: refusing a non contiguous parameter left it linked

---
 paramz/parameterized.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index d58d124..d1815ac 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -146,6 +146,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     raise HierarchyError("You cannot add a parameter below itself into the hierarchy")
                 ancestor = ancestor._parent_
             adjust_name_for_printing(param.name) # raises, if the name cannot be used
+            self._check_contiguous(param)
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
@@ -233,6 +234,23 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._highest_parent_._connect_fixes()
         self._highest_parent_._notify_parent_change()
 
+    def _check_contiguous(self, p):
+        if not p.param_array.flags['C_CONTIGUOUS']:# getattr(p, 'shape', None) != getattr(p, '_realshape_', None):
+            raise ValueError("""
+Have you added an additional dimension to a Param object?
+
+  p[:,None], where p is of type Param does not work
+  and is expected to fail! Try increasing the
+  dimensionality of the param array before making
+  a Param out of it:
+  p = Param("<name>", array[:,None])
+
+Otherwise this should not happen!
+Please write an email to the developers with the code,
+which reproduces this error.
+All parameter arrays must be C_CONTIGUOUS
+""")
+
     def _connect_parameters(self, ignore_added_names=False):
         # connect parameterlist to this parameterized object
         # This just sets up the right connection for the params objects
@@ -251,21 +269,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         old_size = 0
         self._param_slices_ = []
         for i, p in enumerate(self.parameters):
-            if not p.param_array.flags['C_CONTIGUOUS']:# getattr(p, 'shape', None) != getattr(p, '_realshape_', None):
-                raise ValueError("""
-Have you added an additional dimension to a Param object?
-
-  p[:,None], where p is of type Param does not work
-  and is expected to fail! Try increasing the
-  dimensionality of the param array before making
-  a Param out of it:
-  p = Param("<name>", array[:,None])
-
-Otherwise this should not happen!
-Please write an email to the developers with the code,
-which reproduces this error.
-All parameter arrays must be C_CONTIGUOUS
-""")
+            self._check_contiguous(p)
 
             p._parent_ = self
             p._parent_index_ = i
-- 
2.43.0


From fe8f1abdbc4a10ab6679d8698a8ef0438550ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 15/71] fix: invalid bounds left a broken transformation behind

---
 paramz/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 3fb14f0..3d286a6 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -186,7 +186,8 @@ class Logistic(Transformation):
     _instances = []
     def __new__(cls, lower=1e-6, upper=1e-6, *args, **kwargs):
         if cls._instances:
-            cls._instances[:] = [instance for instance in cls._instances if instance()]
+            # instances without bounds were refused by __init__
+            cls._instances[:] = [instance for instance in cls._instances if hasattr(instance(), 'lower')]
             for instance in cls._instances:
                 if instance().lower == lower and instance().upper == upper:
                     return instance()
-- 
2.43.0


From d616e543f25c056c1d4213c64b7d31700a8731ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 16/71] fix: optimizers got (and changed) the gradient array of
 the parameters

---
 paramz/core/parameter_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 8eab6eb..e8034aa 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -144,6 +144,9 @@ class OptimizationHandlable(Constrainable):
         Transform the gradients by multiplying the gradient factor for each
         constraint to it.
         """
+        # work on a copy: g usually is the gradient of the parameters itself,
+        # which stays as it is here and gets overwritten by the next evaluation
+        g = g.copy()
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array.flat[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-- 
2.43.0


From 454b8a888ac9ea917fa2726c84f6af090e35194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 17/71] fix: Logistic mapped above its upper bound

---
 paramz/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 3d286a6..4303fd6 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -209,7 +209,8 @@ class Logistic(Transformation):
         if (x<-300.).any():
             x = x.copy()
             x[x<-300.] = -300.
-        return self.lower + self.difference / (1. + np.exp(-x))
+        # rounding must not get above the upper bound
+        return np.minimum(self.lower + self.difference / (1. + np.exp(-x)), self.upper)
     def finv(self, f):
         return np.log(np.clip(f - self.lower, 1e-10, np.inf) / np.clip(self.upper - f, 1e-10, np.inf))
     def gradfactor(self, f, df):
-- 
2.43.0


From 83e76ce01e3d093edb33c6f2ee2902698fb39265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 18/71] fix: NegativeExponent had a wrong inverse and
 derivative

---
 paramz/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 4303fd6..e9ab25b 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,11 +160,11 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
-    def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.finv(self, -f)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0


From 83399d8976a09684781b7c1aeb3ccd5790cff9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 19/71] fix: the inverse of Logistic was wrong for small ranges

---
 paramz/transformations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index e9ab25b..8a5c949 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -212,7 +212,9 @@ class Logistic(Transformation):
         # rounding must not get above the upper bound
         return np.minimum(self.lower + self.difference / (1. + np.exp(-x)), self.upper)
     def finv(self, f):
-        return np.log(np.clip(f - self.lower, 1e-10, np.inf) / np.clip(self.upper - f, 1e-10, np.inf))
+        # keep away from the bounds, relative to the range if that is small
+        eps = 1e-10 * min(1., self.difference)
+        return np.log(np.clip(f - self.lower, eps, np.inf) / np.clip(self.upper - f, eps, np.inf))
     def gradfactor(self, f, df):
         return np.einsum('i,i->i', df, (f - self.lower) * (self.upper - f) / self.difference)
     def initialize(self, f):
-- 
2.43.0


From a6a9e3283fc7a77c89706df3edb91be0132377b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 20/71] fix: switching updates on below the root left the rest
 of the model out of date

---
 paramz/core/updateable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..81844d5 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,7 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        p.trigger_update() # updates are switched for the whole hierarchy
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From 7dd5b577cbe312e737c4ba66092ad4fde8af752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 21/71] fix: fixed nodes were not re-evaluated after
 assignments

---
 paramz/core/parameter_core.py | 8 +++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index e8034aa..f1b28ed 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -120,16 +120,18 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        self.trigger_update(skip_fixed=True)
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True, children which are fixed will not be told, as
+        the optimizer cannot change them.
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed) for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 81844d5..e5274fa 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to leave out children, which are fixed
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From 29de5243cb1828ca838d6909354966593656a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 22/71] fix: removing an observer failed for arrays and removed
 equal ones

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From ff2dccc713995c21900a9fcb3bbae5f10cc36ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 23/71] fix: registering a method of an observer kept the
 observer alive

---
 paramz/core/lists_and_dicts.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index f4b7785..9f60c06 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -62,6 +62,19 @@ class ArrayList(list):
         raise ValueError("{} is not in list".format(item))
     pass
 
+class _ObserverMethod(object):
+    """
+    A method of an observer, which does not keep the observer alive.
+    """
+    def __init__(self, method):
+        self.func = method.__func__
+
+    @staticmethod
+    def bind(callble, observer):
+        if isinstance(callble, _ObserverMethod):
+            return callble.func.__get__(observer)
+        return callble
+
 class ObserverList(object):
     """
     A list which containts the observables.
@@ -73,7 +86,8 @@ class ObserverList(object):
 
     def __getitem__(self, ind):
         p,o,c = self._poc[ind]
-        return p, o(), c
+        o = o()
+        return p, o, _ObserverMethod.bind(c, o)
 
     def remove(self, priority, observer, callble):
         """
@@ -98,6 +112,8 @@ class ObserverList(object):
             if priority > pr:
                 break
             ins += 1
+        if getattr(callble, '__self__', None) is observer and hasattr(callble, '__func__'):
+            callble = _ObserverMethod(callble)
         self._poc.insert(ins, (priority, weakref.ref(observer), callble))
 
     def __str__(self):
@@ -135,7 +151,9 @@ class ObserverList(object):
     def __iter__(self):
         self.flush()
         for p, o, c in self._poc:
-            yield p, o(), c
+            o = o()
+            if o is not None: # might be gone since the flush
+                yield p, o, _ObserverMethod.bind(c, o)
 
     def __len__(self):
         self.flush()
-- 
2.43.0


From 9092f1c7b566f58cc9e9b8cb181b872de1c76996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 24/71] fix: in-place matrix multiplication did not notify
 observers

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..9dc2197 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,9 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        r = np.ndarray.__imatmul__(self, *args, **kwargs)
+        self.notify_observers()
+        return r
-- 
2.43.0


From cecc7eb8f09c6da763c8e212fc9cdff60a336bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 25/71] fix: checkgrad accepted zero gradients and refused
 cancelling ones

---
 paramz/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..feff715 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -334,7 +334,9 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            # difference of the derivatives along dx, as far as f1 - f2 is accurate:
+            accuracy = df_tolerance * max(np.abs(f1), np.abs(f2))
+            global_diff = np.abs(f1 - f2 - denominator) < max(2. * step * tolerance, accuracy)
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From 0daf8b9e8c753a5e9b3593962ee355648e570991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 26/71] fix: a selection re-evaluated its owners only on first
 use

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index d3b3e17..1052bfe 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -431,7 +431,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = [x[0] for x in sorted(parents.items(), key=operator.itemgetter(1))]
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From f008f211a08ec33f3016b4dbfddfddfc459972a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 27/71] fix: assigning to a part of a selection wrote the wrong
 values

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 1052bfe..ea7fc94 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -447,7 +447,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From cf1532c4f82b67b2e79f0bd62af56e598dba3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 28/71] fix: indexing a selection across parameters failed

---
 paramz/param.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index ea7fc94..e75bb74 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -436,10 +436,7 @@ class ParamConcatenation(object):
     # Get/set items, enable broadcasting
     #===========================================================================
     def __getitem__(self, s):
-        ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
-        if len(params)==1: return params[0]
-        return ParamConcatenation(params)
+        return self.values()[s]
 
     def __setitem__(self, s, val):
         if isinstance(val, ParamConcatenation):
-- 
2.43.0


From 87a50309aa8c8bace9ebd979129ed59a6ee764b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 29/71] fix: in-place operations replaced a selection by None

---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index e75bb74..e90b752 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -551,39 +551,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From 23470178ae71f1f91eaa89d1ec0654e5ceb1aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 30/71] fix: checkgrad of a selection failed

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index 6970753..7370476 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From 65d3c0a7d77cd07ffeebdbb1e5b08d269a02017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 31/71] fix: failing gradients were not tolerated while
 optimizing, or not finite

---
 paramz/model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index feff715..c7ee984 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -242,9 +242,20 @@ class Model(Parameterized):
             if self._fail_count >= self._allowed_failures:
                 raise
             self._fail_count += 1
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e100, 1e100)
+            self.obj_grads = self._failed_grads(1e100)
         return self.obj_grads
 
+    def _failed_grads(self, limit):
+        """
+        Finite gradients to go on with, after the evaluation of the model failed.
+        """
+        try:
+            grads = self._transform_gradients(self.objective_function_gradients())
+        except (LinAlgError, ZeroDivisionError, ValueError):
+            # the gradients themselves can not be computed
+            grads = np.zeros(self._size_transformed())
+        return np.clip(np.nan_to_num(grads), -limit, limit)
+
     def _objective(self, x):
         """
         The objective function passed to the optimizer. It combines
@@ -278,7 +289,7 @@ class Model(Parameterized):
                 raise
             self._fail_count += 1
             obj_f = np.inf
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e10, 1e10)
+            self.obj_grads = self._failed_grads(1e10)
         return obj_f, self.obj_grads
 
     def _checkgrad(self, target_param=None, verbose=False, step=1e-6, tolerance=1e-3, df_tolerance=1e-12):
-- 
2.43.0


From af62f65fccffda9237cfdb650de2def78bfe3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 32/71] fix: optimize_restarts preferred restarts ending in nan

---
 paramz/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index c7ee984..6e731e7 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -183,7 +183,9 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            f_opt = np.array([o.f_opt for o in self.optimization_runs[initial_length:]], dtype=float).ravel()
+            # a run without a result (nan) is never the best one
+            i = np.argmin(np.where(np.isnan(f_opt), np.inf, f_opt))
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From bb8a5d46ed67b8b14c154acd74f9417b1e23882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 33/71] fix: failing parallel restarts were not handled,
 whether robust or not

---
 paramz/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 6e731e7..918676e 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -156,13 +156,14 @@ class Model(Parameterized):
                 pool = mp.Pool(processes=num_processes)
                 obs = [self.copy() for i in range(num_restarts)]
                 [obs[i].randomize() for i in range(num_restarts-1)]
-                jobs = pool.map(opt_wrapper, [(o,kwargs) for o in obs])
+                jobs = [pool.apply_async(opt_wrapper, ((o,kwargs),)) for o in obs]
                 pool.close()
                 pool.join()
             except KeyboardInterrupt:
                 print("Ctrl+c received, terminating and joining pool.")
                 pool.terminate()
                 pool.join()
+                jobs = []
 
         for i in range(num_restarts):
             try:
@@ -171,7 +172,7 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
-                    self.optimization_runs.append(jobs[i])
+                    self.optimization_runs.append(jobs[i].get())
 
                 if verbose:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
-- 
2.43.0


From 060dbf068008f4271a2503fcf915ad223d03594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 34/71] fix: evaluating the model changed the start of the
 running optimizer

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 918676e..0a1bf6f 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -95,7 +95,7 @@ class Model(Parameterized):
             self.update_model(True)
 
         if start is None:
-            start = self.optimizer_array
+            start = self.optimizer_array.copy()
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From 71fa1b156365f7e47318ce78b015f3c641b023b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 35/71] fix: cached results were stale after changes through
 views of the arguments

---
 paramz/caching.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..0ba7824 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -32,6 +32,7 @@
 #===============================================================================
 
 import collections, weakref
+import numpy as np
 from functools import reduce
 from pickle import PickleError
 from decorator import decorate  # @UnresolvedImport
@@ -110,8 +111,9 @@ class Cacher(object):
                 if tmp is not None:
                     ref, cache_ids = tmp
                     if len(cache_ids) == 1 and ref() is not None:
-                        ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        if not self._is_observed(ref()):
+                            ref().remove_observer(self, self.on_cache_changed)
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
@@ -142,7 +144,7 @@ class Cacher(object):
                 ind_id = self.id(a)
                 v = self.cached_input_ids.get(ind_id, [weakref.ref(a), []])
                 v[1].append(cache_id)
-                if len(v[1]) == 1:
+                if not self._is_observed(a):
                     a.add_observer(self, self.on_cache_changed)
                 self.cached_input_ids[ind_id] = v
 
@@ -198,10 +200,16 @@ class Cacher(object):
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
         for what in [direct, which]:
-            ind_id = self.id(what)
-            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-            for cache_id in cache_ids:
-                self.inputs_changed[cache_id] = True
+            for ref, cache_ids in self.cached_input_ids.values():
+                inp = ref()
+                # an array changes with all the views of its memory
+                if inp is what or (isinstance(inp, np.ndarray) and isinstance(what, np.ndarray) and np.may_share_memory(inp, what)):
+                    for cache_id in cache_ids:
+                        self.inputs_changed[cache_id] = True
+
+    def _is_observed(self, obj):
+        "Whether this cacher is registered with the observers of obj, which views have in common"
+        return any(ref() is not None and ref().observers is obj.observers for ref, _ in self.cached_input_ids.values())
 
     def reset(self):
         """
-- 
2.43.0


From 46a091a9c9e3ee61af6bd4ce5600d0c68687bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 36/71] fix: cached results of other keyword arguments were
 returned

---
 paramz/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 0ba7824..e0a4c04 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -167,6 +167,8 @@ class Cacher(object):
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
         cache_id = self.prepare_cache_id(inputs)
+        # the same inputs given for other keywords are another call:
+        cache_id += "".join(", " + k for i, k in enumerate(sorted(kw), len(args)) if i not in self.ignore_args)
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From 7aa940f1b57820a9fee7c6190bce71bc1562b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 37/71] fix: copies of cached methods called the method of the
 original

---
 paramz/caching.py         | 10 ++++++++--
 paramz/core/pickleable.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index e0a4c04..a5c7505 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -31,7 +31,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #===============================================================================
 
-import collections, weakref
+import collections, copy, weakref
 import numpy as np
 from functools import reduce
 from pickle import PickleError
@@ -233,7 +233,13 @@ class Cacher(object):
         self.inputs_changed = {}  # point from cache_ids to bools
 
     def __deepcopy__(self, memo=None):
-        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)
+        if memo is None:
+            memo = {}
+        # a method has to be the method of the copied object:
+        operation = copy.deepcopy(self.operation, memo)
+        if id(self) not in memo: # otherwise it was copied alongside the object of the method
+            memo[id(self)] = Cacher(operation, self.limit, self.ignore_args, self.force_kwargs, self.cacher_enabled)
+        return memo[id(self)]
 
     def __getstate__(self, memo=None):
         raise PickleError("Trying to pickle Cacher object with function {}, pickling functions not possible.".format(str(self.operation)))
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index faf45de..ae8c29b 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -123,6 +123,9 @@ class Pickleable(object):
         from .lists_and_dicts import ObserverList
         from ..caching import FunctionCache
         self.observers = ObserverList()
-        self.cache = FunctionCache()
+        if not isinstance(self.__dict__.get('cache', None), FunctionCache):
+            self.cache = FunctionCache()
+        else:
+            self.cache.reset() # keep the cachers registered while copying
         self._setup_observers()
         self._optimizer_copy_transformed = False
-- 
2.43.0


From f0dad9e338ac44d56523bf382696c318fe2b9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 38/71] fix: cached functions which call themselves returned
 stale results

---
 paramz/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index a5c7505..35e5263 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -184,12 +184,12 @@ class Cacher(object):
             except:
                 self.reset()
                 raise
-            if(changed):
+            if cache_id in self.cached_inputs: # the operation might have used this cache itself
                 # 4: This happens, when elements have changed for this cache self.id
                 self.inputs_changed[cache_id] = False
                 self.cached_outputs[cache_id] = new_output
-            else:  # not_seen is True, as one of the two has to be True:
-                # 3: This is when we never saw this chache_id:
+            else:
+                # 3: This is when we never saw (or do not have anymore) this chache_id:
                 self.ensure_cache_length()
                 self.add_to_cache(cache_id, inputs, new_output)
         # 5: We have seen this cache_id and it is cached:
-- 
2.43.0


From a1bc4fc64a42b71494287a5230af16b27b3dc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 39/71] fix: observers of a cached argument got results from
 before the change

---
 paramz/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 35e5263..54f8b28 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -145,7 +145,8 @@ class Cacher(object):
                 v = self.cached_input_ids.get(ind_id, [weakref.ref(a), []])
                 v[1].append(cache_id)
                 if not self._is_observed(a):
-                    a.add_observer(self, self.on_cache_changed)
+                    # before all others, which might call the cached operation themselves
+                    a.add_observer(self, self.on_cache_changed, np.inf)
                 self.cached_input_ids[ind_id] = v
 
     def __call__(self, *args, **kw):
-- 
2.43.0


From 99b65d563df79d116f346af42295dbddcf51e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 40/71] fix: force_kwargs of decorated methods had no effect

---
 paramz/caching.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 54f8b28..fa6afa5 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -288,8 +288,14 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        # the decorator passes all named arguments by position:
+        names = f.__code__.co_varnames[:f.__code__.co_argcount]
+        defaults = dict(zip(names[::-1], (f.__defaults__ or ())[::-1]))
+        forced = [(names.index(k), defaults.get(k)) for k in self.force_kwargs if k in names]
         def g(obj, *args, **kw):
             obj = args[0]
+            if any(i < len(args) and args[i] is not None and args[i] is not default for i, default in forced):
+                return self.f(*args, **kw)
             if not hasattr(obj, 'cache'):
                 obj.cache = FunctionCache()
             cache = obj.cache
-- 
2.43.0


From 13afadbd59873ad3638dcd984693f347851f9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 41/71] fix: nested parameters linked before connecting were
 missing or not unique

---
 paramz/core/parameter_core.py | 7 ++++++-
 paramz/parameterized.py       | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index f1b28ed..bd86318 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -478,7 +478,7 @@ class Parameterizable(OptimizationHandlable):
             for other in self.parameters:
                 if (not (other is param)) and (other.name == param.name):
                     return warn_and_retry(other, _name_digit.match(other.name))
-            if pname not in dir(self):
+            if pname not in self.__dict__ and pname not in dir(self):
                 self.__dict__[pname] = param
                 self._added_names_.add(pname)
             else: # pname in self.__dict__
@@ -493,6 +493,11 @@ class Parameterizable(OptimizationHandlable):
             raise RE("Maximum recursion depth reached, try naming the parts of your kernel uniquely to avoid naming conflicts.")
 
 
+    def _add_parameter_names(self):
+        for p in list(self.parameters):
+            self._add_parameter_name(p)
+            p._add_parameter_names()
+
     def _remove_parameter_name(self, param=None, pname=None):
         assert param is None or pname is None, "can only delete either param by name, or the name of a param"
         pname = adjust_name_for_printing(pname) or adjust_name_for_printing(param.name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index d1815ac..842e815 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -291,6 +291,10 @@ All parameter arrays must be C_CONTIGUOUS
             self._add_parameter_name(p)
             old_size += p.size
 
+        # the nested parameters might have been linked before being connected
+        for p in list(self.parameters):
+            p._add_parameter_names()
+
     #===========================================================================
     # Get/set parameters:
     #===========================================================================
-- 
2.43.0


From 1ab1b7f229ee6d93de1d56864aa4324f0dafcf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 42/71] fix: copies of objects referring into other hierarchies
 failed

---
 paramz/core/pickleable.py | 12 ++++++++++++
 paramz/param.py           |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index ae8c29b..16752a8 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -94,7 +94,19 @@ class Pickleable(object):
         copy._trigger_params_changed()
         return copy
 
+    def _deepcopy_from_top(self, memo):
+        # reached by reference from the outside of its hierarchy: hierarchies
+        # can only be copied from the top, which includes this object.
+        import copy
+        top = getattr(self, '_highest_parent_', self)
+        if top is not self and not id(top) in memo:
+            copy.deepcopy(top, memo)
+        return memo.get(id(self), None)
+
     def __deepcopy__(self, memo):
+        s = self._deepcopy_from_top(memo)
+        if s is not None:
+            return s
         s = self.__new__(self.__class__) # fresh instance
         memo[id(self)] = s # be sure to break all cycles --> self is already done
         import copy
diff --git a/paramz/param.py b/paramz/param.py
index e90b752..eb58091 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -210,6 +210,9 @@ class Param(Parameterizable, ObsAr):
         return Parameterizable.copy(self, which=self)
 
     def __deepcopy__(self, memo):
+        s = self._deepcopy_from_top(memo)
+        if s is not None:
+            return s
         s = self.__new__(self.__class__, name=self.name, input_array=self.view(np.ndarray).copy())
         memo[id(self)] = s
         import copy
-- 
2.43.0


From 445a09e173179a6ccca64783b2c2a3a455f82a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 43/71] fix: pickled parts of a hierarchy could not be loaded

---
 paramz/core/parameter_core.py | 11 +++++++++++
 paramz/param.py               |  4 ++++
 paramz/parameterized.py       | 18 ++++++++++++++----
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index bd86318..bb83028 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -515,6 +515,17 @@ class Parameterizable(OptimizationHandlable):
         self.logger = logging.getLogger(self.__class__.__name__)
         return self
 
+    def _is_restored(self):
+        # the state was set for this object and everything below it
+        return ('_name' in self.__dict__ and not self.__dict__.get('_restoring_', False)
+                and all(p._is_restored() for p in self.parameters))
+
+    def _connect_restored(self):
+        # connect the parents, which had to wait for this object to be restored
+        parent = self.__dict__.get('_parent_', None)
+        if parent is not None and '_name' in parent.__dict__:
+            parent._connect_restored()
+
     #===========================================================================
     # notification system
     #===========================================================================
diff --git a/paramz/param.py b/paramz/param.py
index eb58091..0245574 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -219,6 +219,10 @@ class Param(Parameterizable, ObsAr):
         Pickleable.__setstate__(s, copy.deepcopy(self.__getstate__(), memo))
         return s
 
+    def __setstate__(self, state):
+        super(Param, self).__setstate__(state)
+        self._connect_restored()
+
     def _setup_observers(self):
         """
         Setup the default observers
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 842e815..62f0c85 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -361,13 +361,23 @@ If you are loading a model, set updates off, then initialize, then set the value
     # Pickling
     #===========================================================================
     def __setstate__(self, state):
+        # the parameters might not be restored yet, if this was reached from one of them
+        state = dict(state)
+        parameters = state.pop('parameters')
         super(Parameterized, self).__setstate__(state)
-        self._connect_parameters()
-        self._connect_fixes()
-        self._notify_parent_change()
-        self.parameters_changed()
+        self.__dict__.update(parameters=parameters, _restoring_=True)
+        self._connect_restored()
         return self
 
+    def _connect_restored(self):
+        if self.__dict__.get('_restoring_', False) and all(p._is_restored() for p in self.parameters):
+            del self.__dict__['_restoring_']
+            self._connect_parameters()
+            self._connect_fixes()
+            self._notify_parent_change()
+            self.parameters_changed()
+        super(Parameterized, self)._connect_restored()
+
     def copy(self, memo=None):
         if memo is None:
             memo = {}
-- 
2.43.0


From c2b854de43c6d3e79c880d17535a4abfbb0ca73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 44/71] fix: copies started from within a hierarchy were not
 connected

---
 paramz/core/parameter_core.py |  4 ++--
 paramz/core/pickleable.py     | 12 ------------
 paramz/param.py               |  4 +---
 3 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index bb83028..da21c5a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -517,13 +517,13 @@ class Parameterizable(OptimizationHandlable):
 
     def _is_restored(self):
         # the state was set for this object and everything below it
-        return ('_name' in self.__dict__ and not self.__dict__.get('_restoring_', False)
+        return ('_index_operations' in self.__dict__ and not self.__dict__.get('_restoring_', False)
                 and all(p._is_restored() for p in self.parameters))
 
     def _connect_restored(self):
         # connect the parents, which had to wait for this object to be restored
         parent = self.__dict__.get('_parent_', None)
-        if parent is not None and '_name' in parent.__dict__:
+        if parent is not None and '_index_operations' in parent.__dict__:
             parent._connect_restored()
 
     #===========================================================================
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index 16752a8..ae8c29b 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -94,19 +94,7 @@ class Pickleable(object):
         copy._trigger_params_changed()
         return copy
 
-    def _deepcopy_from_top(self, memo):
-        # reached by reference from the outside of its hierarchy: hierarchies
-        # can only be copied from the top, which includes this object.
-        import copy
-        top = getattr(self, '_highest_parent_', self)
-        if top is not self and not id(top) in memo:
-            copy.deepcopy(top, memo)
-        return memo.get(id(self), None)
-
     def __deepcopy__(self, memo):
-        s = self._deepcopy_from_top(memo)
-        if s is not None:
-            return s
         s = self.__new__(self.__class__) # fresh instance
         memo[id(self)] = s # be sure to break all cycles --> self is already done
         import copy
diff --git a/paramz/param.py b/paramz/param.py
index 0245574..5ed7aae 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -210,13 +210,11 @@ class Param(Parameterizable, ObsAr):
         return Parameterizable.copy(self, which=self)
 
     def __deepcopy__(self, memo):
-        s = self._deepcopy_from_top(memo)
-        if s is not None:
-            return s
         s = self.__new__(self.__class__, name=self.name, input_array=self.view(np.ndarray).copy())
         memo[id(self)] = s
         import copy
         Pickleable.__setstate__(s, copy.deepcopy(self.__getstate__(), memo))
+        s._connect_restored()
         return s
 
     def __setstate__(self, state):
-- 
2.43.0


From ee3ad2e851877fdabad8098ea1f022decf5ff21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 45/71] fix: parameters with the same printed name could not be
 told apart

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index da21c5a..120428c 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -476,7 +476,7 @@ class Parameterizable(OptimizationHandlable):
                 self._add_parameter_name(param)
             # and makes sure to not delete programmatically added parameters
             for other in self.parameters:
-                if (not (other is param)) and (other.name == param.name):
+                if (not (other is param)) and (adjust_name_for_printing(other.name) == pname):
                     return warn_and_retry(other, _name_digit.match(other.name))
             if pname not in self.__dict__ and pname not in dir(self):
                 self.__dict__[pname] = param
-- 
2.43.0


From 25559b764f313633bd880bb90cb28073650fa9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 46/71] fix: hierarchy_name(False) still adjusted the names of
 the parents

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 760af2b..7f95b6e 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -86,5 +86,5 @@ class Nameable(Gradcheckable):
         if adjust_for_printing: adjust = lambda x: adjust_name_for_printing(x)
         else: adjust = lambda x: x
         if self.has_parent():
-            return self._parent_.hierarchy_name() + "." + adjust(self.name)
+            return self._parent_.hierarchy_name(adjust_for_printing) + "." + adjust(self.name)
         return adjust(self.name)
-- 
2.43.0


From 0e2f237b1a2997ac91e0a36f212b725271944e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 47/71] fix: parameters named like an attribute of the
 hierarchy broke it

---
 paramz/parameterized.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 62f0c85..9a3c1b1 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -44,6 +44,9 @@ from collections import OrderedDict
 from functools import reduce
 logger = logging.getLogger("parameters changed meta")
 
+# attributes of the instances, other attributes are known by the class
+_reserved_names = ['size', 'parameters', 'observers', 'cache', 'logger']
+
 class ParametersChangedMeta(type):
 
     def __call__(self, *args, **kw):
@@ -352,7 +355,8 @@ If you are loading a model, set updates off, then initialize, then set the value
         # override the default behaviour, if setting a param, so broadcasting can by used
         if hasattr(self, "parameters"):
             pnames = self.parameter_names(False, adjust_for_printing=True, recursive=False)
-            if name in pnames:
+            # (not for the attributes, which the hierarchy itself needs under this name)
+            if name in pnames and not (hasattr(Parameterized, name) or name in _reserved_names):
                 param = self.parameters[pnames.index(name)]
                 param[:] = val; return
         return object.__setattr__(self, name, val)
-- 
2.43.0


From 3e73d937729798b563079e2a8538dfad874d403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 48/71] fix: elements addressed by mixed and by empty indices
 were wrong

---
 paramz/param.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index 5ed7aae..f6ea0cc 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -171,10 +171,9 @@ class Param(Parameterizable, ObsAr):
     def _raveled_index(self, slice_index=None):
         # return an index array on the raveled array, which is formed by the current_slice
         # of this object
-        extended_realshape = np.cumprod((1,) + self._realshape_[:0:-1])[::-1]
-        ind = self._indices(slice_index)
-        if ind.ndim < 2: ind = ind[:, None]
-        return np.asarray(np.apply_along_axis(lambda x: np.sum(extended_realshape * x), 1, ind), dtype=int)
+        if slice_index is None:
+            slice_index = self._current_slice_
+        return np.arange(self._realsize_).reshape(self._realshape_)[slice_index].ravel()
 
     def _raveled_index_for(self, obj):
         return self._raveled_index()
@@ -261,20 +260,8 @@ class Param(Parameterizable, ObsAr):
         return name + super(Param, self).__repr__(*args, **kwargs)
     def _indices(self, slice_index=None):
         # get a int-array containing all indices in the first axis.
-        if slice_index is None:
-            slice_index = self._current_slice_
-        #try:
-        indices = np.indices(self._realshape_, dtype=int)
-        indices = indices[(slice(None),)+slice_index]
-        indices = np.rollaxis(indices, 0, indices.ndim).reshape(-1,self._realndim_)
-            #print indices_
-            #if not np.all(indices==indices__):
-            #    import ipdb; ipdb.set_trace()
-        #except:
-        #    indices = np.indices(self._realshape_, dtype=int)
-        #    indices = indices[(slice(None),)+slice_index]
-        #    indices = np.rollaxis(indices, 0, indices.ndim)
-        return indices
+        ind = self._raveled_index(slice_index)
+        return np.array(np.unravel_index(ind, self._realshape_)).T
 
     def _max_len_names(self, gen, header):
         return reduce(lambda a, b: max(a, len(" ".join(map(str, b)))), gen, len(header))
-- 
2.43.0


From 55016439a29aadf784b2332d2843fbb463f4b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 49/71] fix: the unfixed values of a leaf were None

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 120428c..3c4e809 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -371,9 +371,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
-- 
2.43.0


From 5876ee08b2ee3b2e3b07abfee38e92a45b72aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 50/71] fix: SCG searched along NaN when started where the
 gradient is zero

---
 paramz/optimization/scg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/optimization/scg.py b/paramz/optimization/scg.py
index be8de76..5215973 100644
--- a/paramz/optimization/scg.py
+++ b/paramz/optimization/scg.py
@@ -84,6 +84,11 @@ def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, fto
 
     iteration = 0
 
+    # If the gradient is zero already there is no direction to search in.
+    if current_grad == 0:
+        status = 'converged - relative reduction in gradient'
+        return x, flog, function_eval, status
+
     # Main optimization loop.
     while iteration < maxiters:
 
-- 
2.43.0


From 1170050f91faa6f11945033e5afde1cb78c2be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 51/71] fix: progress messages consumed global random numbers

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..5288e44 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -51,6 +51,8 @@ class VerboseOptimization(object):
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
             self.opt = opt
+            # line breaks are random, but leave the global random numbers alone
+            self._random = np.random.RandomState(0)
             self.model.add_observer(self, self.print_status)
             self.status = 'running'
             self.clear = clear_after_finish
@@ -169,7 +171,7 @@ class VerboseOptimization(object):
             self.model_show.value = self.model._repr_html_()
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
-            if self.iteration - self.p_iter >= 20 * np.random.rand():
+            if self.iteration - self.p_iter >= 20 * self._random.rand():
                 a = self.iteration >= self.p_iter * 2.78
                 b = np.any(n_exps < self.exps)
                 if a or b:
-- 
2.43.0


From e86a338f52951dd84bfb8ac1ab8fc4254e7b4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 52/71] fix: progress messages made evaluations of the gradient
 fail with the objective

---
 paramz/optimization/verbose_optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 5288e44..8cc84ea 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -197,7 +197,11 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except Exception:
+            # failures are up to the optimization, not to its messages
+            self.fnow = np.nan
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From 7091abcec5c1903162b5cf71593740b33589b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 53/71] fix: removing indices given twice reported indices
 which were not there

---
 paramz/core/index_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..7cf92ed 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -163,6 +163,7 @@ class ParameterIndexOperations(object):
 
     def remove(self, prop, indices):
         if prop in self._properties:
+            indices = numpy.unique(numpy.asarray(indices, dtype=int))
             diff = remove_indices(self[prop], indices)
             removed = numpy.intersect1d(self[prop], indices, True)
             if not index_empty(diff):
@@ -280,7 +281,7 @@ class ParameterIndexOperationsView(object):
 
 
     def remove(self, prop, indices):
-        removed = self._param_index_ops.remove(prop, numpy.array(indices)+self._offset)
+        removed = self._param_index_ops.remove(prop, numpy.asarray(indices, dtype=int)+self._offset)
         if removed.size > 0:
             return removed-self._offset
         return removed
-- 
2.43.0


From f8099925c6761a18035915416054348ed575e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 54/71] fix: adding empty lists made indices floats, adding
 lists to views failed

---
 paramz/core/index_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 7cf92ed..985ae29 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -196,7 +196,7 @@ class ParameterIndexOperations(object):
         return pprint.pformat(dict(self._properties))
 
 def combine_indices(arr1, arr2):
-    return numpy.union1d(arr1, arr2)
+    return numpy.union1d(arr1, numpy.asarray(arr2, dtype=int))
 
 def remove_indices(arr, to_remove):
     return numpy.setdiff1d(arr, to_remove, True)
@@ -277,7 +277,7 @@ class ParameterIndexOperationsView(object):
 
 
     def add(self, prop, indices):
-        self._param_index_ops.add(prop, indices+self._offset)
+        self._param_index_ops.add(prop, numpy.asarray(indices, dtype=int)+self._offset)
 
 
     def remove(self, prop, indices):
-- 
2.43.0


From aa3925825f4e5de6088bc1005437dbe6965c41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 55/71] fix: linking into a nested node before initialization
 shifts what follows

The index operations of the hierarchy are shifted, when parameters are linked
into a nested node, but parameters behind that node kept looking at the old
position until initialization: fixing or constraining them hit others.
---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 9a3c1b1..2d6b326 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -184,7 +184,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            self._highest_parent_._notify_parent_change()
 
             if not self._in_init_ and self._highest_parent_._model_initialized_:
                 #self._connect_parameters()
-- 
2.43.0


From b352dead64670db45db2ac1cbe575a8c50a96cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 56/71] fix: linking into a node below a model in its __init__
 raised AttributeError

The model, which the node was linked to, is not initialized during its
__init__, but had no flag saying so.
---
 paramz/parameterized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 2d6b326..ca33ce5 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -116,6 +116,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
     #__metaclass__ = ParametersChangedMeta
     #The six module is used to support both Python 2 and 3 simultaneously
     #===========================================================================
+    _model_initialized_ = False # not before the __init__ is through
+
     def __init__(self, name=None, parameters=[]):
         super(Parameterized, self).__init__(name=name)
         self.size = sum(p.size for p in self.parameters)
-- 
2.43.0


From 3d6070e4c9ff4c59c99ae463bc44f22a98f75867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 57/71] fix: constraining a node before initialization left its
 values outside the domain

Before initialization, also inside __init__, the node is not connected to its
parameters: the values moved into the domain were lost.
---
 paramz/core/constrainable.py | 7 +++++--
 paramz/parameterized.py      | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 9648d7c..9336903 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -150,8 +150,7 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
-            self.param_array[...] = transform.initialize(self.param_array)
-            self._write_to_original()
+            self._move_into_domain(transform)
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
@@ -161,6 +160,10 @@ class Constrainable(Indexable):
         self.trigger_update(trigger_parent)
         return added
 
+    def _move_into_domain(self, transform):
+        self.param_array[...] = transform.initialize(self.param_array)
+        self._write_to_original()
+
     def unconstrain(self, *transforms):
         """
         :param transforms: The transformations to unconstrain from.
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index ca33ce5..62b3cd4 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -300,6 +300,14 @@ All parameter arrays must be C_CONTIGUOUS
         for p in list(self.parameters):
             p._add_parameter_names()
 
+    def _move_into_domain(self, transform):
+        # the values are in the leaves, as self might not be connected to them yet
+        leaves = self.flattened_parameters
+        if len(leaves) > 0:
+            values = transform.initialize(np.concatenate([p.param_array.flat for p in leaves]))
+            for p, v in zip(leaves, np.split(values, np.cumsum([p.size for p in leaves])[:-1])):
+                p.param_array.flat = v
+
     #===========================================================================
     # Get/set parameters:
     #===========================================================================
-- 
2.43.0


From 1f2034a8da826befa93ef5279061f510b0ad049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 58/71] fix: assignments through a node, which lost its
 connection, were lost

Linking into an initialized node below a hierarchy, which is not initialized
yet, leaves the node without connection to its parameters until then.
Assignments through it are refused now, as those through any node before
initialization, instead of getting lost.
---
 paramz/parameterized.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 62b3cd4..e528296 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -195,6 +195,12 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 self._highest_parent_._connect_parameters()
                 self._highest_parent_._notify_parent_change()
                 self._highest_parent_._connect_fixes()
+            else:
+                # not connected (anymore), until the hierarchy gets initialized
+                parent = self
+                while parent is not None:
+                    parent._model_initialized_ = False
+                    parent = parent._parent_
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
-- 
2.43.0


From dcc7c838331d7225e2a4b9e46d45f7857b547cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 59/71] fix: name the statuses of tnc and bfgs runs which can
 not progress

The lists of statuses were shorter than the codes scipy returns, so a run
on a model with a nan objective or gradient ended in an IndexError.
---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..5719ebc 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,7 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress']
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +141,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From e1f3f02e2956ffd024b237c567fe501cc6ffdef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 60/71] fix: an empty parameter has no names of elements

Its name shifted the flat names of all parameters behind it, so that the
gradient checker listed their gradients under wrong names.
---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 3c4e809..0e5ede4 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -218,7 +218,7 @@ class OptimizationHandlable(Constrainable):
         name_list = []
         for p in self.flattened_parameters:
             name = p.hierarchy_name()
-            if p.size > 1:
+            if p.size != 1:
                 name_list.extend(["{}[{!s}]".format(name, i) for i in p._indices()])
             else:
                 name_list.append(name)
-- 
2.43.0


From 10aa2004dcb63216b49025fc5a1b861e1e60a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 61/71] fix: print models with an empty parameter

They have no value to show, and raised an IndexError instead.
---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index f6ea0cc..5e85ba7 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -234,7 +234,7 @@ class Param(Parameterizable, ObsAr):
     #===========================================================================
     @property
     def _description_str(self):
-        if self.size <= 1:
+        if self.size == 1:
             return [str(self.view(np.ndarray)[0])]
         else: return [str(self.shape)]
     def parameter_names(self, add_self=False, adjust_for_printing=False, recursive=True, **kw):
-- 
2.43.0


From a1a28e6d94acb4cdbebebf851980ecdfa7c04497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 62/71] fix: assigning one element of a node by its index

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index e528296..704454e 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -357,7 +357,7 @@ If you are loading a model, set updates off, then initialize, then set the value
 """)
         if value is None:
             return # nothing to do here
-        if isinstance(name, (slice, tuple, np.ndarray)):
+        if isinstance(name, (int, slice, tuple, np.ndarray)):
             try:
                 self.param_array[name] = value
             except:
-- 
2.43.0


From b0cf26b5bf3c58a218d66d2325969016884c2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 63/71] fix: building an observable array of another one forgot
 its observers

---
 paramz/core/observable_array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 9dc2197..7804dea 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -62,10 +62,14 @@ class ObsAr(np.ndarray, Pickleable, Observable):
             except ValueError:
                 # do we have other dtypes in the array?
                 obj = np.atleast_1d(np.require(input_array, requirements=['W', 'C'])).view(cls)
-        else: obj = input_array
+        else: return input_array # as it is, with all its observers
         super(ObsAr, obj).__init__(*a, **kw)
         return obj
 
+    def __init__(self, input_array=None, *a, **kw):
+        if input_array is not self:
+            super(ObsAr, self).__init__(*a, **kw)
+
     def __array_finalize__(self, obj):
         # see InfoArray.__array_finalize__ for comments
         if obj is None: return
-- 
2.43.0


From 9f728eaa8c2e9bf91df3c1ab7778340205dddd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 64/71] fix: building a parameter from an observable array or
 parameter took over the original

---
 paramz/param.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 5e85ba7..05e3654 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -86,6 +86,9 @@ class Param(Parameterizable, ObsAr):
     _fixes_ = None
     parameters = []
     def __new__(cls, name, input_array, default_constraint=None):
+        if isinstance(input_array, ObsAr):
+            # only the memory is used, input_array stays what it is
+            input_array = input_array.view(np.ndarray)
         obj = super(Param, cls).__new__(cls, input_array=input_array)
         obj._current_slice_ = (slice(obj.shape[0]),)
         obj._realshape_ = obj.shape
-- 
2.43.0


From 4b7e65e5385fb4ec34fbdd003eaa710f610d4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:53 +0000
Subject: [PATCH 65/71] fix: a failing evaluation in constrain left values
 outside of the old constraint

---
 paramz/core/constrainable.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 9336903..5defc24 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -149,14 +149,14 @@ class Constrainable(Indexable):
         Constrain the parameter to the given
         :py:class:`paramz.transformations.Transformation`.
         """
-        if isinstance(transform, Transformation):
-            self._move_into_domain(transform)
-        elif transform == __fixed__:
-            return self.fix(warning=warning, trigger_parent=trigger_parent)
-        else:
+        if not isinstance(transform, Transformation):
+            if transform == __fixed__:
+                return self.fix(warning=warning, trigger_parent=trigger_parent)
             raise ValueError('Can only constrain with paramz.transformations.Transformation object')
         reconstrained = self.unconstrain()
         added = self._add_to_index_operations(self.constraints, reconstrained, transform, warning)
+        # last, as updating the model to the new values might fail
+        self._move_into_domain(transform)
         self.trigger_update(trigger_parent)
         return added
 
-- 
2.43.0


From e5417c969672c18c1158fa4e49db9ad3f4c3bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 66/71] fix: runs of the climin optimizers had no objective
 value, so that restarts could not choose the best

---
 paramz/optimization/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 5719ebc..fb59201 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -270,6 +270,8 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -306,6 +308,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -348,6 +352,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From 12b178cbae3c4207666a1a369da0d78eb5fafb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 67/71] fix: a traversal inside of a traversal left out what
 the outer one was in, copies made inside of one could never be traversed

---
 paramz/core/parameter_core.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 0e5ede4..1be4de9 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -329,7 +329,6 @@ class Parameterizable(OptimizationHandlable):
         self._param_array_ = None
         self._added_names_ = set()
         self.logger = logging.getLogger(self.__class__.__name__)
-        self.__visited = False # for traversing in reverse order we need to know if we were here already
         self.cache = FunctionCache()
 
 
@@ -391,13 +390,8 @@ class Parameterizable(OptimizationHandlable):
             print children
 
         """
-        if not self.__visited:
-            visit(self, *args, **kwargs)
-            self.__visited = True
-            try:
-                self._traverse(visit, *args, **kwargs)
-            finally:
-                self.__visited = False
+        visit(self, *args, **kwargs)
+        self._traverse(visit, *args, **kwargs)
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -416,12 +410,11 @@ class Parameterizable(OptimizationHandlable):
         print parents
         """
         if self.has_parent():
-            self.__visited = True
-            try:
-                self._parent_.traverse_parents(visit, *args, **kwargs)
-                self._parent_.traverse(visit, *args, **kwargs)
-            finally:
-                self.__visited = False
+            self._parent_.traverse_parents(visit, *args, **kwargs)
+            visit(self._parent_, *args, **kwargs)
+            for c in self._parent_.parameters:
+                if c is not self: # this is where we came from
+                    c.traverse(visit, *args, **kwargs)
 
     #===========================================================================
     # Caching
-- 
2.43.0


From deb21691cd6352e3f11ad190ac5a1dc4f478af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 68/71] fix: threads which first used a constraint at the same
 time got different or unfinished instances of it

---
 paramz/transformations.py | 40 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 8a5c949..e4f478b 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -33,7 +33,7 @@
 
 import numpy as np
 from .domains import _POSITIVE,_NEGATIVE, _BOUNDED
-import weakref, logging
+import weakref, logging, threading
 
 import sys
 
@@ -50,13 +50,17 @@ UNFIXED = True
 #===============================================================================
 logger = logging.getLogger(__name__)
 
+# transformations are shared between models, which might be used in different threads
+_instances_lock = threading.RLock()
+
 class Transformation(object):
     domain = None
     _instance = None
     def __new__(cls, *args, **kwargs):
-        if not cls._instance or cls._instance.__class__ is not cls:
-            cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
-        return cls._instance
+        with _instances_lock:
+            if not cls._instance or cls._instance.__class__ is not cls:
+                cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
+            return cls._instance
     def f(self, opt_param):
         raise NotImplementedError
     def finv(self, model_param):
@@ -185,19 +189,21 @@ class Logistic(Transformation):
     domain = _BOUNDED
     _instances = []
     def __new__(cls, lower=1e-6, upper=1e-6, *args, **kwargs):
-        if cls._instances:
-            # instances without bounds were refused by __init__
-            cls._instances[:] = [instance for instance in cls._instances if hasattr(instance(), 'lower')]
-            for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
-                    return instance()
-        newfunc = super(Transformation, cls).__new__
-        if newfunc is object.__new__:
-            o = newfunc(cls)
-        else:
-            o = newfunc(cls, lower, upper, *args, **kwargs)
-        cls._instances.append(weakref.ref(o))
-        return cls._instances[-1]()
+        with _instances_lock:
+            cls._instances[:] = [instance for instance in cls._instances if instance() is not None]
+            for instance in list(cls._instances):
+                o = instance()
+                if o is not None and o.lower == lower and o.upper == upper:
+                    return o
+            newfunc = super(Transformation, cls).__new__
+            if newfunc is object.__new__:
+                o = newfunc(cls)
+            else:
+                o = newfunc(cls, lower, upper, *args, **kwargs)
+            # found by its bounds as of now
+            o.lower, o.upper = lower, upper
+            cls._instances.append(weakref.ref(o))
+            return o
     def __getnewargs__(self):
         # needed for pickling and copying, to get hold of the same instance
         return self.lower, self.upper
-- 
2.43.0


From c5fb8aa775e19efd6d84a0ba62db1bf67e541a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 69/71] fix: a randomize which failed left the updates of the
 model switched off

---
 paramz/core/parameter_core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 1be4de9..3c2acf1 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -248,13 +248,15 @@ class OptimizationHandlable(Constrainable):
         x = rand_gen(size=self._size_transformed(), *args, **kwargs)
         updates = self.update_model()
         self.update_model(False) # Switch off the updates
-        self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
-        # now draw from prior where possible
-        x = self.param_array.copy()
-        unfixlist = np.ones((self.size,),dtype=bool)
-        unfixlist[self.constraints[__fixed__]] = False
-        self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
-        self.update_model(updates)
+        try:
+            self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
+            # now draw from prior where possible
+            x = self.param_array.copy()
+            unfixlist = np.ones((self.size,),dtype=bool)
+            unfixlist[self.constraints[__fixed__]] = False
+            self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
+        finally:
+            self.update_model(updates)
 
     #===========================================================================
     # For shared memory arrays. This does nothing in Param, but sets the memory
-- 
2.43.0


From 25133f022229cfc12731c6a675409f6dec6b5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 70/71] fix: linking at something which is no position unlinked
 the parameter

---
 paramz/parameterized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 704454e..68b7bbf 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -40,6 +40,7 @@ from .core.parameter_core import Parameterizable, adjust_name_for_printing
 from .core import HierarchyError
 
 import logging
+import operator
 from collections import OrderedDict
 from functools import reduce
 logger = logging.getLogger("parameters changed meta")
@@ -139,6 +140,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         Add all parameters to this param class, you can insert parameters
         at any given index using the :func:`list.insert` syntax
         """
+        if index is not None:
+            index = operator.index(index) # raises, if this is not a position
         if param in self.parameters and index is not None:
             self.unlink_parameter(param)
             return self.link_parameter(param, index)
-- 
2.43.0


From 4920c6e5bfb8a0bd59486398365ae96d69b92d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:52 +0000
Subject: [PATCH 71/71] fix: is_fixed of a slice tells about the elements of
 the slice

The number of fixed elements of the whole parameter was compared with the size
of the slice, so that a slice without any fixed element could be called fixed,
and a slice of a completely fixed parameter not.
---
 paramz/param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 05e3654..8d3877a 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -194,7 +194,8 @@ class Param(Parameterizable, ObsAr):
     @property
     def is_fixed(self):
         from paramz.transformations import __fixed__
-        return self.constraints[__fixed__].size == self.size
+        # a slice is fixed, if the elements it addresses are
+        return bool(np.isin(self._raveled_index(), self.constraints[__fixed__]).all())
 
     def _get_original(self, param):
         return self._original_
-- 
2.43.0

