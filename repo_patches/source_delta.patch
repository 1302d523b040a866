From 22c1d91b00862fd54d7eec5f06b10fcb704b6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 01/28] fix: save and load structures on Python 3

save() and struct_load() called file(), which does not exist in Python 3.
They now use open() and close the file, so that write errors reach the caller.
---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..b36fb92 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1487,4 +1489,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From 5aa8e19615b76a75470e43d1297ae5f02c30dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 02/28] fix: do not share pickle state between structures of
 one layout

The state of each structure was written into a dict owned by the shared layout.
Pickling several values of the same layout together gave all of them the values
of one.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b36fb92..3bcd16c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -908,7 +908,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1070,7 +1070,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From 70fd65e32e3fb4ad15878fb7c82a742fe72991d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 03/28] fix: keep the full sparsity of symmetric entries when
 pickling

Assigning a matrix to a symmetric entry of an unpickled structure failed.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3bcd16c..82e1a74 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1326,7 +1326,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From de98837e1525c61e5965b5fe0ece34b2c3dc7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 04/28] fix: do not swallow exceptions while interleaving
 grouped entries

A keyboard interrupt or a memory error silently truncated the layout.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 82e1a74..128bb0d 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -78,7 +78,7 @@ def intersperseIt(*args):
   while any(active):
     try:
       yield next(iterators[i])
-    except:
+    except StopIteration:
       active[i] = False
     i = (i + 1) % len(args)
 
-- 
2.43.0


From 8ec90078b52f5aeddb0e88e3ba6104f96208e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 05/28] fix: let interrupts and memory errors out of the
 argument type selection

A keyboard interrupt or a memory error during the conversion to DM was
swallowed, and the caller got a structure of another matrix type.
---
 casadi_extras/structure3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 128bb0d..911cbcd 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -453,7 +453,7 @@ class CasadiStructureDerivable:
       try:
         a = DM(arg)
         mtype = DM
-      except:
+      except (RuntimeError,TypeError,ValueError):
         pass
 
     if mtype is None:
@@ -464,7 +464,7 @@ class CasadiStructureDerivable:
         try:
           a = MX(arg)
           mtype = MX
-        except:
+        except (RuntimeError,TypeError,ValueError):
           pass
 
     if mtype is None:
@@ -475,7 +475,7 @@ class CasadiStructureDerivable:
         try:
           a = SX(arg)
           mtype = SX
-        except:
+        except (RuntimeError,TypeError,ValueError):
           raise Exception("Call to Structure has weird argument: expecting DM-like or MX-like or SXMatrix-like")
 
     return (a,mtype)
-- 
2.43.0


From fd0dc5fe6568b849afb0ffeafbf5a247e03c3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 06/28] fix: return a copy of cached MX entries

Editing the result of a read in place changed what later reads returned.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 911cbcd..e9a1080 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -588,7 +588,7 @@ class GetterDispatcher(Dispatcher):
       if canonicalIndex in self.priority_object_map and (extraIndex is None or len(extraIndex)==0):
         r = self.priority_object_map[canonicalIndex]
         if type is None:
-          return r
+          return MX(r)
         elif type=="symm":
           return triu2symm(r)
         else:
-- 
2.43.0


From 0f9210093ec842c7dea52903f063392055afda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 07/28] fix: read assigned values back from struct_MX_mutable

Reads returned the expressions cached at construction even after an assignment.
---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e9a1080..e58c2e9 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1093,6 +1093,12 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  @properGetitem
+  def __setitem__(self,powerIndex,value):
+    # The cached expressions do not follow changes of master
+    self.priority_object_map = {}
+    return MatrixStruct.__setitem__(self,powerIndex,value)
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 88435f5147411bd7a0af7541f5e2aa5550340bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 08/28] fix: support MX data in repeated views

The cached expressions were split from the matrix instead of its vector form,
so that repeated() and squared_repeated() failed for several columns of MX.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e58c2e9..e097a86 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -969,7 +969,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0


From c9a3fcf1cd8043e4e69c4a8c636e5d2153c1ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 09/28] fix: write only the assigned elements through repeated
 views

Each write copied the whole vector form back into the matrix. Concurrent writes
to different elements could be lost, and an interrupt in between left the view
and the matrix different.
---
 casadi_extras/structure3.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e097a86..e36b0b5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1429,12 +1429,10 @@ class DataReferenceRepeated(DataReference):
     self.v = a.reshape((n*a.size1(),1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
-    I = self.a.sparsity().find()
-    self.a.nz[I] = self.v.nz[I]
+    self.a.nz[a] = b
 
   def __getitem__(self,a):
-    return self.v.nz[a]
+    return self.a.nz[a]
 
 class DataReferenceSquared(DataReference):
   def __init__(self,a,n):
@@ -1486,12 +1484,10 @@ class DataReferenceSquaredRepeated(DataReference):
     self.v = a.reshape((n*n*N,1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
-    I = self.a.sparsity().find()
-    self.a.nz[I] = self.v.nz[I]
+    self.a.nz[a] = b
 
   def __getitem__(self,a):
-    return self.v.nz[a]
+    return self.a.nz[a]
 
 def struct_load(filename):
     import pickle
-- 
2.43.0


From 1919479a9d524ddd85a50178e15c1461c3d07320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 10/28] fix: index symmetric entries after expanding them

Reading an element below the diagonal of a symmetric entry gave zero, and
reading a part of it that is not square failed.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e36b0b5..99a3c49 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -600,7 +600,7 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return triu2symm(self.master[i])
+          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From 32ab7240d15ed0979a13e4b9e4271385416423b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 11/28] fix: treat each name in a list of names like a single
 name

Lists of names failed for repeated entries and nested indices, and returned
only the upper triangle of symmetric entries.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 99a3c49..da28dce 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From 160c102eb8105d816bcf94be219e7f8c7469a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 12/28] fix: return (row, column) from getCanonicalIndex with
 extraMode=2

The pair was in column, row order, so that using it as an index named another
element.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index da28dce..338ac13 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -812,7 +812,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From ca7bd950e6cb8056f6cb4a4a531ac323d69aaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:50 +0000
Subject: [PATCH 13/28] fix: return the concatenation of struct_MX that was
 just made

The concatenation was passed through an attribute, where another thread could
replace it by an older one before it was returned. Casting the structure twice
for one CasADi call freed the first result while it was still in use.
---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 338ac13..daf3569 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1114,6 +1114,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
 
     self.storage = []
     self.mapping = {}
+    self.master_cached = collections.deque(maxlen=8)
     for k,i in enumerate(self.struct.traverseCanonicalIndex(limit=1)):
       self.storage.append(None)
       self.mapping[tuple(i)] = k
@@ -1163,10 +1164,12 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
       missing = [k for k in list(self.mapping.keys()) if self.storage[self.mapping[k]] is None]
       raise Exception("Problem in MX vecNZcat structure cat: missing expressions. The following entries are missing: %s" % str(missing))
 
-    if self.dirty:
-      self.master_cached = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
+    master = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
 
-    return self.master_cached
+    # CasADi borrows what __MX__ returns while it collects the arguments of a call
+    self.master_cached.append(master)
+
+    return master
 
 
 struct_symSX = ssymStruct
-- 
2.43.0


From f9261468c4b37e723b4b179701f733ea6353cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:40 +0000
Subject: [PATCH 14/28] fix: make CasADi see only the data shown by a prefix
 view

Passing a prefix view to a CasADi function used the whole structure instead of
the part the view shows, because attributes were delegated to the underlying
vector. The result of the cast is kept because CasADi borrows it while it
collects the arguments of a call.
---
 casadi_extras/structure3.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index daf3569..66ac0e2 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -699,6 +699,7 @@ class Prefixer:
     self.struct = struct
     self.prefix = prefix
     self.castmaster = castmaster
+    self.casted = collections.deque(maxlen=8)
 
     methods = [ "__DM__", "__SX__","__MX__"]
     for m in methods:
@@ -714,10 +715,10 @@ class Prefixer:
   def __getattr__(self,name):
     # When attributes are not found, delegate to self()
     # This allows for e.g. sin(x) and x+1 to work
-    if isinstance(self.struct.master,DataReference):
-      t = self.struct.master.a
-    else:
-      t = self.struct.master
+    if name=="this":
+      # Not a wrapped CasADi object: make CasADi use the casts instead
+      raise AttributeError(name)
+    t = self.cast()
     if not(isinstance(t,list) or isinstance(t,dict) or isinstance(t,tuple)):
       return getattr(t,name)
 
@@ -728,7 +729,10 @@ class Prefixer:
       else:
         return self.struct.master
     else:
-      return self()
+      # CasADi borrows the result while it collects the arguments of a call
+      r = self()
+      self.casted.append(r)
+      return r
 
   def __str__(self):
     return "prefix( " + str(self.prefix) + "," + self.struct.__str__(compact=True) + ")"
-- 
2.43.0


From c336254bbfd3a0229526b4af3082d951287d7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 15/28] fix: extract polynomials with zero leading coefficients

numpy drops leading zeros, so that the scaling vector had the wrong length.
---
 casadi_extras/collocation/piecewise_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..e238104 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -125,7 +125,7 @@ class PiecewisePoly(object):
         '''
         p = self._basis.compose(self._coefficients[n])
         for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(p_i.order + 1))
 
         return p
 
-- 
2.43.0


From 7f53c25a71909ea4b1f6f62eb55973d6c73ef85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:03 +0000
Subject: [PATCH 16/28] fix: left-continuous interpolation

The columns were off by one and the right interval was used at the boundaries.
---
 casadi_extras/collocation/collocation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..dfdd897 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -220,12 +220,14 @@ class _PdqInterpolator(object):
         self._pdq = pdq
         self._continuity = continuity
         self._groups = groups
+        self._columns = [g - 1 for g in groups] if continuity == 'left' else groups
         
 
     def __call__(self, x, t):
         pdq = self._pdq
         continuity = self._continuity
-        groups = self._groups
+        columns = self._columns
+        side = 'left' if continuity == 'left' else 'right'
 
         expected_x_cols = pdq._collocationPoints.size if continuity == 'both' else pdq._collocationPoints.size - 1
         if x.shape[1] != expected_x_cols:
@@ -234,8 +236,8 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            l.append(np.dot(x[:, columns[i]], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From 94bad08d6dd8233101b94e6a8d133ef9c44474c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:29 +0000
Subject: [PATCH 17/28] fix: allow row vectors in nested structures

Declaring a nested structure with a row vector next to other entries failed, and
a nested structure made only of row vectors was not indexed as a column.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 66ac0e2..8ccd4a5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -824,7 +824,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From 964b57cc9869a0b2b2a3aee7ac26ec5b1fd5f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 18/28] fix: assign both triangles of a symmetric entry in one
 step

An interrupt or another thread between the two assignments saw the entry half
updated.
---
 casadi_extras/structure3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 8ccd4a5..ad62aab 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -619,15 +619,15 @@ class SetterDispatcher(Dispatcher):
           self.master[i] = payload_
         elif type=="symm":
           iflip = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry,flip=True)
+          # Both triangles are assigned at once, such that the entry is never half updated
+          both = vertcat(casadi.vec(iflip.nz[:]),casadi.vec(i.nz[:]))
           if payload_.is_scalar():
-            self.master[i] = payload_
-            self.master[iflip] = payload_
+            self.master[both] = payload_
           else:
             oi = performExtraIndex(DM.ones(entry.originalsparsity),extraIndex=extraIndex,entry=entry)
             if oi.sparsity()!=payload_.sparsity():
               raise Exception("Payload sparsity " + payload_.dim() +  " does not match lhs sparisty " + oi.dim() + "." )
-            self.master[iflip] = payload_.T[iflip.sparsity()]
-            self.master[i] = payload_[i.sparsity()]
+            self.master[both] = vertcat(casadi.vec(payload_.T[iflip.sparsity()].nz[:]),casadi.vec(payload_[i.sparsity()].nz[:]))
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except NotImplementedError as e:
-- 
2.43.0


From ddeff96f8d8d44142fc5ac229ba8798ab3b14424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:57 +0000
Subject: [PATCH 19/28] fix: assign elements below the diagonal of symmetric
 entries by one index

Such an assignment was silently ignored, while the same element given by row and
column was assigned.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index ad62aab..da87124 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -682,7 +682,7 @@ def performExtraIndex(i,extraIndex=None,entry=None,flip=False):
       if len(extraIndex)==1:
         a = extraIndex[0]
         a = delegation(a,entry,0)
-        return i.__getitem__(a)
+        return (i.T if flip else i).__getitem__(a)
       else:
         a,b = extraIndex
         a = delegation(a,entry,0)
-- 
2.43.0


From 01dc78b09c4526757a824b0cae51a419002b5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:24 +0000
Subject: [PATCH 20/28] fix: keep cast results alive for each thread separately

With a common list, other threads casting the same structure could push out a
result before CasADi had used it, which crashed the interpreter.
---
 casadi_extras/structure3.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index da87124..6fd745a 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -33,6 +33,7 @@ else:
   import __builtin__
   builtins = __builtin__
 import collections
+import threading
 
 def is_integer(a):
   return isinstance(a,int) or isinstance(a,np.integer)
@@ -694,12 +695,24 @@ def performExtraIndex(i,extraIndex=None,entry=None,flip=False):
     return i
 
 
+class CastResults(threading.local):
+  """
+    CasADi borrows what a cast returns while it collects the arguments of a call.
+    Keeps the latest results of each thread alive.
+  """
+  def __init__(self):
+    self.kept = collections.deque(maxlen=8)
+
+  def __call__(self,r):
+    self.kept.append(r)
+    return r
+
 class Prefixer:
   def __init__(self,struct,prefix,castmaster=False):
     self.struct = struct
     self.prefix = prefix
     self.castmaster = castmaster
-    self.casted = collections.deque(maxlen=8)
+    self.casted = CastResults()
 
     methods = [ "__DM__", "__SX__","__MX__"]
     for m in methods:
@@ -729,10 +742,7 @@ class Prefixer:
       else:
         return self.struct.master
     else:
-      # CasADi borrows the result while it collects the arguments of a call
-      r = self()
-      self.casted.append(r)
-      return r
+      return self.casted(self())
 
   def __str__(self):
     return "prefix( " + str(self.prefix) + "," + self.struct.__str__(compact=True) + ")"
@@ -1118,7 +1128,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
 
     self.storage = []
     self.mapping = {}
-    self.master_cached = collections.deque(maxlen=8)
+    self.master_cached = CastResults()
     for k,i in enumerate(self.struct.traverseCanonicalIndex(limit=1)):
       self.storage.append(None)
       self.mapping[tuple(i)] = k
@@ -1168,12 +1178,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
       missing = [k for k in list(self.mapping.keys()) if self.storage[self.mapping[k]] is None]
       raise Exception("Problem in MX vecNZcat structure cat: missing expressions. The following entries are missing: %s" % str(missing))
 
-    master = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
-
-    # CasADi borrows what __MX__ returns while it collects the arguments of a call
-    self.master_cached.append(master)
-
-    return master
+    return self.master_cached(vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage]))
 
 
 struct_symSX = ssymStruct
-- 
2.43.0


From a516aae9143a9f8364343f6196f8c120086c4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:39 +0000
Subject: [PATCH 21/28] fix: extra index of sparse entries in getCanonicalIndex

With extraMode=1 the number counted stored elements. Using it as an index
on a sparse or symmetric entry named another element or failed. It is now
the position in the matrix, column by column.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 6fd745a..97d2586 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -826,7 +826,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
+      self.lookuptable+=[(it,p[0]+p[1]*sp.size1(),p) for p in zip(sp.row(),sp.get_col())]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From ba3175fcdfb212c9ea1e6e70334d5f4cc745306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:09 +0000
Subject: [PATCH 22/28] fix: reads through one view of an MX see writes through
 another

Views of a matrix kept expressions cut from its value at construction.
A write through another view or to the matrix itself was not seen by them.
Views now always read the matrix.
---
 casadi_extras/structure3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 97d2586..289074b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1105,7 +1105,9 @@ class MXStruct(MatrixStruct,VertsplitStructure):
   def __init__(self,struct,data=None):
     MatrixStruct.__init__(self,struct,MX,data=data)
 
-    self.buildMap()
+    # Cached expressions would not follow changes of the referenced matrix through other views
+    if not isinstance(self.master,DataReference):
+      self.buildMap()
 
   @properGetitem
   def __setitem__(self,powerIndex,value):
-- 
2.43.0


From 6491213ce0a64e15263be8e36967ff1625ae0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:21 +0000
Subject: [PATCH 23/28] fix: reject a matrix with one row in parseMatrix

A single row was taken as one scalar per column, and each scalar was
repeated for all elements. Data of the wrong height is now rejected.
---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 289074b..d9cbd62 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -517,6 +517,8 @@ class CasadiStructureDerivable:
     '''
 
     data = np.atleast_2d(data)
+    if data.shape[0] != self.size:
+      raise Exception("Expecting a matrix with %d rows. Got shape %s" % (self.size,str(data.shape)))
     return dict((k, horzcat(*[self(d)[k] for d in data.T])) for k in self.keys())
 
 
-- 
2.43.0


From 4abf86005a93f73e8ab8724fd26041ed48df4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:29 +0000
Subject: [PATCH 24/28] fix: deep copies of views are views

copy.deepcopy found the method of the matrix a view stands for, and
returned a plain matrix without the names of the view.
---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index d9cbd62..1276f4c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -733,6 +733,9 @@ class Prefixer:
     if name=="this":
       # Not a wrapped CasADi object: make CasADi use the casts instead
       raise AttributeError(name)
+    if name=="__deepcopy__":
+      # Copy the view, not the matrix it stands for
+      raise AttributeError(name)
     t = self.cast()
     if not(isinstance(t,list) or isinstance(t,dict) or isinstance(t,tuple)):
       return getattr(t,name)
-- 
2.43.0


From 1481691f1bca187daf04c643c5e75ab57ad9766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:25 +0000
Subject: [PATCH 25/28] fix: keep infinite elements when reading symmetric
 entries

Symmetric entries were read with triu2symm, which subtracts the diagonal.
An infinite diagonal element, for example an unbounded variable, was read as NaN.
---
 casadi_extras/structure3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1276f4c..06aeed1 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -583,6 +583,10 @@ class CasadiStructureDerivable:
     p.castmaster = True
     return p
 
+def upperToSymmetric(a):
+  # Unlike triu2symm, does not subtract the diagonal, such that infinite elements are kept
+  return a + triu(a,False).T
+
 class GetterDispatcher(Dispatcher):
   def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
     type = None if entry is None else entry.type
@@ -593,7 +597,7 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return MX(r)
         elif type=="symm":
-          return triu2symm(r)
+          return upperToSymmetric(r)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
@@ -603,7 +607,7 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
+          return performExtraIndex(upperToSymmetric(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From 9f00e5f03100f3e38277d2523a07901ef9272b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 26/28] fix: interpolate at points extremely close to a node

For a query within about 1e-308 of a node the barycentric weights overflow,
and the interpolated value was NaN. Such a point now counts as the node.
---
 casadi_extras/collocation/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..ba31c6d 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -107,8 +107,11 @@ class PolynomialBasis(object):
         
         r = []
         for xi in t:
-            # Check if xi is in tau
-            ind = xi == self.tau
+            with np.errstate(divide='ignore', over='ignore'):
+                w = self._lam / (xi - self.tau)
+
+            # Check if xi is in tau, or too close to a node to be told apart
+            ind = np.isinf(w)
 
             if np.any(ind):
                 # At a node
@@ -116,7 +119,7 @@ class PolynomialBasis(object):
                 y = ind.astype(float)
             else:
                 # Between nodes
-                y = (self._lam / (xi - self.tau)) / np.sum(self._lam / (xi - self.tau))
+                y = w / np.sum(w)
 
             r.append(y)
 
-- 
2.43.0


From f0629474b70a3d6db0094659a0c08f62be512620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:17 +0000
Subject: [PATCH 27/28] fix: integrate quadratures that depend on parameters

The integrator could not be built when the quadrature of the model depended on
the parameters, because the parameter symbol of the scheme was left free in the
quadrature outputs.
---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index dfdd897..7d8e519 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -542,7 +542,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From dac25444e1ac82a45ed1962bde48ef584f63a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:50 +0000
Subject: [PATCH 28/28] fix: reject time-dependent parameter values of a wrong
 size

A tdp_fun returning an empty value, a row, or a scalar for a vector parameter
was accepted in some cases. The scheme was then built with zero or repeated
parameter values, or with doubled equations.
---
 casadi_extras/collocation/collocation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 7d8e519..f053274 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -303,7 +303,10 @@ class CollocationScheme(object):
         
         # Values of the time-dependent parameter
         if tdp_fun is not None:
-            tdp_val = cs.horzcat(*[tdp_fun(t) for t in tc])
+            tdp_val = [cs.horzcat(tdp_fun(t)) for t in tc]
+            if any(v.numel() != dae.ntdp or v.numel() > 0 and not v.is_column() for v in tdp_val):
+                raise ValueError('tdp_fun must return a column vector with {0} elements'.format(dae.ntdp))
+            tdp_val = cs.horzcat(*tdp_val)
         else:
             assert dae.ntdp == 0
             tdp_val = np.zeros((0, tc.size))
-- 
2.43.0

